#include "vh.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <csignal>
#include <cstdlib>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <exception>
#include <typeinfo>
#include <thread>
#include <atomic>
#include <memory>

namespace vh {
std::vector<Part>& parts() { static std::vector<Part> p; return p; }
void Ctx::fail(const std::string& key, const std::string& msg) {
    if (verbose) fprintf(stderr, "FAIL key=%s case=%llu %s\n", key.c_str(), (unsigned long long)caseIdx, msg.c_str());
    // keep first occurrence per key per case, bounded per key
    size_t n = 0;
    for (auto& f : fails) { if (f.key == key) { if (f.caseIdx == caseIdx) return; ++n; } }
    if (n >= 3) return;
    fails.push_back({caseIdx, key, msg.substr(0, 1500)});
}
bool Ctx::near(double got, double want, const char* key, const std::string& where, double rel, double absTol) {
    ++evals;
    if (std::isnan(got) && std::isnan(want)) return true;
    double d = std::fabs(got - want);
    if (d <= absTol || d <= rel * std::max(std::fabs(got), std::fabs(want)) || got == want) return true;
    std::ostringstream o; o.precision(17);
    o << where << ": got " << got << " expected " << want;
    fail(key, o.str());
    return false;
}
static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
} // namespace vh

using namespace vh;

struct Shared { volatile uint64_t curCase; volatile uint64_t done; };
static Shared* g_sh;

static void onAlarm(int) {
    const char m[] = "VH-HANG: case exceeded its CPU budget\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

// The same workloads from several threads at once, each with state and an oracle of its own. What fails alone too is not an interference
// and is left to the property it belongs to; the race detector watches throughout.
static void concurrentCase(const std::vector<Part>& ps, Ctx& ctx, uint64_t mixs, unsigned threads) {
    unsigned total = 0; for (auto& p : ps) total += p.weight;
    Rng g(mixs); size_t n = g.range(2, threads); bool samePart = g.coin(), sameCase = samePart && g.chance(1, 4);
    auto one = [&] { uint64_t slot = g.below(total); for (auto& q : ps) { if (slot < q.weight) return &q; slot -= q.weight; } return &ps[0]; };
    std::vector<const Part*> part(n, one()); std::vector<uint64_t> seed(n, g.next()); for (size_t i = 1; i < n; ++i) { if (!samePart) part[i] = one(); if (!sameCase) seed[i] = g.next(); }
    auto run = [&](size_t i, Ctx& x) {
        x.seed = ctx.seed; x.thorough = ctx.thorough; x.caseIdx = ctx.caseIdx; x.rng = Rng(seed[i]); x.counters[std::string("cases.") + part[i]->name]++;
        try { part[i]->fn(x); } catch (const std::exception& e) { x.fail(std::string("exception:") + part[i]->name, std::string(typeid(e).name()) + ": " + e.what()); } catch (...) { x.fail(std::string("exception:") + part[i]->name, "non-standard exception"); }
    };
    std::vector<Ctx> cs(n); std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); run(i, cs[i]); });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < n; ++i) {
        auto& x = cs[i]; ctx.evals += x.evals; for (auto& kv : x.counters) ctx.counters[kv.first] += kv.second; for (auto h : x.fps) ctx.fp(h); if (!x.samples.empty()) ctx.sample(x.samples[0]);
        if (x.fails.empty()) continue;
        Ctx alone; run(i, alone); for (auto& f : x.fails) { bool also = false; for (auto& h : alone.fails) also |= h.key == f.key; if (!also) ctx.fail("concurrent:" + f.key, f.msg); }
    }
    ctx.counters["concurrent_cases"]++; ctx.counters["threads." + std::to_string(n)]++;
}

int main(int argc, char** argv) {
    uint64_t seed = 1, from = 0, to = 1, step = 1; std::string out, prog, scratch, partSel; bool thorough = false, verbose = false; unsigned cpu = 60, threads = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(nx());
        else if (a == "--from") from = std::stoull(nx());
        else if (a == "--to") to = std::stoull(nx());
        else if (a == "--step") step = std::stoull(nx());
        else if (a == "--out") out = nx();
        else if (a == "--progress") prog = nx();
        else if (a == "--scratch") scratch = nx();
        else if (a == "--part") partSel = nx();
        else if (a == "--cpu") cpu = unsigned(std::stoul(nx()));
        else if (a == "--threads") threads = unsigned(std::stoul(nx()));
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
    }
    Shared local{}; g_sh = &local;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("progress"); return 96; }
        g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    // Library chatter is not part of the observation.
    static NullBuf& nul = *new NullBuf; // outlives static destruction; unbuffered, so it is as thread-safe as the real one
    if (!verbose) std::cout.rdbuf(&nul);
    signal(SIGVTALRM, onAlarm);
    auto& ps = parts();
    std::sort(ps.begin(), ps.end(), [](const Part& a, const Part& b) { return std::strcmp(a.name, b.name) < 0; });
    if (!partSel.empty()) { std::string l = "," + partSel + ","; ps.erase(std::remove_if(ps.begin(), ps.end(), [&](const Part& p) { return l.find("," + std::string(p.name) + ",") == std::string::npos; }), ps.end()); if (ps.empty()) { std::cerr << "no such part\n"; return 96; } }
    unsigned total = 0; for (auto& p : ps) total += p.weight;
    Ctx ctx; ctx.seed = seed; ctx.thorough = thorough; ctx.verbose = verbose; ctx.scratch = scratch;
    uint64_t ncases = 0;
    for (uint64_t c = from; c < to; c += step) {
        g_sh->curCase = c;
        struct itimerval tv{}; tv.it_value.tv_sec = cpu; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        uint64_t mixs = seed * 0x9E3779B97F4A7C15ULL + c * 0xD1B54A32D192ED03ULL + 0x1234567;
        ctx.rng = Rng(mixs); ctx.caseIdx = c;
        if (threads > 1) { concurrentCase(ps, ctx, mixs, threads); ++ncases; g_sh->done = ncases; continue; }
        // deal cases to parts by weight, deterministically from the case index
        uint64_t slot = (c * 7919ULL) % total; const Part* p = nullptr;
        for (auto& q : ps) { if (slot < q.weight) { p = &q; break; } slot -= q.weight; }
        if (verbose) fprintf(stderr, "case %llu part %s\n", (unsigned long long)c, p->name);
        ctx.counters[std::string("cases.") + p->name]++;
        try { p->fn(ctx); }
        catch (const std::exception& e) { ctx.fail(std::string("exception:") + p->name, std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what()); }
        catch (...) { ctx.fail(std::string("exception:") + p->name, "unexpected non-standard exception"); }
        ++ncases; g_sh->done = ncases;
    }
    std::ofstream o(out.empty() ? "/dev/stderr" : out.c_str());
    o << "{\"cases\":" << ncases << ",\"evals\":" << ctx.evals << ",\"counters\":{";
    bool first = true;
    for (auto& kv : ctx.counters) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
    o << "},\"samples\":["; first = true;
    for (auto& s : ctx.samples) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
    o << "],\"fails\":["; first = true;
    for (auto& f : ctx.fails) { o << (first ? "" : ",") << "{\"case\":" << f.caseIdx << ",\"key\":\"" << jesc(f.key) << "\",\"msg\":\"" << jesc(f.msg) << "\"}"; first = false; }
    o << "]}\n"; o.close();
    if (!out.empty()) {
        std::ofstream fo(out + ".fp", std::ios::binary);
        for (uint64_t h : ctx.fps) fo.write(reinterpret_cast<const char*>(&h), 8);
    }
    return 0;
}
