// P21: simulators of different threads under ThreadSanitizer; every thread's transcript has to equal the one of the same work done alone.
#include "props/apimix.h"
#include <atomic>
#include <thread>
using namespace sim;
static std::string text(const MixResult& r) { std::string o; for (size_t i = r.tail.size() > 4 ? r.tail.size() - 4 : 0; i < r.tail.size(); ++i) o += r.tail[i].substr(0, 120) + " | "; return o; }
static void pauseABit(vh::Rng& g) { switch (g.below(40)) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds(g.below(60))); break; default: break; } }
// all threads build their own simulators from their own specification, or from one specification they share read-only
VH_PART(own_simulators, 4) {
    auto& g = ctx.rng; size_t n = g.range(2, 8); std::vector<uint64_t> seed(n), nap(n); std::vector<Std> st(n); bool same = g.coin(), shared = g.chance(1, 3); Std s0 = Std(g.below(NSTD));
    for (size_t i = 0; i < n; ++i) { seed[i] = same && g.coin() && i ? seed[0] : g.next(); nap[i] = g.next(); st[i] = shared || g.chance(1, 3) ? s0 : Std(g.below(NSTD)); }
    Spec sp = randomSpec(g, s0, {}); std::vector<MixResult> par(n); std::vector<std::string> err(n); std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] {
        vh::Rng w(nap[i]); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        try { par[i] = apiMix(vh::Rng(seed[i]), st[i], false, 30, [&] { pauseABit(w); }, shared ? &sp : nullptr); } catch (const std::exception& e) { err[i] = e.what(); }
    });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < n; ++i) {
        ctx.check(err[i].empty(), "exception-in-thread", err[i]); if (!err[i].empty()) continue;
        auto alone = apiMix(vh::Rng(seed[i]), st[i], false, 30, [] {}, shared ? &sp : nullptr);
        ctx.eval(alone.obs); ctx.check(alone.digest == par[i].digest, "differs-from-single-threaded-run", alone.where + " alone " + text(alone) + " concurrent " + text(par[i]));
        ctx.count("thread_runs"); ctx.count("observations", alone.obs); ctx.fp(alone.digest); if (ctx.caseIdx < 5) ctx.sample(alone.where);
    }
    ctx.count("threads." + std::to_string(n)); if (shared) ctx.count("cases_with_shared_specification");
}
// copies made of one used simulator are handed to threads which continue them independently
VH_PART(copies_of_one, 3) {
    auto& g = ctx.rng; Std std = Std(g.below(NSTD)); Session S(g, std, {}); auto base = S.make(); size_t pre = g.range(0, 12); for (size_t i = 0; i < pre; ++i) { Op o; if (!S.next(o)) break; apply(*base, o); }
    size_t n = g.range(2, 6); std::vector<std::vector<Op>> ops(n); std::vector<std::vector<uint64_t>> at(n); std::vector<uint64_t> end(n);
    // every copy gets its own continuation of the common beginning, generated ahead of time
    for (size_t i = 0; i < n; ++i) {
        uint64_t t = S.gen->busIdleAt() + 2; bool on = S.dbiOn;
        size_t k = g.range(3, 20); for (size_t j = 0; j < k; ++j) { t += g.range(1, 80); Op o; if (g.chance(1, 3)) { o.k = Op::DBI; o.t = t; o.on = on = !on; } else { o.c.t = t; o.c.type = CmdType::NOP; o.k = Op::META; o.m1 = uint16_t(g.next()); } ops[i].push_back(o); at[i].push_back(t); }
        end[i] = t + g.below(300);
    }
    auto work = [&](Dev& d, size_t i, vh::Rng* w) { std::string r; for (size_t j = 0; j < ops[i].size(); ++j) { r += apply(d, ops[i][j]) ? '1' : '0'; if (w) pauseABit(*w); auto st = d.window(at[i][j]); r += js(st).dump() + js(d.coreE(st)).dump() + js(d.ifE(st)).dump(); auto c = d.copy(); r += js(c->window(at[i][j])).dump(); } r += js(d.window(end[i])).dump(); return r; };
    std::vector<std::unique_ptr<Dev>> a, b; for (size_t i = 0; i < n; ++i) { a.push_back(base->copy()); b.push_back(base->copy()); } base.reset();
    std::vector<std::string> par(n), err(n); std::vector<std::thread> th; std::vector<uint64_t> nap(n); for (auto& x : nap) x = g.next();
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] { vh::Rng w(nap[i]); try { par[i] = work(*a[i], i, &w); a[i].reset(); } catch (const std::exception& e) { err[i] = e.what(); } });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < n; ++i) { ctx.check(err[i].empty(), "exception-in-thread", err[i]); auto w = work(*b[i], i, nullptr); ctx.check(w == par[i], "copy-differs-from-single-threaded-run", S.where()); ctx.count("copies_continued"); ctx.fp(vh::hashStr(w)); }
}
