// P15 (built with NDEBUG, plus ASan/UBSan): traces, configurations, results and output-path validation of the command line tool, through its library functions and its real main().
#include "sim/session.h"
#include <DRAMPower/cli/run.hpp>
#include <DRAMPower/cli/config.h>
#include <validators.h>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/ostream_sink.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <cmath>
#include <cstdlib>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
int drampower_cli_main(int argc, char* argv[]);
using namespace sim; namespace cli = DRAMPower::DRAMPowerCLI; using C = DP::CmdType;
static const std::vector<std::pair<const char*, C>> NAMES = {{"NOP", C::NOP}, {"RD", C::RD}, {"WR", C::WR}, {"RDA", C::RDA}, {"WRA", C::WRA}, {"ACT", C::ACT}, {"PRE", C::PRE}, {"REFB", C::REFB}, {"REFP2B", C::REFP2B}, {"REFDB", C::REFDB}, {"PRESB", C::PRESB}, {"REFSB", C::REFSB}, {"PREA", C::PREA}, {"REFA", C::REFA},
    {"PDEA", C::PDEA}, {"PDEP", C::PDEP}, {"PDXA", C::PDXA}, {"PDXP", C::PDXP}, {"SREFEN", C::SREFEN}, {"SREFEX", C::SREFEX}, {"DSMEN", C::DSMEN}, {"DSMEX", C::DSMEX}, {"END", C::END_OF_SIMULATION}};
static const char* nameOf(C t) { for (auto& [n, c] : NAMES) if (c == t) return n; return "NOP"; }
static bool transfers(C t) { return t == C::RD || t == C::WR || t == C::RDA || t == C::WRA; }
static void put(const std::string& p, const std::string& s) { std::ofstream o(p, std::ios::binary); o << s; }
static std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Quiet { // everything the tool logs goes to a string, everything it prints is dropped
    std::ostringstream log, err; std::streambuf* old; std::shared_ptr<spdlog::logger> was;
    Quiet() { old = std::cerr.rdbuf(err.rdbuf()); was = spdlog::default_logger(); auto l = std::make_shared<spdlog::logger>("vh", std::make_shared<spdlog::sinks::ostream_sink_mt>(log)); l->set_pattern("%v"); spdlog::set_default_logger(l); }
    ~Quiet() { spdlog::set_default_logger(was); std::cerr.rdbuf(old); }
};
// ---- traces
struct Row { uint64_t t; C type; uint64_t rank, bg, bank, row, col; std::vector<uint8_t> data; };
struct Style { bool crlf, spaces, blanks, lastNewline, zeros; };
static Style style(vh::Rng& g) { return {g.chance(1, 4), g.chance(1, 3), g.chance(1, 5), g.chance(3, 4), g.chance(1, 4)}; }
static std::string hexOf(vh::Rng& g, const std::vector<uint8_t>& d) {
    const char* lo = "0123456789abcdef"; const char* up = "0123456789ABCDEF"; int k = int(g.below(3)); std::string s = g.chance(1, 3) ? "0x" : g.chance(1, 3) ? "0X" : "";
    for (auto b : d) for (int h : {b >> 4, b & 15}) s += (k == 0 ? lo : k == 1 ? up : g.coin() ? lo : up)[h];
    return s;
}
static std::vector<std::string> cells(vh::Rng& g, const Row& r, const Style& y) {
    auto n = [&](uint64_t v) { return (y.zeros && g.chance(1, 4) ? std::string(g.range(1, 3), '0') : "") + std::to_string(v); };
    std::vector<std::string> c{n(r.t), nameOf(r.type), n(r.rank), n(r.bg), n(r.bank), n(r.row), n(r.col)};
    if (transfers(r.type)) c.push_back(hexOf(g, r.data)); else if (g.chance(1, 20)) c.push_back(g.pick({"", "ff", "note"}));
    return c;
}
static std::string line(vh::Rng& g, const std::vector<std::string>& c, const Style& y) {
    std::string o; auto pad = [&] { std::string s; if (y.spaces) while (g.chance(1, 3)) s += g.pick({' ', '\t'}); return s; };
    for (size_t i = 0; i < c.size(); ++i) o += (i ? "," : "") + pad() + c[i] + pad();
    return o;
}
static std::string text(vh::Rng& g, const std::vector<std::vector<std::string>>& rows, const Style& y) {
    std::string o, nl = y.crlf ? "\r\n" : "\n"; bool end = y.lastNewline || rows.back().back().empty();
    for (size_t i = 0; i < rows.size(); ++i) { o += line(g, rows[i], y); if (i + 1 < rows.size() || end) { o += nl; while (y.blanks && g.chance(1, 6)) o += nl; } }
    return o;
}
static Row randomRow(vh::Rng& g, uint64_t& t) {
    Row r; t += g.chance(1, 30) ? g.below(1ull << 58) : g.below(1000); if (t > INT64_MAX) t = INT64_MAX; r.t = t; r.type = g.pick(NAMES).second; auto n = [&]() -> uint64_t { return g.chance(1, 12) ? g.pick({uint64_t(INT64_MAX), (uint64_t(1) << 53) + 1, uint64_t(UINT32_MAX), uint64_t(INT32_MAX) + 1, uint64_t(255)}) : g.below(g.pick({4, 40, 100000})); };
    r.rank = n(); r.bg = n(); r.bank = n(); r.row = n(); r.col = n(); if (transfers(r.type)) { r.data.resize(g.chance(1, 10) ? 0 : g.pick({size_t(1), size_t(4), size_t(8), size_t(g.range(1, 70))})); for (auto& b : r.data) b = uint8_t(g.next()); }
    return r;
}
using List = std::vector<std::pair<DP::Command, std::unique_ptr<uint8_t[]>>>;
static int parse(const std::string& path, List& l, std::string& what) { try { return cli::parse_command_list(path, l); } catch (const std::exception& e) { what = e.what(); return -1; } }
static std::string show(const Row& r) { std::ostringstream o; o << r.t << "," << nameOf(r.type) << "," << r.rank << "," << r.bg << "," << r.bank << "," << r.row << "," << r.col << " (" << r.data.size() << " bytes)"; return o.str(); }
static void compare(vh::Ctx& ctx, const std::vector<Row>& rows, const List& l, const std::string& where) {
    { size_t k = 0; while (k < rows.size() && k < l.size() && l[k].first.timestamp == rows[k].t && l[k].first.type == rows[k].type) ++k; if (!ctx.eq(l.size(), rows.size(), "number-of-commands", where + " first deviation at row " + std::to_string(k) + (k < rows.size() ? ": " + show(rows[k]) : "") + (k < l.size() ? " got time " + std::to_string(l[k].first.timestamp) + " type " + std::to_string(int(l[k].first.type)) + " column " + std::to_string(l[k].first.targetCoordinate.column) + " bits " + std::to_string(l[k].first.sz_bits) : "") + " last: " + show(rows.back()))) return; }
    for (size_t i = 0; i < rows.size(); ++i) {
        auto& r = rows[i]; auto& c = l[i].first; std::string w = where + " row " + std::to_string(i) + ": " + show(r);
        bool ok = ctx.eq(c.timestamp, r.t, "row-time", w) & ctx.eq(int(c.type), int(r.type), "row-type", w) & ctx.eq(c.targetCoordinate.rank, r.rank, "row-rank", w) & ctx.eq(c.targetCoordinate.bankGroup, r.bg, "row-bank-group", w)
            & ctx.eq(c.targetCoordinate.bank, r.bank, "row-bank", w) & ctx.eq(c.targetCoordinate.row, r.row, "row-row", w) & ctx.eq(c.targetCoordinate.column, r.col, "row-column", w) & ctx.eq(c.sz_bits, r.data.size() * 8, "row-payload-size", w);
        if (ok && !r.data.empty()) ok = ctx.check(c.data == l[i].second.get() && std::equal(r.data.begin(), r.data.end(), c.data), "row-payload", w);
        if (!ok) return; ctx.count(transfers(r.type) ? "rows_with_payload" : "rows");
    }
}
VH_PART(traces, 6) {
    auto& g = ctx.rng; bool bulk = g.chance(1, 900); size_t n = bulk ? 150000 : g.range(1, g.chance(1, 8) ? 400 : 25); uint64_t t = 0; std::vector<Row> rows; std::vector<std::vector<std::string>> cs; Style y = style(g);
    for (size_t i = 0; i < n; ++i) { rows.push_back(randomRow(g, t)); if (bulk && rows.back().data.size() < 40 && transfers(rows.back().type)) rows.back().data.resize(60, 0x5a); cs.push_back(cells(g, rows.back(), y)); }
    std::string p = ctx.scratch + "/trace.csv", s = text(g, cs, y), what;
    if (bulk && y.crlf && s.size() > 10000000 && g.chance(3, 4)) { auto at = s.rfind("\r\n", 9999999); if (at != std::string::npos) { s.insert(0, 9999999 - at, ' '); ctx.count("line_end_split_between_chunks"); } }
    put(p, s); List l; int r = parse(p, l, what); if (ctx.eq(r, 1, "well-formed-trace-rejected", what + " " + " parsed " + std::to_string(l.size()) + " of " + std::to_string(n) + " rows; " + s.substr(s.size() < 300 ? 0 : s.size() - 300))) compare(ctx, rows, l, "");
    ctx.count(y.crlf ? "traces_crlf" : "traces_lf"); if (s.size() > 10000000) ctx.count("traces_beyond_one_chunk"); ctx.fp(vh::hashStr(s)); ctx.sample(s.substr(0, 120)); ::unlink(p.c_str());
}
// ---- a row that is not a command must be reported, whatever is wrong with it
static std::vector<std::string> spoil(vh::Rng& g, const Row& r, const std::vector<std::string>& good, std::string& kind) {
    auto c = good; size_t num[] = {0, 2, 3, 4, 5, 6}; size_t k = num[g.below(6)];
    switch (g.below(transfers(r.type) ? 12 : 7)) {
        case 0: kind = "missing-column"; c.resize(g.range(1, 6)); break;
        case 1: kind = "empty-number"; c[k] = ""; break;
        case 2: kind = "negative-number"; c[k] = "-" + std::to_string(g.range(1, 1000)); break;
        case 3: kind = "fractional-number"; c[k] = std::to_string(g.below(100)) + g.pick({".5", ".25", ".0625"}); break;
        case 4: kind = "word-for-number"; c[k] = g.pick({"x", "ACT", "abc", "ten", "0x1F", "NaN", "--", "1a", "a1"}); break;
        case 5: kind = "overflowing-number"; c[k] = g.pick({"18446744073709551616", "99999999999999999999999999", "340282366920938463463374607431768211456"}); break;
        case 6: kind = "two-numbers"; c[k] = "1 2"; break;
        case 7: kind = "missing-payload"; c.resize(7); break;
        case 8: kind = "odd-payload"; c[7] += g.pick({"0", "f", "7"}); break;
        case 9: case 10: { kind = "bad-digit"; if (c[7].size() < 2 || (c[7].size() == 2 && c[7][0] == '0' && (c[7][1] | 32) == 'x')) c[7] = "a5"; size_t b = c[7].size() >= 4 && c[7][0] == '0' && (c[7][1] | 32) == 'x' ? 2 : 0; size_t at = b + g.below(c[7].size() - b); char ch = g.pick({'g', 'G', 'x', 'z', '-', '+', '.', '_', 'h', '/', ':', '@', '`'}); if (at == 1 && (ch == 'x' || ch == 'X')) ch = 'g'; c[7][at] = ch; break; }
        default: kind = "split-payload"; c[7] = "a b1"; break;
    }
    return c;
}
VH_PART(corrupted, 5) {
    auto& g = ctx.rng; size_t n = g.range(1, 20); uint64_t t = 0; std::vector<std::vector<std::string>> cs; Style y = style(g); size_t bad = g.below(n); std::string kind; std::vector<Row> before;
    for (size_t i = 0; i < n; ++i) { Row r = randomRow(g, t); auto c = cells(g, r, y); if (i == bad) c = spoil(g, r, c, kind); else if (i < bad) before.push_back(r); cs.push_back(c); }
    std::string p = ctx.scratch + "/trace.csv", s = text(g, cs, y), what; put(p, s); List l; int r = parse(p, l, what);
    if (r < 0) ctx.fail("malformed-row-aborts:" + kind, what + " " + s.substr(0, 300)); else ctx.check(r == 0, ("malformed-row-accepted:" + kind).c_str(), line(g, cs[bad], y));
    ctx.eval(); ctx.count("malformed." + kind); ctx.fp(vh::hashStr(s)); ::unlink(p.c_str());
}
// ---- configurations
static nlohmann::json toggleDoc(vh::Rng& g, DRAMUtils::Config::ToggleRateDefinition& d) {
    using P = DRAMUtils::Config::TogglingRateIdlePattern; d.togglingRateRead = g.unit(); d.togglingRateWrite = g.unit(); d.dutyCycleRead = g.unit(); d.dutyCycleWrite = g.unit(); P v[] = {P::L, P::H}; const char* n[] = {"L", "H"}; int a = int(g.below(2)), b = int(g.below(2)); d.idlePatternRead = v[a]; d.idlePatternWrite = v[b];
    return {{"togglingRateRead", d.togglingRateRead}, {"togglingRateWrite", d.togglingRateWrite}, {"dutyCycleRead", d.dutyCycleRead}, {"dutyCycleWrite", d.dutyCycleWrite}, {"idlePatternRead", n[a]}, {"idlePatternWrite", n[b]}};
}
VH_PART(configurations, 2) {
    auto& g = ctx.rng; std::string p = ctx.scratch + "/config.json"; DRAMUtils::Config::ToggleRateDefinition d{}; bool use = g.coin(), def = g.coin(); nlohmann::json j{{"useToggleRate", use}, {"simconfig", nlohmann::json::object()}}; if (def) j["simconfig"]["toggleRateDefinition"] = toggleDoc(g, d);
    std::string s = j.dump(g.coin() ? 2 : -1); if (g.chance(1, 3)) s = "// rates\n" + s + "\n/* end */\n"; bool valid = !use || def; const char* kind = valid ? "valid" : "rates-without-definition";
    switch (g.below(10)) { case 0: s = s.substr(0, s.rfind('}')); valid = false; kind = "truncated"; break; case 1: s = ""; valid = false; kind = "empty"; break; case 2: { auto k = j; k.erase("useToggleRate"); s = k.dump(); valid = false; kind = "missing-entry"; break; } case 3: { auto k = j; k["useToggleRate"] = "maybe"; s = k.dump(); valid = false; kind = "wrong-type"; break; } case 4: s = "[" + s + "]"; valid = false; kind = "array"; break; }
    put(p, s); if (g.chance(1, 20)) { ::unlink(p.c_str()); valid = false; kind = "missing-file"; } cli::config::CLIConfig c{}; Quiet q; int r; std::string what; try { r = cli::getConfig(p, c); } catch (const std::exception& e) { r = -1; what = e.what(); }
    ctx.check(r == int(valid), (std::string("configuration:") + kind).c_str(), s + " " + what); ctx.count(std::string("configuration.") + kind);
    if (r == 1 && valid) {
        auto& t = c.simconfig.toggleRateDefinition; ctx.check(c.useToggleRate == use && t.has_value() == use, "configuration-rates-presence", s);
        if (use && t) ctx.check(t->togglingRateRead == d.togglingRateRead && t->togglingRateWrite == d.togglingRateWrite && t->dutyCycleRead == d.dutyCycleRead && t->dutyCycleWrite == d.dutyCycleWrite && t->idlePatternRead == d.idlePatternRead && t->idlePatternWrite == d.idlePatternWrite, "configuration-rates", s);
    }
    ctx.fp(vh::hashStr(s)); ::unlink(p.c_str());
}
// ---- the whole tool
static int tool(vh::Ctx& ctx, const std::vector<std::string>& args, Quiet& q, const std::string& where) {
    std::vector<std::string> a{"drampower_cli"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr);
    std::ostringstream out; auto* was = std::cout.rdbuf(out.rdbuf()); int rc; try { rc = drampower_cli_main(int(a.size()), v.data()); } catch (const std::exception& e) { rc = -1; ctx.fail("tool-aborts", where + ": " + e.what()); } std::cout.rdbuf(was); ctx.eval(); return rc;
}
static bool labelled(const std::string& s, const std::string& label, double& v) { size_t p = 0; while ((p = s.find(label + ": ", p)) != std::string::npos) { if (p == 0 || s[p - 1] == ' ' || s[p - 1] == '\n') { v = strtod(s.c_str() + p + label.size() + 2, nullptr); return true; } ++p; } return false; }
static std::vector<std::string> options(vh::Rng& g, const std::vector<std::pair<const char*, std::string>>& o) {
    std::vector<std::vector<std::string>> v; for (auto& [k, val] : o) { std::string l = k, s(1, k[0]); switch (g.below(3)) { case 0: v.push_back({"-" + s, val}); break; case 1: v.push_back({"--" + l, val}); break; default: v.push_back({"--" + l + "=" + val}); } }
    g.shuffle(v); std::vector<std::string> a; for (auto& x : v) a.insert(a.end(), x.begin(), x.end()); return a;
}
static void endToEnd(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; SessionOpt so; so.switches = false; so.dbi = 0; so.gen.huge = g.chance(1, 3); Session S(g, std, so); auto ref = S.make(); size_t n = g.range(1, 60); std::vector<Row> rows; std::vector<std::vector<std::string>> cs; Style y = style(g);
    for (size_t i = 0; i < n; ++i) { Op o; if (!S.next(o)) break; if (o.c.type == C::NOP) continue; Row r{o.c.t, o.c.type, o.c.rank, o.c.bg, o.c.bank, o.c.row, o.c.col, o.c.data}; if (!transfers(r.type)) r.data.clear(); rows.push_back(r); cs.push_back(cells(g, r, y)); apply(*ref, o); }
    if (rows.empty()) return;
    std::string dir = ctx.scratch + "/e2e"; ::mkdir(dir.c_str(), 0755); auto F = [&](const char* n) { return dir + "/" + n; }; for (auto f : {"out.json", "link.json", "target.json", "c.json", "t.csv", "m.json"}) ::unlink(F(f).c_str());
    nlohmann::json cj{{"useToggleRate", S.toggling}, {"simconfig", nlohmann::json::object()}}; DRAMUtils::Config::ToggleRateDefinition d{};
    if (S.toggling) cj["simconfig"] = S.cfg; else if (g.chance(1, 4)) cj["simconfig"]["toggleRateDefinition"] = toggleDoc(g, d); // switched off: must not matter
    put(F("c.json"), cj.dump()); put(F("t.csv"), text(g, cs, y)); put(F("m.json"), nlohmann::json{{"memspec", S.s.doc}}.dump());
    bool file = g.chance(2, 3); std::string out = F("out.json"), where = S.where(), kind = "fresh";
    if (file) switch (g.below(4)) { case 0: put(out, std::string(200000, 'x')); kind = "overwritten"; break; case 1: put(F("target.json"), "old"); if (::symlink(g.coin() ? "target.json" : F("target.json").c_str(), F("link.json").c_str())) return; out = F("link.json"); kind = "link"; break; case 2: if (::symlink(g.coin() ? "target.json" : F("target.json").c_str(), F("link.json").c_str())) return; out = F("link.json"); kind = "dangling-link"; break; }
    std::vector<std::pair<const char*, std::string>> o{{"config", F("c.json")}, {"trace", F("t.csv")}, {"memspec", F("m.json")}}; if (file) o.push_back({"json", out});
    Quiet q; if (!ctx.eq(tool(ctx, options(g, o), q, where), 0, "tool-fails", where + " " + q.err.str() + q.log.str())) return;
    uint64_t end = ref->last(); auto ce = ref->coreAt(end); auto ie = ref->ifAt(end); auto arch = ref->arch(); uint64_t nb = S.s.B, nr = S.s.ranks, nd = S.s.devices; double total = ce.total() + ie.total();
    ctx.check(arch.bankCount == nb && arch.rankCount == nr && arch.deviceCount == nd, "organisation", where);
    if (file) {
        nlohmann::json want{{"RankCount", nr}, {"DeviceCount", nd}, {"BankCount", nb}, {"TotalEnergy", total}}, got; ce.to_json(want["CoreEnergy"]); ie.to_json(want["InterfaceEnergy"]); auto& banks = want["CoreEnergy"]["BankEnergy"];
        if (ctx.eq(banks.size(), nb * nr * nd, "bank-entries", where)) for (size_t r = 0, i = 0; r < nr; ++r) for (size_t dv = 0; dv < nd; ++dv) for (size_t b = 0; b < nb; ++b, ++i) { banks[i]["Rank"] = r; banks[i]["Device"] = dv; banks[i]["Bank"] = b; }
        got = nlohmann::json::parse(slurp(kind == "link" || kind == "dangling-link" ? F("target.json") : out), nullptr, false); sameJ(ctx, got, want, "result-file", where + " " + kind); ctx.count("result_files." + kind);
        if (kind.find("link") != std::string::npos) ctx.check(std::filesystem::is_symlink(F("link.json")), "result-replaced-link", where);
    } else {
        std::vector<std::string> L; { std::istringstream is(q.log.str()); std::string l; while (std::getline(is, l)) L.push_back(l); } size_t i = 0, seen = 0; nlohmann::json cj2; ce.to_json(cj2); auto& banks = cj2["BankEnergy"];
        for (size_t r = 0; r < nr; ++r) for (size_t dv = 0; dv < nd; ++dv) for (size_t b = 0; b < nb; ++b, ++i) {
            std::string head = std::to_string(r) + "," + std::to_string(dv) + "," + std::to_string(b) + " -> "; const std::string* l = nullptr; for (auto& x : L) if (x.rfind(head, 0) == 0) { if (l) ctx.fail("printed-bank-twice", head); l = &x; } if (!ctx.check(l, "printed-bank-missing", head + where)) continue; ++seen;
            for (auto& [k, v] : banks[i].items()) { double x = 0; if (ctx.check(labelled(l->substr(head.size()), k, x), ("printed-bank-component-missing:" + k).c_str(), *l)) ctx.near(x, v.get<double>(), ("printed-bank-component:" + k).c_str(), *l + " | " + where); }
        }
        std::string all = "\n" + q.log.str(); auto after = [&](const char* k) { auto p = all.find(std::string("\n") + k); return p == std::string::npos ? std::string() : all.substr(p + 1 + strlen(k)); };
        auto num = [&](const char* k, double want) { auto s = after(k); if (ctx.check(!s.empty(), "printed-line-missing", k)) ctx.near(strtod(s.c_str(), nullptr), want, (std::string("printed:") + k).c_str(), where); };
        { nlohmann::json aj; ce.aggregated_bank_energy().to_json(aj); auto l = after("Cumulated bank energy with bg_act_shared -> "); l = l.substr(0, l.find('\n')); for (auto& [k, v] : aj.items()) { double x = 0; if (ctx.check(labelled(l, k, x), ("printed-sum-component-missing:" + k).c_str(), l)) ctx.near(x, v.get<double>(), ("printed-sum-component:" + k).c_str(), l + " | " + where); } }
        num("Total Energy -> ", total); auto sh = after("Shared energy -> ");
        std::vector<std::pair<const char*, double>> f{{"E_bg_act_shared", ce.E_bg_act_shared}, {"E_PDNA", ce.E_PDNA}, {"E_PDNP", ce.E_PDNP}, {"E_sref", ce.E_sref}, {"E_dsm", ce.E_dsm}, {"E_refab", ce.E_refab}}; sh = sh.substr(0, sh.find('\n'));
        for (auto& [k, v] : f) { double x = 0; if (ctx.check(labelled(sh, k, x), "printed-shared-component-missing", k)) ctx.near(x, v, (std::string("printed-shared:") + k).c_str(), where); }
        auto side = [&](const char* k, const DP::interface_energy_t& e) { auto s = after(k); s = s.substr(0, s.find('\n')); double x = 0, z = 0; if (ctx.check(labelled(s, "dynamicEnergy", x) && labelled(s, "staticEnergy", z), "printed-interface-missing", k)) { ctx.near(x, e.dynamicEnergy, (std::string("printed-dynamic:") + k).c_str(), where); ctx.near(z, e.staticEnergy, (std::string("printed-static:") + k).c_str(), where); } };
        side("Controller:", ie.controller); side("DRAM:", ie.dram); num("Total: ", ie.total()); ctx.count("printed_banks", seen); ctx.count("printed_results");
    }
    ctx.count(std::string("runs.") + stdName(std)); ctx.fp(S.fp); if (ctx.caseIdx < 40) ctx.sample(S.where(6));
    // ---- the same run with one thing wrong must fail and say so
    auto bad = o; std::string what; nlohmann::json mj{{"memspec", S.s.doc}}; auto with = [&](const char* k, const std::string& v) { for (auto& x : bad) if (!strcmp(x.first, k)) x.second = v; };
    auto json = [&](const std::string& v) { bad.erase(std::remove_if(bad.begin(), bad.end(), [](auto& x) { return !strcmp(x.first, "json"); }), bad.end()); bad.push_back({"json", v}); };
    switch (g.below(15)) {
        case 11: { what = "data-bus-too-wide"; auto& a = mj["memspec"]["memarchitecturespec"]; a["nbrOfDevices"] = 4096 / a["width"].get<uint64_t>() + 1 + g.below(50); put(F("m.json"), mj.dump()); break; }
        case 12: { what = "unknown-idle-pattern"; DRAMUtils::Config::ToggleRateDefinition td{}; nlohmann::json k{{"useToggleRate", true}, {"simconfig", {{"toggleRateDefinition", toggleDoc(g, td)}}}}; std::string pat = k.dump(); auto& t = k["simconfig"]["toggleRateDefinition"]; for (auto& [key, v] : t.items()) if (key.find("dlePattern") != std::string::npos) v = g.pick({"X", "", "HL"}); if (k.dump() == pat) return; put(F("c.json"), k.dump()); break; }
        case 13: { what = "output-cannot-be-created"; json(g.pick({"/proc/self/absent.json", "/proc/absent.json"})); break; }
        case 0: { what = "missing-option"; bad.erase(bad.begin() + g.below(3)); break; }
        case 1: { what = "missing-file"; with(g.pick({"config", "trace", "memspec"}), F("absent")); break; }
        case 2: { what = "malformed-row"; auto c2 = cs; size_t i = g.below(cs.size()); std::string k; c2[i] = spoil(g, rows[i], cs[i], k); put(F("t.csv"), text(g, c2, y)); what += ":" + k; break; }
        case 3: { what = "malformed-configuration"; put(F("c.json"), g.pick({"", "{", "{}", "[]", "{\"useToggleRate\": true, \"simconfig\": {}}", "{\"useToggleRate\": 7}"})); break; }
        case 4: { what = "malformed-specification"; put(F("m.json"), g.pick({std::string(), std::string("{"), std::string("{}"), mj.dump().substr(0, 200), std::string("{\"memspec\": {}}")})); break; }
        case 5: { what = "unknown-memory-type"; mj["memspec"]["memoryType"] = "DDR9"; put(F("m.json"), mj.dump()); break; }
        case 6: { what = "specification-entry-missing"; auto& t = mj["memspec"][g.pick({"memtimingspec", "memarchitecturespec"})]; t.erase(t.contains("RAS") ? "RAS" : "nbrOfBanks"); put(F("m.json"), mj.dump()); break; }
        case 7: { what = "rank-out-of-range"; auto c2 = cs; size_t i = g.below(cs.size()); if (rows[i].type == C::NOP || rows[i].type == C::END_OF_SIMULATION) return; c2[i][2] = std::to_string(S.s.ranks + g.below(5)); put(F("t.csv"), text(g, c2, y)); break; }
        case 8: { what = "output-is-directory"; bad.erase(std::remove_if(bad.begin(), bad.end(), [](auto& x) { return !strcmp(x.first, "json"); }), bad.end()); bad.push_back({"json", dir}); break; }
        case 9: { what = "output-directory-missing"; bad.erase(std::remove_if(bad.begin(), bad.end(), [](auto& x) { return !strcmp(x.first, "json"); }), bad.end()); bad.push_back({"json", F("absent/out.json")}); break; }
        case 10: { what = "output-link-loop"; ::unlink(F("link.json").c_str()); if (::symlink("link.json", F("link.json").c_str())) return; bad.erase(std::remove_if(bad.begin(), bad.end(), [](auto& x) { return !strcmp(x.first, "json"); }), bad.end()); bad.push_back({"json", F("link.json")}); break; }
        default: { Quiet q2; ctx.eq(tool(ctx, {g.pick({"--help", "-h"})}, q2, "help"), 0, "help-fails", q2.err.str() + q2.log.str()); ctx.count("help"); return; }
    }
    Quiet q2; int rc = tool(ctx, options(g, bad), q2, what + " " + where); ctx.check(rc != 0, ("bad-input-accepted:" + what.substr(0, what.find(':'))).c_str(), what + " " + where); ctx.check(rc == 0 || !q2.err.str().empty() || !q2.log.str().empty(), "silent-failure", what); ctx.count("tool_rejects." + what.substr(0, what.find(':')));
}
VH_PART(e2e_ddr4, 1) { endToEnd(ctx, DDR4); }
VH_PART(e2e_ddr5, 1) { endToEnd(ctx, DDR5); }
VH_PART(e2e_lpddr4, 1) { endToEnd(ctx, LPDDR4); }
VH_PART(e2e_lpddr5, 1) { endToEnd(ctx, LPDDR5); }
VH_PART(e2e_lpddr6, 1) { endToEnd(ctx, LPDDR6); }
VH_PART(results, 1) { // a result that cannot be written is not a success
    auto& g = ctx.rng; Std std = Std(g.below(NSTD)); Spec s = randomSpec(g, std, {}); std::string m = ctx.scratch + "/m.json"; put(m, nlohmann::json{{"memspec", s.doc}}.dump()); auto d = cli::getMemory(m, {}); if (!ctx.check(bool(d), "specification-rejected", describe(s))) return;
    Quiet q; if (::access("/dev/full", W_OK) == 0) { ctx.check(!cli::makeResult(std::string("/dev/full"), d), "unwritable-result-succeeds", describe(s)); ctx.count("full_disk"); }
    ctx.check(!cli::makeResult(ctx.scratch + "/absent/x.json", d), "unwritable-result-succeeds", describe(s)); ctx.check(cli::makeResult(ctx.scratch + "/r.json", d), "writable-result-fails", describe(s)); ctx.count("unwritable_results"); ::unlink(m.c_str()); ::unlink((ctx.scratch + "/r.json").c_str()); ctx.fp(vh::hashStr(describe(s)));
}
// ---- output path validation
struct Tree { std::map<std::string, std::string> e; };
static void scan(const std::string& root, const std::string& rel, Tree& t) {
    DIR* d = ::opendir((root + rel).c_str()); if (!d) return;
    while (auto* e = ::readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = rel + "/" + n; struct stat st; if (::lstat((root + p).c_str(), &st)) continue;
        if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = ::readlink((root + p).c_str(), b, sizeof b); t.e[p] = "link " + std::string(b, k > 0 ? k : 0); } else if (S_ISDIR(st.st_mode)) { t.e[p] = "dir"; scan(root, p, t); } else if (S_ISREG(st.st_mode)) t.e[p] = "file " + slurp(root + p); else t.e[p] = "other";
    }
    ::closedir(d);
}
static void wipe(const std::string& p) { struct stat st; if (::lstat(p.c_str(), &st)) return; if (S_ISDIR(st.st_mode)) { DIR* d = ::opendir(p.c_str()); if (d) { while (auto* e = ::readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") wipe(p + "/" + n); } ::closedir(d); } ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
static std::string dirOf(const std::string& p) { auto k = p.rfind('/'); return k == std::string::npos ? "." : k ? p.substr(0, k) : "/"; }
VH_PART(paths, 6) {
    auto& g = ctx.rng; std::string root = ctx.scratch + "/fs"; wipe(root); ::mkdir(root.c_str(), 0755); std::vector<std::string> dirs{""}, names{"a", "b", "c", "d", "e", "f", "out.json", "x y", "n.txt"}; std::vector<std::string> all;
    size_t n = g.range(2, 14); auto spot = [&] { return g.pick(dirs) + "/" + g.pick(names); };
    auto relTo = [&](const std::string& from, const std::string& to) { // from: directory, to: entry, both below root
        std::string o; auto d = from; while (!d.empty() && to.rfind(d + "/", 0) != 0) { o += "../"; d = d.substr(0, d.rfind('/')); } return o + to.substr(d.size() + 1); };
    for (size_t i = 0; i < n; ++i) {
        std::string p = spot(), f = root + p; struct stat st; if (!::lstat(f.c_str(), &st)) continue;
        switch (g.below(9)) {
            case 0: case 1: if (std::count(p.begin(), p.end(), '/') < 4) { ::mkdir(f.c_str(), 0755); dirs.push_back(p); } break;
            case 2: case 3: put(f, "content " + std::to_string(g.below(1000))); break;
            case 4: { int s = ::socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; if (s >= 0 && f.size() < sizeof a.sun_path) { strcpy(a.sun_path, f.c_str()); (void)::bind(s, (sockaddr*)&a, sizeof a); } if (s >= 0) ::close(s); break; }
            default: { std::string to = !all.empty() && g.chance(3, 4) ? g.pick(all) : spot(); if (g.chance(1, 8)) to = p; std::string d = p.substr(0, p.rfind('/')), target = g.coin() ? root + to : relTo(d, to); if (g.chance(1, 10)) target = g.pick(dirs) == "" ? "nowhere/x" : root + "/missing/deep/x"; if (::symlink(target.c_str(), f.c_str())) continue; }
        }
        all.push_back(p);
    }
    if (g.chance(1, 4)) { // a chain
        std::string prev = g.chance(2, 3) ? spot() : "/absent"; size_t k = g.range(2, 8); for (size_t i = 0; i < k; ++i) { std::string p = g.pick(dirs) + "/chain" + std::to_string(i); std::string d = p.substr(0, p.rfind('/')); if (::symlink((g.coin() ? root + prev : relTo(d, prev)).c_str(), (root + p).c_str())) break; prev = p; all.push_back(p); }
    }
    Tree before; scan(root, "", before); char cwd[4096]; if (!::getcwd(cwd, sizeof cwd)) return; std::string wd = g.pick(dirs); if (::chdir((root + wd).c_str())) return;
    for (int rep = 0; rep < 4; ++rep) {
        std::string rel = !all.empty() && g.chance(3, 4) ? g.pick(all) : spot(); if (g.chance(1, 10)) rel += "/" + g.pick(names); if (g.chance(1, 40)) rel = g.pick(dirs) + "/" + std::string(300, 'n');
        std::string path = g.coin() ? root + rel : rel.rfind(wd + "/", 0) == 0 || wd.empty() ? rel.substr(wd.size() + 1) : relTo(wd, rel); if (g.chance(1, 25)) path += "/"; if (g.chance(1, 30)) path = g.pick({"", ".", "..", "./fresh", "no/such/dir"});
        // what the operating system says about the path
        struct stat st; bool accept = false, create = false; std::string made; int e = ::stat(path.c_str(), &st) ? errno : 0;
        if (!e) accept = S_ISREG(st.st_mode);
        else if (e == ENOENT && !path.empty() && path.back() != '/') {
            std::string cur = path; struct stat ls; int hops = 0; while (!::lstat(cur.c_str(), &ls) && S_ISLNK(ls.st_mode) && hops++ < 40) { char b[4096]; ssize_t k = ::readlink(cur.c_str(), b, sizeof b); std::string t(b, k > 0 ? k : 0); cur = !t.empty() && t[0] == '/' ? t : dirOf(cur) + "/" + t; }
            struct stat ps; accept = create = hops <= 40 && !::stat(dirOf(cur).c_str(), &ps) && S_ISDIR(ps.st_mode); char rp[PATH_MAX]; if (create && ::realpath(dirOf(cur).c_str(), rp)) made = std::string(rp) + "/" + cur.substr(cur.rfind('/') == std::string::npos ? 0 : cur.rfind('/') + 1);
        }
        std::string arg = path, msg, where = "cwd " + wd + " path " + path + " kind " + (e ? strerror(e) : "exists"); bool threw = false; try { msg = validators::EnsureFileExists(arg); } catch (const std::exception& x) { threw = true; msg = x.what(); }
        where += " said '" + msg + "' returned " + arg; Tree after; scan(root, "", after); auto want = before; char rr[PATH_MAX]; if (create && ::realpath(root.c_str(), rr) && made.rfind(rr, 0) == 0) want.e[made.substr(strlen(rr))] = "file ";
        ctx.check(!threw, "validation-aborts", where); if (!threw) ctx.check(msg.empty() == accept, accept ? "valid-output-path-rejected" : "invalid-output-path-accepted", where);
        if (after.e != want.e) { std::string d; for (auto& [k, v] : after.e) if (!want.e.count(k) || want.e[k] != v) d += " +" + k + "=" + v; for (auto& [k, v] : want.e) if (!after.e.count(k)) d += " -" + k; ctx.fail("validation-side-effect", where + d); } ctx.eval();
        if (!threw && msg.empty()) { struct stat a, b; ctx.check(!::stat(path.c_str(), &a) && !::stat(arg.c_str(), &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino, "validation-returns-other-file", where); }
        ctx.count(create ? "paths_created" : accept ? "paths_accepted" : std::string("paths_rejected.") + (e ? strerrorname_np(e) : "kind")); ctx.fp(vh::mix(vh::hashStr(path.size() > root.size() ? path.substr(root.size()) : path), vh::mix(accept, before.e.size() * 64 + n))); before = after;
        if (ctx.fails.size() > 10) break;
    }
    (void)!::chdir(cwd); wipe(root);
}
