// A session: specification, mode, and an endless stream of legal operations (commands and switches) that can be applied to several twins.
#pragma once
#include "sim/device.h"
#include "sim/gen.h"
namespace sim {
struct Op { enum K { CMD, DBI, META, PARITY, POWER } k = CMD; Cmd c; uint64_t t = 0; bool on = false; uint16_t m1 = 0, m2 = 0; };
inline std::string str(const Op& o) {
    switch (o.k) {
        case Op::CMD: return str(o.c);
        case Op::DBI: return std::to_string(o.t) + ":dbi=" + (o.on ? "1" : "0");
        case Op::META: return "meta=" + std::to_string(o.m1) + "/" + std::to_string(o.m2);
        case Op::PARITY: return std::string("parity=") + (o.on ? "1" : "0");
        default: return std::to_string(o.t) + ":power=" + (o.on ? "1" : "0");
    }
}
inline std::string str(const std::vector<Op>& v, size_t tail = 14) { std::string o; for (size_t i = v.size() > tail ? v.size() - tail : 0; i < v.size(); ++i) o += str(v[i]) + " "; return o; }
// returns what the switch reported (true for everything else)
inline bool apply(Dev& d, const Op& o, Mode m = BOTH) {
    switch (o.k) {
        case Op::CMD: drive(d, o.c, m); return true;
        case Op::DBI: return d.setDBI(o.t, o.on);
        case Op::META: d.setMeta(o.m1, o.m2); return true;
        case Op::PARITY: d.setParity(o.on); return true;
        default: d.power(o.t, o.on); return true;
    }
}
struct SessionOpt { int toggling = -1; int dbi = -1; bool switches = true; bool end = true; GenOpt gen; SpecOpt spec; };
// length of a history; a few are so long that narrow counters and growing state would show
inline size_t histLen(vh::Ctx& ctx, uint64_t lo, uint64_t quick, uint64_t thorough) {
    auto& g = ctx.rng; if (g.chance(1, 150)) { ctx.count("long_histories"); return g.range(300, 1500); }
    return ctx.thorough ? g.range(lo, thorough) : g.range(lo, quick);
}
struct Session {
    vh::Rng& g; Spec s; DP::config::SimConfig cfg; bool toggling = false, useDbi = false, dbiOn = false, powered = true, ended = false; uint64_t poweredAt = 0; SessionOpt so;
    std::unique_ptr<Gen> gen; std::vector<Op> log; uint64_t fp;
    Session(vh::Rng& r, Std std, SessionOpt o = {}) : g(r), s(randomSpec(r, std, o.spec)), so(o) { init(); }
    Session(vh::Rng& r, const Spec& sp, SessionOpt o = {}) : g(r), s(sp), so(o) { init(); }
    void init() {
        fp = vh::mix(s.B, s.ranks * 8 + s.std);
        toggling = so.toggling < 0 ? g.chance(1, 4) : so.toggling; useDbi = so.dbi < 0 ? g.chance(2, 3) : so.dbi;
        if (toggling) {
            using P = DRAMUtils::Config::TogglingRateIdlePattern;
            DRAMUtils::Config::ToggleRateDefinition d; auto rate = [&] { return g.chance(1, 4) ? g.pick({0.0, 0.25, 0.5, 1.0}) : g.unit(); };
            d.togglingRateRead = rate(); d.togglingRateWrite = rate(); d.dutyCycleRead = rate(); d.dutyCycleWrite = rate();
            auto idle = [&] { return g.pick({P::L, P::H}); }; d.idlePatternRead = idle(); d.idlePatternWrite = idle();
            cfg.toggleRateDefinition = d; so.gen.mixPayload = true;
        }
        gen = std::make_unique<Gen>(g, s, so.gen);
    }
    std::unique_ptr<Dev> make() const { return makeDev(s, cfg); }
    bool next(Op& o) {
        o = Op{}; if (ended) return false;
        if (so.end && powered && g.chance(1, 200)) { // the history may be closed explicitly; only queries follow
            ended = true; gen->now = std::max(gen->now, gen->lastQuery) + g.below(40); o.t = o.c.t = gen->now; o.c.type = CmdType::END_OF_SIMULATION; log.push_back(o); return true;
        }
        if (so.switches && g.chance(1, 12)) {
            uint64_t t = std::max({gen->busIdleAt(), gen->lastQuery});
            if (s.std == LPDDR6 && (!powered || g.chance(1, 5))) {
                t = std::max(t, poweredAt + 1); gen->now = t; o.k = Op::POWER; o.t = t; o.on = powered = !powered; poweredAt = t; log.push_back(o); return true;
            }
            if (s.std == LPDDR6 && g.chance(1, 3)) { o.k = g.coin() ? Op::META : Op::PARITY; o.on = s.wckOn && g.coin(); o.m1 = uint16_t(g.next()); o.m2 = uint16_t(g.next()); log.push_back(o); return true; }
            if (useDbi && s.std != DDR5) { gen->now = t; o.k = Op::DBI; o.t = t; o.on = dbiOn = !dbiOn; log.push_back(o); return true; }
        }
        if (!powered) { uint64_t t = std::max({gen->now + g.below(30), gen->lastQuery}); gen->now = t; o.k = Op::POWER; o.t = t; o.on = powered = true; poweredAt = t; log.push_back(o); return true; }
        if (!gen->next(o.c)) return false;
        o.t = o.c.t; fp = vh::mix(vh::mix(fp, uint64_t(o.c.type) << 8 | o.c.rank * 64 + o.c.bank), o.c.t); log.push_back(o); return true;
    }
    uint64_t queryTime() { return gen->queryTime(); }
    void queried(uint64_t q) { gen->queried(q); }
    std::string where(size_t tail = 14) const { return describe(s) + (toggling ? " toggling" : "") + " | " + str(log, tail); }
};
inline nlohmann::json js(const DP::energy_t& e) { nlohmann::json j; e.to_json(j); return j; }
inline nlohmann::json js(const DP::interface_energy_info_t& e) { nlohmann::json j; e.to_json(j); return j; }
inline bool sameJ(vh::Ctx& ctx, const nlohmann::json& x, const nlohmann::json& y, const std::string& key, const std::string& where) {
    ctx.eval(); if (x == y) return true; ctx.fail(key, where + ": " + diffJson(x, y)); return false;
}
// statistics and energies of two twins at one time
inline bool sameAt(vh::Ctx& ctx, Dev& a, Dev& b, uint64_t q, const std::string& key, const std::string& where) {
    std::string w = where + " at " + std::to_string(q);
    auto x = a.window(q), y = b.window(q);
    bool ok = sameJ(ctx, js(x), js(y), key + ".stats", w);
    ok = sameJ(ctx, js(a.coreE(x)), js(b.coreE(y)), key + ".core-energy", w) && ok;
    ok = sameJ(ctx, js(a.ifE(x)), js(b.ifE(y)), key + ".interface-energy", w) && ok;
    ok = sameJ(ctx, a.last(), b.last(), key + ".last-command", w) && ok;
    return ok;
}
inline void flatten(const nlohmann::json& j, const std::string& p, std::vector<std::pair<std::string, double>>& o) {
    if (j.is_number()) o.emplace_back(p, j.get<double>());
    else if (j.is_array()) { for (size_t i = 0; i < j.size(); ++i) flatten(j[i], p + "/" + std::to_string(i), o); }
    else if (j.is_object()) for (auto& [k, v] : j.items()) flatten(v, p + "/" + k, o);
}
inline std::vector<std::pair<std::string, double>> flat(const SimulationStats& s) { std::vector<std::pair<std::string, double>> v; flatten(js(s), "", v); return v; }
} // namespace sim
