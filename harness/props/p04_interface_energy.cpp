// P04: interface energy equals the documented termination and switching model evaluated independently from the same activity record.
#include "sim/session.h"
#include "sim/refenergy.h"
using namespace sim;
static void check(vh::Ctx& ctx, const Spec& s, const SimulationStats& st, const DP::interface_energy_info_t& e, const std::string& w) {
    auto r = refIfEnergy(s, st); std::string n = std::string(stdName(s.std)) + ".";
    close(ctx, e.controller.staticEnergy, r.cStat, n + "controller.static", w); close(ctx, e.controller.dynamicEnergy, r.cDyn, n + "controller.dynamic", w);
    close(ctx, e.dram.staticEnergy, r.dStat, n + "dram.static", w); close(ctx, e.dram.dynamicEnergy, r.dDyn, n + "dram.dynamic", w);
    Acc t; for (auto a : {&r.cStat, &r.cDyn, &r.dStat, &r.dDyn}) t.add(a->v, a->mag); close(ctx, e.total(), t, n + "total", w);
}
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng;
    if (g.chance(3, 4)) {
        Spec s = randomSpec(g, std); std::string w = describe(s);
        if (g.coin()) { // only one signal contributes: attribution errors cannot hide behind another signal
            std::vector<std::string> sig; auto& m = s.doc["memimpedancespec"]; for (auto& [k, v] : m.items()) if (k.size() > 6 && k.substr(k.size() - 6) == "_dyn_E") sig.push_back(k.substr(0, k.size() - 6));
            std::string only = g.pick(sig); for (auto& [k, v] : m.items()) if (k.rfind(only + "_", 0) != 0) { if (v.is_boolean()) v = false; else if (k.find("_dyn_E") != std::string::npos) v = 0.0; } w += " only " + only; ctx.count("single_signal." + only);
        }
        auto d = makeDev(s); auto st = randomRecord(g, s); if (std >= LPDDR5) st.writeDQSStats = {}; if (std < LPDDR5) st.wClockStats = {}; check(ctx, s, st, d->ifE(st), w + " random record"); ctx.count("random_records"); ctx.fp(vh::mix(hashStats(st), s.B));
    } else {
        Session S(g, std); auto d = S.make(); size_t n = g.range(5, 60); for (size_t i = 0; i < n; ++i) { Op o; if (!S.next(o)) break; apply(*d, o); }
        uint64_t q = S.queryTime() + g.below(500); auto st = d->window(q); auto e = d->ifE(st); check(ctx, S.s, st, e, S.where()); sameJ(ctx, js(e), js(d->ifAt(q)), "record-and-time-query-disagree", S.where());
        ctx.count("simulated_histories"); if (S.toggling) ctx.count("histories_toggling"); ctx.fp(S.fp); if (ctx.caseIdx < 8) ctx.sample(S.where(8));
    }
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
