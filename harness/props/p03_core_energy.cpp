// P03: every core energy component equals the documented current model evaluated independently from the same activity record.
#include "sim/session.h"
#include "sim/refenergy.h"
using namespace sim;
static void check(vh::Ctx& ctx, const Spec& s, const SimulationStats& st, const DP::energy_t& e, const std::string& w) {
    auto r = refCoreEnergy(s, st); std::string n = std::string(stdName(s.std)) + ".";
    if (!ctx.eq(e.bank_energy.size(), r.bank.size(), "bank-count", w)) return;
    Acc sum, agg[15]; double got[15] = {};
    for (size_t i = 0; i < r.bank.size(); ++i) {
        auto& g = e.bank_energy[i]; auto& x = r.bank[i]; std::string at = w + " bank " + std::to_string(i); Acc tot; int k = 0;
        auto one = [&](double v, const Acc& a, const char* nm, bool inTotal = true) { close(ctx, v, a, n + nm, at + " " + nm); if (inTotal) tot.add(a.v, a.mag); agg[k].add(a.v, a.mag); got[k++] += v; };
        one(g.E_act, x.act, "E_act"); one(g.E_pre, x.pre, "E_pre"); one(g.E_bg_act, x.bgAct, "E_bg_act"); one(g.E_bg_pre, x.bgPre, "E_bg_pre"); one(g.E_RD, x.rd, "E_RD"); one(g.E_WR, x.wr, "E_WR"); one(g.E_RDA, x.rda, "E_RDA"); one(g.E_WRA, x.wra, "E_WRA");
        one(g.E_pre_RDA, x.preRda, "E_pre_RDA", false); one(g.E_pre_WRA, x.preWra, "E_pre_WRA", false);
        one(g.E_ref_AB, x.refAB, "E_ref_AB"); one(g.E_ref_PB, x.refPB, "E_ref_PB"); one(g.E_ref_SB, x.refSB, "E_ref_SB"); one(g.E_ref_2B, x.ref2B, "E_ref_2B"); one(g.E_ref_DB, x.refDB, "E_ref_DB");
        close(ctx, g.total(), tot, n + "bank-total", at); sum.add(tot.v, tot.mag);
    }
    auto rk = [&](double v, const Acc& a, const char* nm) { close(ctx, v, a, n + nm, w + " " + nm); sum.add(a.v, a.mag); };
    rk(e.E_bg_act_shared, r.shared, "E_bg_act_shared"); rk(e.E_PDNA, r.pdna, "E_PDNA"); rk(e.E_PDNP, r.pdnp, "E_PDNP"); rk(e.E_sref, r.sref, "E_sref"); rk(e.E_dsm, r.dsm, "E_dsm"); ctx.check(e.E_refab == 0, (n + "E_refab").c_str(), w);
    close(ctx, e.total(), sum, n + "total", w);
    auto a = e.aggregated_bank_energy(); agg[2].add(r.shared.v, r.shared.mag); double av[] = {a.E_act, a.E_pre, a.E_bg_act, a.E_bg_pre, a.E_RD, a.E_WR, a.E_RDA, a.E_WRA, a.E_pre_RDA, a.E_pre_WRA, a.E_ref_AB, a.E_ref_PB, a.E_ref_SB, a.E_ref_2B, a.E_ref_DB};
    for (int k = 0; k < 15; ++k) close(ctx, av[k], agg[k], n + "aggregated", w + " component " + std::to_string(k));
}
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng;
    if (g.chance(1, 2)) {
        Spec s = randomSpec(g, std); auto d = makeDev(s); auto st = randomRecord(g, s); std::string w = describe(s) + " random record"; check(ctx, s, st, d->coreE(st), w); ctx.count("random_records"); ctx.fp(vh::mix(hashStats(st), s.B));
    } else {
        SessionOpt so; so.gen.coreOnly = true; so.switches = false; so.toggling = 0; Session S(g, std, so); auto d = S.make(); size_t n = g.range(5, 70);
        for (size_t i = 0; i < n; ++i) { Op o; if (!S.next(o)) break; apply(*d, o, CORE); }
        uint64_t q = S.queryTime() + g.below(500); auto st = d->window(q); auto e = d->coreE(st); check(ctx, S.s, st, e, S.where());
        sameJ(ctx, js(e), js(d->coreAt(q)), "record-and-time-query-disagree", S.where()); double t = d->total(q); auto i = d->ifAt(q); ctx.near(t, e.total() + i.total(), "grand-total", S.where());
        ctx.count("simulated_histories"); ctx.fp(S.fp); if (ctx.caseIdx < 8) ctx.sample(S.where(8));
    }
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
