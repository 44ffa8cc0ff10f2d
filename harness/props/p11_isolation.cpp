// P11: ranks and banks are isolated and interchangeable (projection, permutation and last-command twins).
#include "sim/session.h"
using namespace sim;
using BankE = DP::energy_info_t;
static nlohmann::json jb(const BankE& e) { nlohmann::json j; e.to_json(j); return j; }
struct Run { SimulationStats st; DP::energy_t e; };
static Run exec(const Session& S, const std::vector<Op>& ops, const std::vector<uint64_t>& qs, uint64_t q, Mode m) {
    auto d = S.make(); (void)qs; for (auto& o : ops) apply(*d, o, m); SimulationStats st = d->window(q); return {st, d->coreE(st)};
}
static void sameRank(vh::Ctx& ctx, const Spec& s, const Run& a, size_t ra, const Run& b, size_t rb, const std::vector<size_t>& bp, const char* key, const std::string& w) {
    nlohmann::json x = a.st.rank_total[ra], y = b.st.rank_total[rb]; sameJ(ctx, x, y, std::string(key) + ".rank", w);
    for (size_t i = 0; i < s.B; ++i) {
        nlohmann::json x = a.st.bank[ra * s.B + i], y = b.st.bank[rb * s.B + bp[i]]; std::string at = w + " rank " + std::to_string(ra) + " bank " + std::to_string(i);
        sameJ(ctx, x, y, std::string(key) + ".bank", at);
        for (size_t d = 0; d < s.devices; ++d) sameJ(ctx, jb(a.e.bank_energy[(ra * s.devices + d) * s.B + i]), jb(b.e.bank_energy[(rb * s.devices + d) * s.B + bp[i]]), std::string(key) + ".bank-energy", at);
    }
}
// A renaming of banks that respects the pairs and groups multi-bank commands address.
static std::vector<size_t> bankPerm(vh::Rng& g, const Spec& s) {
    std::vector<size_t> p(s.B); for (size_t i = 0; i < s.B; ++i) p[i] = i;
    if (s.std == DDR5) {
        size_t per = s.perGroup(); std::vector<size_t> in(per), gr(s.groups()); for (size_t i = 0; i < per; ++i) in[i] = i; for (size_t i = 0; i < gr.size(); ++i) gr[i] = i; g.shuffle(in); g.shuffle(gr);
        for (size_t i = 0; i < s.B; ++i) p[i] = gr[i / per] * per + in[i % per];
    } else if (s.B == 16 && s.std >= LPDDR5) {
        std::vector<size_t> lo(8); for (size_t i = 0; i < 8; ++i) lo[i] = i; g.shuffle(lo); for (size_t i = 0; i < 8; ++i) { bool sw = g.coin(); p[i] = lo[i] + (sw ? 8 : 0); p[i + 8] = lo[i] + (sw ? 0 : 8); }
    } else g.shuffle(p);
    return p;
}
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; SessionOpt so; json doc = randomDoc(g, std, so.spec); if (g.chance(5, 6)) doc["memarchitecturespec"]["nbrOfRanks"] = g.range(2, 4);
    bool full = g.chance(1, 4); so.gen.coreOnly = !full; so.switches = false; so.end = false; if (!full) so.toggling = 0; so.dbi = 0;
    Session S(g, readSpec(std, doc), so); const Spec& s = S.s; Mode m = full ? BOTH : CORE; std::vector<Op> ops; size_t n = histLen(ctx, 5, 80, 200);
    for (size_t i = 0; i < n; ++i) { Op o; if (!S.next(o)) break; ops.push_back(o); }
    uint64_t q = S.queryTime() + g.below(60); std::string w = S.where(); std::vector<size_t> id(s.B); for (size_t i = 0; i < s.B; ++i) id[i] = i;
    Run base = exec(S, ops, {}, q, m); if (!ctx.eq(base.e.bank_energy.size(), size_t(s.ranks * s.B * s.devices), "bank-energy-count", w)) return;
    ctx.count("commands", ops.size());
    // devices of a rank work in lockstep
    for (size_t r = 0; r < s.ranks; ++r) for (size_t d = 1; d < s.devices; ++d) for (size_t b = 0; b < s.B; ++b) sameJ(ctx, jb(base.e.bank_energy[r * s.devices * s.B + b]), jb(base.e.bank_energy[(r * s.devices + d) * s.B + b]), "devices-differ", w);
    // projection: a rank behaves as if it were alone; rank-level energies are sums over ranks
    if (s.ranks > 1) {
        DP::energy_t sum(0); bool have = false; double sref = 0, pa = 0, pp = 0, sh = 0, dsm = 0; (void)sum; (void)have;
        for (size_t r = 0; r < s.ranks; ++r) {
            std::vector<Op> pr; for (auto& o : ops) if (o.k != Op::CMD || o.c.rank == r) pr.push_back(o);
            Run alone = exec(S, pr, {}, q, m); sameRank(ctx, s, base, r, alone, r, id, "projection", w); ctx.count("projections");
            sref += alone.e.E_sref; pa += alone.e.E_PDNA; pp += alone.e.E_PDNP; sh += alone.e.E_bg_act_shared; dsm += alone.e.E_dsm;
        }
        ctx.near(base.e.E_sref, sref, "not-additive-over-ranks.E_sref", w); ctx.near(base.e.E_PDNA, pa, "not-additive-over-ranks.E_PDNA", w); ctx.near(base.e.E_PDNP, pp, "not-additive-over-ranks.E_PDNP", w);
        ctx.near(base.e.E_bg_act_shared, sh, "not-additive-over-ranks.E_bg_act_shared", w); ctx.near(base.e.E_dsm, dsm, "not-additive-over-ranks.E_dsm", w);
        // renaming ranks
        std::vector<size_t> rp(s.ranks); for (size_t i = 0; i < s.ranks; ++i) rp[i] = i; g.shuffle(rp); auto ren = ops; for (auto& o : ren) o.c.rank = rp[o.c.rank];
        Run R = exec(S, ren, {}, q, m); for (size_t r = 0; r < s.ranks; ++r) sameRank(ctx, s, base, r, R, rp[r], id, "rank-renaming", w);
        ctx.near(R.e.total(), base.e.total(), "rank-renaming.total", w); ctx.count("rank_renamings");
        if (full) for (auto k : {"commandBus", "readBus", "writeBus", "clockStats", "wClockStats", "readDQSStats", "writeDQSStats", "readDBI", "writeDBI", "togglingStats"}) { auto x = js(base.st), y = js(R.st); if (x.contains(k)) sameJ(ctx, x[k], y[k], std::string("rank-renaming.") + k, w); }
    }
    // renaming banks (coordinates do not matter for the core)
    { auto bp = bankPerm(g, s); auto ren = ops; for (auto& o : ren) { auto& c = o.c; c.bank = bp[c.bank]; c.bg = c.bank / s.perGroup(); c.bank2 = (c.bank + 8) % 16; c.row = g.below(s.rows); c.col = g.below(s.cols); }
      Run R = exec(S, ren, {}, q, CORE); Run B = full ? exec(S, ops, {}, q, CORE) : base; for (size_t r = 0; r < s.ranks; ++r) sameRank(ctx, s, B, r, R, r, bp, "bank-renaming", w); ctx.count("bank_renamings"); }
    // one more per-bank command leaves every other bank and rank alone
    { Op o; bool ok = false; for (int i = 0; i < 6 && !ok; ++i) { o = Op{}; ok = S.gen->next(o.c) && RefCore::perBank(o.c.type); if (!ok) break; }
      if (ok) { auto more = ops; more.push_back(o); uint64_t q2 = std::max(q, o.c.t) + g.below(80); Run A = exec(S, ops, {}, q2, m), B = exec(S, more, {}, q2, m); auto tg = S.gen->rc.targets(o.c);
          for (size_t r = 0; r < s.ranks; ++r) { if (r != o.c.rank) { sameRank(ctx, s, A, r, B, r, id, "command-to-other-rank", w + " + " + str(o)); continue; }
              for (size_t b = 0; b < s.B; ++b) if (std::find(tg.begin(), tg.end(), b) == tg.end()) { nlohmann::json x = A.st.bank[r * s.B + b], y = B.st.bank[r * s.B + b]; sameJ(ctx, x, y, "command-to-other-bank", w + " + " + str(o) + " bank " + std::to_string(b)); } }
          ctx.count("last_command_twins"); } }
    ctx.count(std::string("histories.") + stdName(std)); ctx.fp(S.fp); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
