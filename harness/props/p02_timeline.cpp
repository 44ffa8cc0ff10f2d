// P02: reported activity equals the independent timeline at every query time.
#include "sim/timeline.h"
using namespace sim;

static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; Spec s = randomSpec(g, std); bool full = g.chance(1, 4);
    GenOpt o; o.coreOnly = !full; Gen gen(g, s, o); auto dev = makeDev(s); std::vector<Cmd> h; uint64_t fp = s.B;
    size_t n = histLen(ctx, 5, 90, 200);
    unsigned qden = g.pick({2u, 4u, 30u});
    for (size_t i = 0; i < n; ++i) {
        Cmd c; if (!gen.next(c)) break;
        h.push_back(c); drive(*dev, c, full ? BOTH : CORE); ctx.count("commands"); ctx.count(std::string("cmd.") + DP::CmdTypeUtil::to_string(c.type));
        fp = vh::mix(vh::mix(fp, uint64_t(c.type) << 8 | c.rank * 64 + c.bank), c.t);
        if (g.chance(1, qden)) {
            int rep = int(g.range(1, 3));
            for (int k = 0; k < rep; ++k) { uint64_t q = gen.queryTime(); auto st = dev->window(q); gen.queried(q); compareTimeline(ctx, gen.rc, st, q, describe(s) + " | " + str(h)); ctx.count("queries"); if (ctx.fails.size() > 40) return; }
        }
    }
    if (g.chance(1, 4)) { Cmd c; c.t = std::max(gen.now, gen.lastQuery) + g.below(40); c.type = CmdType::END_OF_SIMULATION; gen.now = c.t; h.push_back(c); drive(*dev, c, full ? BOTH : CORE); ctx.count("cmd.END"); }
    uint64_t q = gen.queryTime() + (g.coin() ? 0 : g.below(3000)); auto st = dev->window(q); gen.queried(q); compareTimeline(ctx, gen.rc, st, q, describe(s) + " | " + str(h));
    ctx.count("queries"); ctx.count(std::string("histories.") + stdName(std));
    uint64_t pd = 0, sr = 0; for (auto& r : st.rank_total) { pd += r.cycles.powerDownAct + r.cycles.powerDownPre; sr += r.cycles.selfRefresh; }
    if (pd) ctx.count("histories_with_powerdown"); if (sr) ctx.count("histories_with_selfrefresh");
    ctx.fp(fp); if (ctx.caseIdx < 5) ctx.sample(describe(s) + " | " + str(h, 8));
}
VH_PART(ddr4, 4) { run(ctx, DDR4); }
VH_PART(ddr5, 4) { run(ctx, DDR5); }
VH_PART(lpddr4, 4) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 4) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 4) { run(ctx, LPDDR6); }
