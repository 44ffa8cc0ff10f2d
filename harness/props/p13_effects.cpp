// P13 (simulator job): the delayed effects the simulators schedule (auto-precharge, precharge after refresh, delayed power-down and
// self-refresh entry, ...) are visible exactly from their due time on, and the reported last event time follows them.
#include "sim/timeline.h"
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; Spec s = randomSpec(g, std); GenOpt o; o.coreOnly = true; o.huge = g.chance(1, 6); Gen gen(g, s, o); gen.mood = g.pick({1, 3}); auto dev = makeDev(s); std::vector<Cmd> h; uint64_t fp = s.B, last = 0; size_t taken = 0;
    size_t n = histLen(ctx, 4, 40, 120); unsigned den = g.pick({1u, 2u, 6u});
    for (size_t i = 0; i < n; ++i) {
        Cmd c; if (!gen.next(c)) break; h.push_back(c); drive(*dev, c, CORE); last = c.t; fp = vh::mix(vh::mix(fp, uint64_t(c.type) << 8 | c.rank * 64 + c.bank), c.t); ctx.count("commands");
        auto at = [&] { return describe(s) + " | " + str(h); };
        ctx.eq(dev->last(), std::max(last, gen.rc.lastEffect(c.t)), "last-event-time", at() + " after the command");
        if (!g.chance(1, den)) continue;
        // just before, at and after the moments at which effects fall due
        auto dl = gen.rc.deadlines(gen.now); std::vector<uint64_t> qs; for (auto d : dl) for (uint64_t q : {d ? d - 1 : d, d, d + 1}) if (q >= std::max(gen.now, gen.lastQuery) && g.coin()) qs.push_back(q);
        std::sort(qs.begin(), qs.end()); if (qs.size() > 5) qs.resize(g.range(1, 5));
        for (auto q : qs) { auto st = dev->window(q); gen.queried(q); compareTimeline(ctx, gen.rc, st, q, at()); ctx.eq(dev->last(), std::max(last, gen.rc.lastEffect(q)), "last-event-time", at() + " queried at " + std::to_string(q)); ctx.count("queries_at_due_times"); if (ctx.fails.size() > 30) return; }
    }
    uint64_t q = gen.queryTime() + g.below(3000); auto st = dev->window(q); gen.queried(q); compareTimeline(ctx, gen.rc, st, q, describe(s) + " | " + str(h)); for (auto d : gen.rc.dues) taken += d <= q;
    if (taken == gen.rc.dues.size()) { ctx.check(dev->serializable(), "effects-left-over", describe(s) + " | " + str(h) + " queried at " + std::to_string(q)); ctx.count("histories_with_nothing_pending"); }
    ctx.count("effects_due", taken); ctx.fp(fp); if (ctx.caseIdx < 5) ctx.sample(describe(s) + " | " + str(h, 8));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
