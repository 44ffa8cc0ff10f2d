// P09: observing never changes anything; repeated observation agrees; observation over time is monotone and, in silence, linear.
#include "sim/session.h"
using namespace sim;
// the last command time is that of the last command, switch or delayed effect so far; asking for statistics adds nothing to it
static void lastTime(vh::Ctx& ctx, Session& S, Dev& d, uint64_t until, bool core) {
    uint64_t want = core ? S.gen->rc.lastEffect(until) : 0; for (auto& o : S.log) if (o.k == Op::CMD || o.k == Op::POWER) want = std::max(want, o.t);
    ctx.eq(d.last(), want, "last-command-time", S.where() + " observed until " + std::to_string(until)); ctx.count("observe.last-time");
}
static uint64_t observe(vh::Ctx& ctx, Session& S, Dev& d) {
    auto& g = S.g; uint64_t q = S.queryTime(); std::string w = S.where();
    switch (g.below(8)) {
        case 0: case 1: { auto a = js(d.window(q)), b = js(d.window(q)); sameJ(ctx, a, b, "repeat.stats", w); S.queried(q); ctx.count("observe.window"); break; }
        case 2: { auto a = js(d.coreAt(q)), b = js(d.coreAt(q)); sameJ(ctx, a, b, "repeat.core-energy", w); S.queried(q); ctx.count("observe.core-energy"); break; }
        case 3: { auto a = js(d.ifAt(q)), b = js(d.ifAt(q)); sameJ(ctx, a, b, "repeat.interface-energy", w); S.queried(q); ctx.count("observe.interface-energy"); break; }
        case 4: { double a = d.total(q), b = d.total(q); ctx.check(a == b, "repeat.total", w); S.queried(q); ctx.count("observe.total"); break; }
        case 5: { uint64_t l = d.last(); auto a = js(d.stats()); sameJ(ctx, a, js(d.stats()), "repeat.current-stats", w); sameJ(ctx, a, js(d.window(l)), "current-stats-are-window-at-last-command", w); ctx.count("observe.stats"); break; }
        case 6: if (d.serializable()) { std::ostringstream o; d.ser(o); ctx.count("observe.snapshot"); } break;
        default: { auto s = d.window(q); auto e = d.coreE(s); auto i = d.ifE(s); std::ostringstream o; (void)o; auto x = js(s); sameJ(ctx, x, js(s), "calculation-changed-its-input", w);
            sameJ(ctx, js(e), js(d.coreAt(q)), "energy-of-record-is-energy-at-time", w); sameJ(ctx, js(i), js(d.ifAt(q)), "interface-energy-of-record-is-energy-at-time", w);
            double tot = d.total(q), sum = e.total() + i.total(); ctx.near(tot, sum, "total-is-core-plus-interface", w, 1e-9); (void)d.arch(); S.queried(q); ctx.count("observe.everything"); }
    }
    return q;
}
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; Session S(g, std); auto a = S.make(), b = S.make(); size_t n = histLen(ctx, 3, 60, 160); unsigned den = g.pick({1u, 2u, 5u});
    Mode m = g.chance(1, 6) ? IFACE : BOTH;
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break; bool x = apply(*a, o, m), y = apply(*b, o, m); ctx.check(x == y, "switch-outcome-depends-on-observation", S.where()); ctx.count("operations");
        for (int k = 0; k < 3 && g.chance(1, den); ++k) { observe(ctx, S, *a); }
        if (ctx.fails.size() > 20) return;
    }
    uint64_t q = S.queryTime(); sameAt(ctx, *a, *b, q, "observed-vs-unobserved", S.where()); S.queried(q); lastTime(ctx, S, *a, q, m == BOTH);
    // monotone in time
    auto prev = flat(a->window(q)); uint64_t t = q;
    for (int i = 0; i < 4; ++i) {
        t += g.pick({uint64_t(0), uint64_t(1), uint64_t(1 + g.below(6)), uint64_t(g.below(200))}); auto now = flat(a->window(t));
        for (size_t k = 0; k < now.size(); ++k) if (now[k].second < prev[k].second) { ctx.fail("decreases-with-time", S.where() + " t=" + std::to_string(t) + " " + now[k].first); break; }
        ctx.eval(now.size()); prev = now;
    }
    sameAt(ctx, *a, *b, t, "observed-vs-unobserved-late", S.where());
    // linear once everything has settled
    auto dl = S.gen->rc.deadlines(S.gen->now); uint64_t settled = std::max({t, dl.empty() ? 0 : dl.back(), S.gen->busIdleAt()}) + 70, d = 2 * g.range(1, 5000);
    auto A = flat(a->window(settled)), B = flat(a->window(settled + d)), C = flat(a->window(settled + 2 * d)); lastTime(ctx, S, *a, settled + 2 * d, m == BOTH);
    for (size_t k = 0; k < A.size(); ++k) {
        double x = B[k].second - A[k].second, y = C[k].second - B[k].second; ctx.eval();
        if (std::abs(x - y) > 1e-6 * std::max(1.0, std::abs(x))) { ctx.fail("not-linear-in-silence", S.where() + " from " + std::to_string(settled) + " step " + std::to_string(d) + " " + A[k].first + " grows by " + std::to_string(x) + " then " + std::to_string(y)); break; }
    }
    ctx.count(std::string("histories.") + stdName(std)); if (S.toggling) ctx.count("histories_toggling"); if (S.useDbi) ctx.count("histories_dbi"); ctx.fp(S.fp); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
