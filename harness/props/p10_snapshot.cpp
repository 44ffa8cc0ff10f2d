// P10: original, restored and never-snapshotted twins stay identical; snapshots are reproducible.
#include "sim/session.h"
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; Session S(g, std); auto a = S.make(), c = S.make(); std::unique_ptr<Dev> b; // a: original, b: restored, c: never snapshotted
    size_t n = histLen(ctx, 3, 60, 160); unsigned den = g.pick({1u, 3u, 10u}); unsigned snaps = 0; bool chain = g.coin();
    // A simulator that was used before the snapshot is restored into it has to forget everything as well; only its own configuration counts.
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break;
        bool x = apply(*a, o), z = apply(*c, o); ctx.check(x == z, "snapshot-changed-switch-outcome", S.where());
        if (b) { bool y = apply(*b, o); ctx.check(x == y, "restored-switch-outcome-differs", S.where()); }
        ctx.count("operations");
        if (!g.chance(1, den)) continue;
        if (g.chance(1, 3)) { uint64_t q = S.queryTime(); a->window(q); c->window(q); if (b) { b->window(q); sameAt(ctx, *a, *b, q, "continuation", S.where()); ctx.count("continuation_compares"); } S.queried(q); }
        bool sa = a->serializable(), sc = c->serializable(); ctx.check(sa == sc, "serializability-differs-from-undisturbed-twin", S.where());
        if (b) ctx.check(b->serializable() == sa, "serializability-differs-after-restore", S.where());
        if (!sa) { ctx.count("not_serializable_points"); continue; }
        std::stringstream s1, s2; a->ser(s1); a->ser(s2); ctx.check(s1.str() == s2.str(), "snapshot-not-reproducible", S.where());
        auto f = S.make(); f->deser(s1); ctx.check(bool(s1) && s1.peek() == std::char_traits<char>::eof(), "snapshot-not-consumed-exactly", S.where());
        if (g.chance(1, 3)) { std::stringstream s4; f->ser(s4); f = S.make(); f->deser(s4); ctx.check(bool(s4) && s4.peek() == std::char_traits<char>::eof(), "second-generation-snapshot-not-consumed-exactly", S.where()); ctx.count("second_generation_snapshots"); }
        ctx.check(f->parity() == a->parity(), "parity-mode-not-restored", S.where()); ctx.check(f->powered() == a->powered() && a->powered() == S.powered, "interface-power-not-restored", S.where());
        ctx.check(f->dbi() == a->dbi(), "inversion-switch-not-restored", S.where()); ctx.check(f->meta() == a->meta(), "metadata-not-restored", S.where());
        uint64_t q = S.queryTime(); sameAt(ctx, *a, *f, q, "at-restore", S.where()); c->window(q); S.queried(q);
        ++snaps; ctx.count("snapshots"); b = std::move(f);
        if (chain && g.coin()) { a = std::move(b); ctx.count("chained"); }
        if (ctx.fails.size() > 10) return;
    }
    uint64_t q = S.queryTime() + g.below(40); if (b) sameAt(ctx, *a, *b, q, "continuation", S.where()); sameAt(ctx, *a, *c, q, "snapshotted-vs-undisturbed", S.where());
    q += 200; if (b) sameAt(ctx, *a, *b, q, "continuation", S.where());
    if (snaps) ctx.count("histories_with_snapshot"); if (S.toggling) ctx.count("histories_toggling"); if (S.useDbi) ctx.count("histories_dbi"); ctx.count(std::string("histories.") + stdName(std));
    ctx.fp(vh::mix(S.fp, snaps)); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
