// P12: copies and moved simulators are equivalent to and independent of their source.
#include "sim/session.h"
using namespace sim;
static void disturb(vh::Ctx& ctx, const Session& S, Dev& d, uint64_t from, bool dbi) {
    // other commands, switches and queries on one twin only; they must not be visible in the other
    auto& g = ctx.rng; int n = int(g.range(1, 12)); (void)S;
    uint64_t t = from; 
    for (int i = 0; i < n; ++i) {
        Op o; t += 40 + g.below(30);
        switch (g.below(4)) {
            case 0: if (S.s.std == LPDDR6) { o.k = Op::META; o.m1 = uint16_t(g.next()); o.m2 = uint16_t(g.next()); apply(d, o); break; } [[fallthrough]];
            case 1: o.k = Op::DBI; o.t = t; o.on = dbi = !dbi; apply(d, o); break;
            case 2: d.window(t); break;
            default: { o.c.t = t; o.c.type = CmdType::NOP; if (S.s.std == DDR5) apply(d, o); else d.coreAt(t); }
        }
    }
    ctx.count("disturbances");
}
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; Session S(g, std); auto a = S.make(), ref = S.make(); size_t n = histLen(ctx, 3, 45, 120); unsigned den = g.pick({3u, 8u, 15u});
    std::vector<std::unique_ptr<Dev>> followers; // continue in step with the original
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break;
        bool x = apply(*a, o), z = apply(*ref, o); ctx.check(x == z, "switch-outcome-differs", S.where());
        for (auto& f : followers) { bool y = apply(*f, o); ctx.check(x == y, "switch-outcome-of-copy-differs", S.where()); }
        ctx.count("operations");
        if (g.chance(1, 5) && !followers.empty()) { uint64_t q = S.queryTime(); for (auto& f : followers) { sameAt(ctx, *ref, *f, q, "copy-continuation", S.where()); ctx.count("continuation_compares"); } a->window(q); S.queried(q); }
        if (!g.chance(1, den)) continue;
        std::unique_ptr<Dev> b; int how = int(g.below(9)); uint64_t q;
        switch (how) {
            case 6: a->assign(*a); b = a->copy(); ctx.count("self_assign"); break;
            case 7: { auto o = a->moved(); if (g.coin()) a->assign(*o); else { auto c = o->copy(); a->moveAssign(*c); } b = std::move(o); ctx.count("moved_from_assigned"); break; } // what was moved from can be assigned again
            case 8: { // std::swap of two simulators, the other one with a history of its own
                b = S.make(); if (g.coin()) { SessionOpt to = S.so; to.toggling = S.toggling; Session T(g, S.s, to); Op p; for (int k = 0; k < 6 && T.next(p); ++k) apply(*b, p); } auto t = a->moved(); a->moveAssign(*b); b->moveAssign(*t); std::swap(a, b); b = a->copy(); ctx.count("swapped"); break; }
            case 0: b = a->copy(); ctx.count("copy_construct"); break;
            case 1: { b = S.make(); if (g.coin()) { SessionOpt to = S.so; to.toggling = S.toggling; Session T(g, S.s, to); Op p; for (int k = 0; k < 6 && T.next(p); ++k) apply(*b, p); } b->assign(*a); ctx.count("copy_assign"); break; }
            case 2: { auto src = a->copy(); b = src->moved(); if (g.coin()) src.reset(); else { /* destroyed at scope exit */ } ctx.count("move_construct"); break; }
            case 3: { auto src = a->copy(); b = S.make(); if (g.coin()) { Op p; p.k = Op::DBI; p.on = true; apply(*b, p); } b->moveAssign(*src); ctx.count("move_assign"); break; }
            case 4: { // replace the original by its copy or by what was moved out of it and destroy the original: everything has to live on
                auto nw = g.coin() ? a->copy() : a->moved(); a = std::move(nw); ctx.count("original_replaced"); b = a->copy(); break; }
            default: { // assignment from a simulator of another configuration replaces that one completely
                Session T(g, std, SessionOpt{}); b = T.make(); Op p; for (int k = 0; k < 8 && T.next(p); ++k) apply(*b, p); b->assign(*a); ctx.count("copy_assign_over_other_configuration"); }
        }
        q = S.queryTime(); sameAt(ctx, *ref, *b, q, "copy-at-once", S.where()); a->window(q); for (auto& f : followers) f->window(q); S.queried(q);
        ctx.check(b->dbi() == ref->dbi(), "inversion-switch-of-copy-differs", S.where()); ctx.check(b->meta() == ref->meta(), "metadata-of-copy-differs", S.where());
        sameJ(ctx, b->arch().rankCount + 1000 * b->arch().deviceCount, ref->arch().rankCount + 1000 * ref->arch().deviceCount, "architecture-of-copy-differs", S.where());
        if (g.chance(1, 3)) { // disturb a further copy, or hand over to the copy and disturb the original
            auto v = g.coin() ? b->copy() : a->copy(); disturb(ctx, S, *v, std::max(q, S.gen->busIdleAt()) + 100, S.dbiOn);
            sameAt(ctx, *ref, *b, q, "disturbed-through-copy", S.where()); sameAt(ctx, *ref, *a, q, "original-disturbed-through-copy", S.where());
        } else if (g.chance(1, 3)) { std::swap(a, b); disturb(ctx, S, *b, std::max(q, S.gen->busIdleAt()) + 100, S.dbiOn); b.reset(); ctx.count("original_disturbed"); }
        if (b && followers.size() < 3) followers.push_back(std::move(b));
        if (!followers.empty() && g.chance(1, 6)) followers.erase(followers.begin() + g.below(followers.size()));
        if (ctx.fails.size() > 10) return;
    }
    uint64_t q = S.queryTime() + g.below(40); sameAt(ctx, *ref, *a, q, "final-original", S.where()); for (auto& f : followers) sameAt(ctx, *ref, *f, q, "final-copy", S.where());
    if (S.toggling) ctx.count("histories_toggling"); if (S.useDbi) ctx.count("histories_dbi"); ctx.count(std::string("histories.") + stdName(std));
    ctx.fp(S.fp); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
// Two histories with a common beginning. Each is first run alone and its answers recorded; then one simulator runs the common beginning, a twin
// is made of it, and both go on along their own histories in turns, beside a third unrelated simulator. All answers must be those given alone.
struct Step { bool query = false; Op o; uint64_t q = 0; };
struct Script { std::vector<Step> steps; std::vector<std::string> want; size_t at = 0, ans = 0; };
static std::string answers(Dev& d, uint64_t q) { auto w = d.window(q); nlohmann::json j; j["s"] = js(w); j["c"] = js(d.coreE(w)); j["i"] = js(d.ifE(w)); j["l"] = d.last(); j["d"] = d.dbi(); j["m"] = d.meta(); return j.dump(); }
static void grow(Session& S, Script& sc, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (S.g.chance(1, 6)) { Step st; st.query = true; st.q = S.queryTime(); S.queried(st.q); sc.steps.push_back(st); }
        else { Step st; if (!S.next(st.o)) return; sc.steps.push_back(st); }
    }
}
static void last(Session& S, Script& sc) { Step st; st.query = true; st.q = S.queryTime(); S.queried(st.q); sc.steps.push_back(st); }
static void alone(const Session& S, Script& sc) { auto d = S.make(); for (auto& st : sc.steps) if (st.query) sc.want.push_back(answers(*d, st.q)); else apply(*d, st.o); }
static void step(vh::Ctx& ctx, Dev& d, Script& sc, const char* key, const Session& S) {
    auto& st = sc.steps[sc.at++];
    if (!st.query) { apply(d, st.o); ctx.count("fork_operations"); return; }
    auto got = answers(d, st.q); ctx.eval(); ctx.count("fork_answers"); auto& want = sc.want[sc.ans++];
    if (got != want) ctx.fail(key, S.where() + " at " + std::to_string(st.q) + ": " + diffJson(nlohmann::json::parse(got), nlohmann::json::parse(want)));
}
static void forked(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; vh::Rng g1(g.next()), g2 = g1, g3(g.next());
    Session A(g1, std), B(g2, std), F(g3, Std(g.below(5)));
    Script a, b, f; size_t pre = g.range(0, 30);
    grow(A, a, pre); grow(B, b, pre); size_t common = a.steps.size();
    g2 = vh::Rng(g.next()); // from here on B's history is its own
    grow(A, a, g.range(1, 30)); grow(B, b, g.range(1, 30)); grow(F, f, g.range(1, 30)); last(A, a); last(B, b); last(F, f);
    alone(A, a); alone(B, b); alone(F, f);
    auto da = A.make(), df = F.make(); std::unique_ptr<Dev> db; if (g.coin()) db = B.make();
    while (a.at < common) { if (f.at < f.steps.size() && g.chance(1, 4)) step(ctx, *df, f, "unrelated-simulator-disturbs", F); step(ctx, *da, a, "common-beginning-differs", A); }
    if (!db) { db = da->copy(); if (g.coin()) std::swap(da, db); if (g.chance(1, 3)) { da = da->moved(); } }
    else { if (g.coin()) { Op o; Script junk; vh::Rng g4(g.next()); SessionOpt jo; jo.toggling = A.toggling; Session J(g4, A.s, jo); for (int i = 0; i < 6 && J.next(o); ++i) apply(*db, o); } if (g.coin()) db->assign(*da); else { auto t = da->copy(); db->moveAssign(*t); } }
    for (size_t i = 0; i < common; ++i) { if (b.steps[i].query) ++b.ans; } b.at = common;
    unsigned w[3] = {unsigned(g.range(1, 5)), unsigned(g.range(1, 5)), unsigned(g.range(0, 3))};
    while ((a.at < a.steps.size() || b.at < b.steps.size() || f.at < f.steps.size()) && ctx.fails.size() < 6) {
        if (w[0] + w[1] + w[2] == 0 || (a.at == a.steps.size() && b.at == b.steps.size())) w[2] = 1;
        unsigned k = unsigned(g.below(w[0] + w[1] + w[2]));
        if (k < w[0]) { if (a.at < a.steps.size()) step(ctx, *da, a, "twin-disturbs-original", A); }
        else if (k < w[0] + w[1]) { if (b.at < b.steps.size()) step(ctx, *db, b, "original-disturbs-twin", B); }
        else if (f.at < f.steps.size()) step(ctx, *df, f, "unrelated-simulator-disturbed", F);
    }
    ctx.count("forks"); ctx.fp(vh::mix(vh::mix(A.fp, B.fp), F.fp));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
VH_PART(fork_ddr4, 1) { forked(ctx, DDR4); }
VH_PART(fork_ddr5, 1) { forked(ctx, DDR5); }
VH_PART(fork_lpddr4, 1) { forked(ctx, LPDDR4); }
VH_PART(fork_lpddr5, 1) { forked(ctx, LPDDR5); }
VH_PART(fork_lpddr6, 1) { forked(ctx, LPDDR6); }
