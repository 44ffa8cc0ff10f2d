// P01: every cycle of every bank and rank belongs to exactly one state; counters are bounded, conserved and never decrease.
#include "sim/session.h"
using namespace sim;
static void monitor(vh::Ctx& ctx, const Spec& s, const SimulationStats& st, uint64_t T, const std::string& w, const std::vector<std::pair<std::string, double>>* before) {
    auto cyc = [&](const DP::cycles_t& c, const std::string& at, const char* kind) {
        std::string k = std::string(stdName(s.std)) + "." + kind;
        uint64_t parts[] = {c.act, c.pre, c.powerDownAct, c.powerDownPre, c.selfRefresh, c.deepSleepMode}; uint64_t sum = 0;
        for (auto p : parts) { ctx.check(p <= T, (k + ".exceeds-elapsed").c_str(), at + " a state lasts " + std::to_string(p)); sum += p; }
        ctx.eq(sum, T, (k + ".cycles-not-partitioned").c_str(), at);
        ctx.eq(c.activeTime(), c.act, (k + ".activeTime").c_str(), at);
    };
    if (!ctx.eq(st.bank.size(), size_t(s.ranks * s.B), "bank-count", w) || !ctx.eq(st.rank_total.size(), size_t(s.ranks), "rank-count", w)) return;
    for (size_t r = 0; r < s.ranks; ++r) {
        std::string at = w + " t=" + std::to_string(T) + " rank " + std::to_string(r);
        auto& R = st.rank_total[r].cycles; cyc(R, at, "rank"); uint64_t mx = 0, sum = 0;
        for (size_t b = 0; b < s.B; ++b) {
            auto& x = st.bank[r * s.B + b]; cyc(x.cycles, at + " bank " + std::to_string(b), "bank"); mx = std::max(mx, x.cycles.act); sum += x.cycles.act;
            auto& c = x.counter; ctx.check(c.act >= c.pre && c.act - c.pre <= 1, "activations-and-precharges-unpaired", at + " bank " + std::to_string(b) + " act " + std::to_string(c.act) + " pre " + std::to_string(c.pre));
            // power-down and self-refresh are states of the whole rank
            ctx.check(x.cycles.selfRefresh == R.selfRefresh && x.cycles.deepSleepMode == R.deepSleepMode, "rank-wide-state-differs-between-banks", at + " bank " + std::to_string(b));
        }
        // a rank is active exactly while one of its banks is
        ctx.check(R.act >= mx && R.act <= sum, "rank-active-outside-union-of-banks", at + " rank " + std::to_string(R.act) + " max " + std::to_string(mx) + " sum " + std::to_string(sum));
    }
    if (before) {
        auto now = flat(st); ctx.check(now.size() == before->size(), "record-changed-shape", w);
        for (size_t i = 0; i < std::min(now.size(), before->size()); ++i) if (now[i].second < (*before)[i].second) ctx.fail("counter-decreased", w + " " + now[i].first + " " + std::to_string((*before)[i].second) + " -> " + std::to_string(now[i].second));
        ctx.eval(now.size());
    }
}
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; SessionOpt so; so.gen.coreOnly = g.chance(3, 4); so.switches = !so.gen.coreOnly; if (so.gen.coreOnly) so.toggling = 0;
    Session S(g, std, so); auto dev = S.make(); Mode m = so.gen.coreOnly ? CORE : BOTH; std::vector<std::pair<std::string, double>> last; bool have = false;
    size_t n = histLen(ctx, 5, 90, 250); std::map<CmdType, uint64_t> issued; uint64_t rdIssued = 0;
    auto ask = [&] { uint64_t q = S.queryTime(); auto st = dev->window(q); S.queried(q); monitor(ctx, S.s, st, q, S.where(), have ? &last : nullptr); last = flat(st); have = true; ctx.count("queries"); return st; };
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break; apply(*dev, o, m); ctx.count("commands"); if (o.k == Op::CMD) ++issued[o.c.type]; (void)rdIssued;
        if (g.chance(1, 3)) { ask(); if (ctx.fails.size() > 20) return; }
    }
    auto st = ask();
    // every command that names one bank is counted once, in one bank
    DP::command_stats_t sum{}; for (auto& b : st.bank) { auto& c = b.counter; sum.act += c.act; sum.reads += c.reads; sum.writes += c.writes; sum.readAuto += c.readAuto; sum.writeAuto += c.writeAuto; sum.refAllBank += c.refAllBank; sum.refPerBank += c.refPerBank; sum.refPerTwoBanks += c.refPerTwoBanks; sum.refDualBanks += c.refDualBanks; sum.refSameBank += c.refSameBank; }
    const Spec& s = S.s; using C = CmdType; std::string w = S.where();
    ctx.eq(uint64_t(sum.act), issued[C::ACT], "lost-or-duplicated.ACT", w); ctx.eq(uint64_t(sum.reads), issued[C::RD], "lost-or-duplicated.RD", w); ctx.eq(uint64_t(sum.writes), issued[C::WR], "lost-or-duplicated.WR", w);
    ctx.eq(uint64_t(sum.readAuto), issued[C::RDA], "lost-or-duplicated.RDA", w); ctx.eq(uint64_t(sum.writeAuto), issued[C::WRA], "lost-or-duplicated.WRA", w);
    ctx.eq(uint64_t(sum.refAllBank), (issued[C::REFA] + issued[C::SREFEN]) * s.B, "lost-or-duplicated.REFA", w); ctx.eq(uint64_t(sum.refPerBank), issued[C::REFB], "lost-or-duplicated.REFB", w);
    ctx.eq(uint64_t(sum.refPerTwoBanks), issued[C::REFP2B] * 2, "lost-or-duplicated.REFP2B", w); ctx.eq(uint64_t(sum.refDualBanks), issued[C::REFDB] * 2, "lost-or-duplicated.REFDB", w); ctx.eq(uint64_t(sum.refSameBank), issued[C::REFSB] * s.BG, "lost-or-duplicated.REFSB", w);
    ctx.count(std::string("histories.") + stdName(std)); ctx.fp(S.fp); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
