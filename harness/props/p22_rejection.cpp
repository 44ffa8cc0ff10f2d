// P22 (built with NDEBUG, as users build it, plus ASan/UBSan): inputs outside the documented domain are rejected and leave no trace; inputs at the last value inside are accepted.
#include "sim/session.h"
#include <DRAMPower/util/sub_bitset.h>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/command/Pattern.h>
#include <stdexcept>
using namespace sim; using C = CmdType;
static bool bankAddressed(C t) { switch (t) { case C::ACT: case C::PRE: case C::PRESB: case C::RD: case C::RDA: case C::WR: case C::WRA: case C::REFB: case C::REFSB: case C::REFP2B: case C::REFDB: return true; default: return false; } }
static bool rankAddressed(C t) { return t != C::NOP && t != C::END_OF_SIMULATION; }
enum Outcome { ACCEPTED, DOMAIN_ERROR, OTHER_ERROR };
template <class F> static Outcome attempt(F&& f, std::string& what) {
    try { f(); return ACCEPTED; } catch (const std::out_of_range& e) { what = e.what(); return DOMAIN_ERROR; } catch (const std::invalid_argument& e) { what = e.what(); return DOMAIN_ERROR; } catch (const std::exception& e) { what = e.what(); return OTHER_ERROR; }
}
static void coordinates(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; SessionOpt so; so.toggling = 0; so.gen.huge = g.chance(1, 4); Session S(g, std, so); auto a = S.make(), ref = S.make(); size_t n = g.range(1, ctx.thorough ? 80 : 35);
    auto mine = S.gen->types(); std::set<C> has(mine.begin(), mine.end()); if (std == LPDDR5) has.insert(C::REFP2B); has.insert(C::NOP); has.insert(C::END_OF_SIMULATION); for (C t : {C::PDEA, C::PDEP, C::PDXA, C::PDXP, C::SREFEN, C::SREFEX}) has.insert(t);
    size_t rejected = 0; bool ignored = false;
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break; bool x = apply(*a, o), y = apply(*ref, o); ctx.check(x == y, "switch-outcome-differs", S.where()); ctx.count("accepted_operations"); if (o.k == Op::CMD) ignored = false;
        if (g.chance(2, 3)) continue;
        Cmd c; c.t = std::max(S.gen->now, S.gen->lastQuery); c.rank = g.below(S.s.ranks); c.bank = g.below(S.s.B); c.bg = c.bank / S.s.perGroup(); c.row = g.below(S.s.rows); c.col = g.below(S.s.cols); std::string what;
        auto bad = [&](uint64_t n) { return g.pick({n, n, n + 1, n + 7, uint64_t(255) + n, uint64_t(1) << 20, (uint64_t(1) << 40) + g.below(4), ~uint64_t(0)}); };
        switch (g.below(4)) {
            case 0: case 1: { // out of range rank or bank
                c.type = g.pick(mine); if (!rankAddressed(c.type)) break; bool bank = bankAddressed(c.type) && g.coin(); if (bank) c.bank = bad(S.s.B); else c.rank = bad(S.s.ranks);
                if (bank && std == LPDDR6 && c.type == C::REFDB && g.coin()) c.bank = S.s.B;
                Mode m = g.coin() ? CORE : BOTH; auto r = attempt([&] { drive(*a, c, m); }, what);
                std::string k = std::string(stdName(std)) + "." + DP::CmdTypeUtil::to_string(c.type) + (bank ? ".bank" : ".rank");
                if (r == ACCEPTED) ctx.fail("out-of-range-accepted:" + k, S.where() + " then " + str(c)); else if (r == OTHER_ERROR) ctx.fail("unexpected-error:" + k, S.where() + " then " + str(c) + " " + what);
                ctx.eval(); ctx.count(bank ? "rejected_bank" : "rejected_rank"); ctx.count("rejected." + k); ++rejected; if (r == ACCEPTED) return; break; }
            case 2: { // a command the standard does not have
                c.type = C(g.below(size_t(C::COUNT))); if (has.count(c.type)) break; Mode m = g.pick({CORE, IFACE, BOTH}); auto r = attempt([&] { drive(*a, c, m); }, what);
                ignored |= r == ACCEPTED; ctx.eval(); ctx.count(r == ACCEPTED ? "foreign_command_ignored" : "foreign_command_rejected"); ctx.count(std::string("foreign.") + stdName(std) + "." + DP::CmdTypeUtil::to_string(c.type)); break; }
            default: // documented refusals
                if (std == LPDDR5 && S.s.m8b) { c.type = C::REFP2B; for (Mode m : {CORE, IFACE, BOTH}) { auto r = attempt([&] { drive(*a, c, m); }, what); ctx.check(r != ACCEPTED, "two-bank-refresh-accepted-in-8-bank-mode", S.where()); ctx.count("rejected_two_bank_refresh"); } }
                else if (std == DDR5) { ctx.check(!a->hasDBI() && !a->setDBI(c.t, true), "inversion-accepted-by-ddr5", S.where()); ctx.count("rejected_inversion_switch"); }
                else if (std == DDR4 && S.s.width == 4) { ctx.check(!a->setDBI(c.t, true) && !a->dbi(), "inversion-accepted-by-x4", S.where()); ctx.count("rejected_inversion_switch"); }
                else { ctx.check(a->hasDBI(), "inversion-switch-missing", S.where()); }
        }
        if (g.coin()) { uint64_t q = std::max(S.queryTime(), c.t); auto st = a->window(q), sr = ref->window(q); std::string w = S.where() + " after " + str(c) + " at " + std::to_string(q); sameJ(ctx, js(st), js(sr), "rejected-input-left-a-trace", w);
            sameJ(ctx, js(a->coreE(st)), js(ref->coreE(sr)), "rejected-input-left-a-trace.core-energy", w); sameJ(ctx, js(a->ifE(st)), js(ref->ifE(sr)), "rejected-input-left-a-trace.interface-energy", w); S.queried(q); ctx.count("trace_compares");
            // an ignored command still passes time; a rejected one was never there
            if (!ignored) { ctx.eq(a->last(), ref->last(), "rejected-input-left-a-trace.last-command-time", w); sameJ(ctx, js(a->stats()), js(ref->stats()), "rejected-input-left-a-trace.current-stats", w); ctx.count("last_command_times"); } }
        if (ctx.fails.size() > 10) return;
    }
    uint64_t q = std::max(S.queryTime(), S.gen->busIdleAt()) + g.below(300); sameJ(ctx, js(a->window(q)), js(ref->window(q)), "rejected-input-left-a-trace", S.where() + " final");
    ctx.count(std::string("histories.") + stdName(std)); ctx.fp(vh::mix(S.fp, rejected)); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
VH_PART(ddr4, 3) { coordinates(ctx, DDR4); }
VH_PART(ddr5, 3) { coordinates(ctx, DDR5); }
VH_PART(lpddr4, 3) { coordinates(ctx, LPDDR4); }
VH_PART(lpddr5, 3) { coordinates(ctx, LPDDR5); }
VH_PART(lpddr6, 3) { coordinates(ctx, LPDDR6); }
VH_PART(configurations, 2) {
    auto& g = ctx.rng; Std std = Std(g.below(NSTD)); Spec s = randomSpec(g, std, {}); std::string what;
    // specifications of another standard
    std::vector<Spec> all; for (int i = 0; i < NSTD; ++i) all.push_back(randomSpec(g, Std(i), {}));
    for (int i = 0; i < NSTD; ++i) {
        auto v = DRAMUtils::parse_memspec_from_json(nlohmann::json{{"memspec", all[i].doc}}); if (!ctx.check(v.has_value(), "memspec-not-parsed", describe(all[i]))) continue;
        for (int k = 0; k < NSTD; ++k) {
            auto r = attempt([&] { switch (k) { case DDR4: DP::MemSpecDDR4::from_memspec(*v); break; case DDR5: DP::MemSpecDDR5::from_memspec(*v); break; case LPDDR4: DP::MemSpecLPDDR4::from_memspec(*v); break; case LPDDR5: DP::MemSpecLPDDR5::from_memspec(*v); break; default: DP::MemSpecLPDDR6::from_memspec(*v); } }, what);
            ctx.check((r == ACCEPTED) == (i == k), (std::string("foreign-specification:") + stdName(i) + "-as-" + stdName(k)).c_str(), what); ctx.count(i == k ? "accepted_specifications" : "rejected_specifications");
        }
    }
    // data bus wider than supported: the last width inside is accepted
    uint64_t w = s.width, most = 4096 / w; for (uint64_t d : {most, most + 1, most + 1 + g.below(100)}) {
        auto t = s; t.doc["memarchitecturespec"]["nbrOfDevices"] = d; t.devices = d; auto r = attempt([&] { auto x = makeDev(t); auto st = x->window(3 + g.below(100)); js(st).dump(); }, what);
        ctx.check((r == ACCEPTED) == (d * w <= 4096), (std::string("data-bus-width:") + stdName(std)).c_str(), describe(t) + " " + what); ctx.count(d * w <= 4096 ? "accepted_widths" : "rejected_widths");
    }
    // toggling mode without a defined idle pattern
    using P = DRAMUtils::Config::TogglingRateIdlePattern; for (int k = 0; k < 4; ++k) {
        DP::config::SimConfig c; DRAMUtils::Config::ToggleRateDefinition d; d.togglingRateRead = d.togglingRateWrite = 0.5; d.dutyCycleRead = d.dutyCycleWrite = 0.5; d.idlePatternRead = k & 1 ? P::Invalid : P::H; d.idlePatternWrite = k & 2 ? P::Invalid : P::L; c.toggleRateDefinition = d;
        auto r = attempt([&] { auto x = makeDev(s, c); js(x->window(10)).dump(); }, what); ctx.check((r == ACCEPTED) == (k == 0), (std::string("idle-pattern:") + stdName(std)).c_str(), describe(s) + " " + what); ctx.count(k ? "rejected_idle_patterns" : "accepted_idle_patterns");
    }
    ctx.fp(vh::hashStr(describe(s))); ctx.sample(describe(s));
}
template <size_t W> static void subBits(vh::Ctx& ctx) {
    auto& g = ctx.rng; std::string what; size_t w = g.coin() ? W : g.below(W + 1);
    for (size_t x : {W, W + 1, W + g.below(1000)}) { auto r = attempt([&] { DP::util::sub_bitset<W> s(x); (void)s; }, what); ctx.check((r == ACCEPTED) == (x <= W), "bit-container-width", std::to_string(W) + "/" + std::to_string(x)); ctx.count("bit_container_widths"); }
    if (W <= 64) { auto r = attempt([&] { DP::util::sub_bitset<W> s(W + 1, 5); (void)s; }, what); ctx.check(r == DOMAIN_ERROR, "bit-container-width", std::to_string(W)); }
    DP::util::sub_bitset<W> s(w); for (size_t i = 0; i < w; ++i) s.set(i, g.coin()); auto before = s;
    for (size_t x : {w, w + 1, w + size_t(g.below(5000)), ~size_t(0)}) {
        int k = int(g.below(3)); auto r = attempt([&] { switch (k) { case 0: s.set(x, g.coin()); break; case 1: s.flip(x); break; default: (void)bool(s[x]); } }, what);
        ctx.check(r == DOMAIN_ERROR, ("bit-index." + std::to_string(k)).c_str(), std::to_string(W) + " width " + std::to_string(w) + " index " + std::to_string(x)); ctx.check(s == before, "bit-container-changed-by-rejected-access", std::to_string(W)); ctx.count("bit_indices");
    }
}
VH_PART(bit_containers, 1) { switch (ctx.rng.below(4)) { case 0: subBits<1>(ctx); break; case 1: subBits<16>(ctx); break; case 2: subBits<64>(ctx); break; default: subBits<300>(ctx); } }
VH_PART(patterns, 1) {
    namespace pd = DP::pattern_descriptor; auto& g = ctx.rng; DP::PatternHandler<C> ph{DP::PatternEncoderOverrides{}}; std::set<C> reg; std::string what; size_t n = g.below(6);
    for (size_t i = 0; i < n; ++i) { std::vector<pd::t> d{pd::H, pd::L, pd::R0};
        switch (g.below(6)) { case 0: ph.template registerPattern<C::ACT>(d); reg.insert(C::ACT); break; case 1: ph.template registerPattern<C::END_OF_SIMULATION>(d); reg.insert(C::END_OF_SIMULATION); break; case 2: ph.template registerPattern<C::RD>(d); reg.insert(C::RD); break;
            case 3: ph.template registerPattern<C::WRA>(d); reg.insert(C::WRA); break; case 4: ph.template registerPattern<C::NOP>(d); reg.insert(C::NOP); break; default: ph.template registerPattern<C::SREFEX>(d); reg.insert(C::SREFEX); } }
    for (size_t t = 0; t < size_t(C::COUNT); ++t) { auto r = attempt([&] { ph.getCommandPattern(C(t), DP::TargetCoordinate(0, 0, 0, 0, 0)); }, what); ctx.check((r == ACCEPTED) == (reg.count(C(t)) > 0), "unregistered-pattern", std::to_string(t)); ctx.count("pattern_lookups"); }
}
