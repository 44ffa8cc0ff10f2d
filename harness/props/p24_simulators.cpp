// P24 (simulator job): whatever entry point a command takes, the simulators' dispatch hands it to its own handler exactly once - core
// activity equals the timeline, bus activity the truth tables, and a part that was not addressed stays silent.
#include "props/ifcommon.h"
#include "sim/timeline.h"
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    auto& g = ctx.rng; SessionOpt so; so.switches = false; so.toggling = 0; so.dbi = 0; so.gen.huge = false; so.spec.maxRanks = 2; 
    if (std == LPDDR6 && g.chance(1, 3)) { // the bus alone, with NOP, which the LPDDR6 core does not have
        so.gen.nop = true; Session S(g, std, so); RefIf r(S.s, S.cfg); auto bus = S.make(); size_t n = g.range(1, 14); for (size_t i = 0; i < n; ++i) { Op o; if (!S.next(o)) break; apply(*bus, o, IFACE); r.apply(o); ctx.fp(vh::mix(vh::mix(S.fp, uint64_t(o.c.type)), o.c.t)); if (o.c.type == CmdType::NOP) ctx.count("nop_on_bus"); }
        uint64_t q = S.queryTime() + g.below(200); std::string w = S.where() + " interface only at " + std::to_string(q); auto b = bus->window(q); auto x = r.at(q); sameBus(ctx, b.commandBus, x.cmd, "LPDDR6.command-bus", w); sameBus(ctx, b.readBus, x.rd, "LPDDR6.read-bus", w); sameBus(ctx, b.writeBus, x.wr, "LPDDR6.write-bus", w); return;
    }
    Session S(g, std, so); RefIf r(S.s, S.cfg); auto full = S.make(), core = S.make(), bus = S.make(), parts = S.make();
    size_t n = g.range(1, 14); std::set<CmdType> seen;
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break; apply(*full, o, BOTH); apply(*core, o, CORE); apply(*bus, o, IFACE); bool cf = g.coin(); apply(*parts, o, cf ? CORE : IFACE); apply(*parts, o, cf ? IFACE : CORE); r.apply(o);
        seen.insert(o.c.type); ctx.count(std::string("cmd.") + DP::CmdTypeUtil::to_string(o.c.type)); ctx.fp(vh::mix(vh::mix(S.fp, uint64_t(o.c.type)), o.c.t));
    }
    for (auto t : seen) ctx.count("types_per_history." + std::string(stdName(std))), (void)t;
    uint64_t q = S.queryTime() + g.below(200); std::string w = S.where() + " at " + std::to_string(q), p = std::string(stdName(std)) + "."; auto a = full->window(q), c = core->window(q), b = bus->window(q), d = parts->window(q); S.queried(q);
    compareTimeline(ctx, S.gen->rc, a, q, w + " both"); compareTimeline(ctx, S.gen->rc, c, q, w + " core only"); sameJ(ctx, js(d), js(a), p + "parts-in-turn", w);
    auto x = r.at(q); for (auto* st : {&a, &b}) { sameBus(ctx, st->commandBus, x.cmd, p + "command-bus", w + (st == &a ? " both" : " interface only")); }
    // what was not addressed counts nothing
    auto silent = S.make(); auto z = silent->window(q); auto jc = js(c), jb = js(b), jz = js(z); sameBus(ctx, c.commandBus, ref::of(z.commandBus), p + "core-command-on-bus", w); sameJ(ctx, jb["Bank"], jz["Bank"], p + "interface-command-in-core", w);
    if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
