#pragma once
#include "sim/refif.h"
namespace sim {
inline bool sameBus(vh::Ctx& ctx, const DP::util::bus_stats_t& got, const ref::Stats& want, const std::string& key, const std::string& w) {
    ctx.eval(5); auto a = ref::of(got); if (a == want) return true; ctx.fail(key, w + ": got " + ref::str(a) + " expected " + ref::str(want)); return false;
}
template <class F> void driveIf(vh::Ctx& ctx, Std std, SessionOpt so, F&& compare) {
    auto& g = ctx.rng; so.gen.power = g.chance(2, 3); so.gen.huge = g.chance(1, 4); so.spec.maxRanks = g.chance(1, 5) ? 8 : 2; Mode m = g.coin() ? BOTH : IFACE; so.gen.nop = m == IFACE;
    Session S(g, std, so); auto dev = S.make(); RefIf r(S.s, S.cfg); unsigned den = g.pick({1u, 3u, 12u});
    size_t n = histLen(ctx, 3, 50, 120);
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break; apply(*dev, o, m); r.apply(o); ctx.count("operations"); if (o.k == Op::CMD) { ctx.count(std::string("cmd.") + DP::CmdTypeUtil::to_string(o.c.type)); if (o.c.bits) ctx.count("payload_bits", o.c.bits); }
        if (g.chance(1, den)) { int rep = int(g.range(1, 2)); for (int k = 0; k < rep; ++k) { uint64_t q = S.queryTime(); compare(*dev, r, q, S); S.queried(q); ctx.count("queries"); } }
        if (ctx.fails.size() > 20) return;
    }
    uint64_t q = S.queryTime() + g.below(300); compare(*dev, r, q, S); ctx.count("queries");
    ctx.count(std::string("histories.") + stdName(std)); ctx.fp(vh::mix(S.fp, vh::hashStr(ref::str(r.at(q).cmd)))); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
} // namespace sim
