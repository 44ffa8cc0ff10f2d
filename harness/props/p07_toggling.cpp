// P07: toggling-rate mode reports activity proportional to rate, duty cycle and transferred beats; payload bits do not matter.
#include "props/ifcommon.h"
#include <DRAMPower/util/databus_presets.h>
using namespace sim;
// whole number(s) the product may be rounded to: one, unless the product is integral up to rounding
static bool rounds(long double x, uint64_t got) { uint64_t f = uint64_t(std::floor(x)); if (got == f) return true; long double d = std::abs(x - std::round(x)), tol = 1e-9L * (1 + std::abs(x)); return d <= tol && (got == uint64_t(std::round(x)) || got + 1 == uint64_t(std::round(x))); }
static void one(vh::Ctx& ctx, const DP::util::bus_stats_t& g, uint64_t beats, uint64_t total, uint64_t W, double rate, double duty, bool high, const std::string& key, const std::string& w) {
    auto a = ref::of(g); ctx.eval(5); bool ok = a.ones % W == 0 && a.zeroes % W == 0 && a.o2z % W == 0; uint64_t idle = total - beats, o = a.ones / W, z = a.zeroes / W;
    ok = ok && (high ? o >= idle : z >= idle); if (ok) (high ? o : z) -= idle;
    ok = ok && rounds((long double)beats * duty, o) && rounds((long double)beats * (1 - (long double)duty), z) && rounds((long double)beats * rate / 2, a.o2z / W) && a.z2o == a.o2z && a.changes == 2 * a.o2z;
    if (!ok) { std::ostringstream s; s.precision(17); s << w << ": " << ref::str(a) << " for " << beats << " of " << total << " beats, width " << W << " rate " << rate << " duty " << duty << " idle " << (high ? "H" : "L"); ctx.fail(key, s.str()); }
}
static void run(vh::Ctx& ctx, Std std) {
    SessionOpt so; so.toggling = 1; auto H = DRAMUtils::Config::TogglingRateIdlePattern::H; std::unique_ptr<Dev> twin; size_t fed = 0; auto& g = ctx.rng;
    driveIf(ctx, std, so, [&](Dev& d, RefIf& r, uint64_t q, Session& S) {
        auto st = d.window(q); std::string at = S.where() + " at " + std::to_string(q), n = std::string(stdName(std)) + "."; ref::Stats none; uint64_t T = q * S.s.DR;
        one(ctx, st.togglingStats.read, r.toggled(true, q), T, r.W, r.def.togglingRateRead, r.def.dutyCycleRead, r.def.idlePatternRead == H, n + "toggling-read", at);
        one(ctx, st.togglingStats.write, r.toggled(false, q), T, r.W, r.def.togglingRateWrite, r.def.dutyCycleWrite, r.def.idlePatternWrite == H, n + "toggling-write", at);
        sameBus(ctx, st.readBus, none, n + "read-bus", at); sameBus(ctx, st.writeBus, none, n + "write-bus", at);
        auto w = r.at(q); sameBus(ctx, st.readDBI, w.rdbi, n + "read-inversion", at); sameBus(ctx, st.writeDBI, w.wdbi, n + "write-inversion", at);
        sameBus(ctx, st.readDQSStats, w.rdqs, n + "read-strobe", at); sameBus(ctx, st.writeDQSStats, w.wdqs, n + "write-strobe", at); sameBus(ctx, st.clockStats, w.clk, n + "clock", at); sameBus(ctx, st.wClockStats, w.wck, n + "write-clock", at);
        if (!twin) twin = S.make(); // same history with other payload bits, or none where the default burst length is meant: nothing may differ
        for (; fed < S.log.size(); ++fed) { Op o = S.log[fed]; if (o.k == Op::CMD) { for (auto& b : o.c.data) b = uint8_t(g.next()); uint64_t len = std == LPDDR6 ? o.c.bits / 256 * 24 : o.c.bits / r.W; if (o.c.bits && len == S.s.BL && g.coin()) { o.c.bits = 0; o.c.data.clear(); } } apply(*twin, o, IFACE); }
        auto t2 = twin->window(q); for (auto p : {&st, &t2}) { p->bank.clear(); for (auto& k : p->rank_total) { k.counter = {}; k.cycles = {}; } } sameJ(ctx, js(st), js(t2), n + "payload-influences-toggling-mode", at);
    });
    ctx.count("twin_operations", fed);
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }

// the toggling-rate bus itself: switched off and on at any time, also inside a burst (the rest of the burst is lost)
struct RefToggle {
    uint64_t rate; struct B { uint64_t v, len, cut; }; std::vector<B> bursts; struct Period { uint64_t s, e; }; std::vector<Period> on; static constexpr uint64_t INF = ~0ull;
    RefToggle(uint64_t r, bool o) : rate(r) { if (o) on.push_back({0, INF}); }
    bool enabled() const { return !on.empty() && on.back().e == INF; }
    void load(uint64_t t, uint64_t len) { if (enabled()) bursts.push_back({t * rate, len, INF}); }
    void off(uint64_t t) { if (!enabled()) return; on.back().e = t * rate; if (!bursts.empty() && bursts.back().cut == INF) bursts.back().cut = t * rate; }
    void start(uint64_t t) { if (!enabled()) on.push_back({t * rate, INF}); }
    uint64_t busyUntil() const { return bursts.empty() || bursts.back().cut != INF ? 0 : bursts.back().v + bursts.back().len; }
    uint64_t beats(uint64_t t) const { uint64_t T = t * rate, n = 0; for (auto& b : bursts) { uint64_t e = std::min({b.v + b.len, b.cut, T}); if (e > b.v) n += e - b.v; } return n; }
    uint64_t total(uint64_t t) const { uint64_t T = t * rate, n = 0; for (auto& p : on) { uint64_t e = std::min(p.e, T); if (e > p.s) n += e - p.s; } return n; }
};
static double share(vh::Rng& g) { return g.pick({0.0, 1.0, 0.5, 0.25, g.unit(), g.unit()}); }
static uint64_t gapOf(vh::Rng& g) { switch (g.below(6)) { case 0: return 0; case 1: return 1; case 2: return g.chance(1, 6) ? g.below(1ull << 36) : g.below(40); default: return g.below(12); } }
VH_PART(handle, 1) {
    auto& g = ctx.rng; using P = DRAMUtils::Config::TogglingRateIdlePattern; uint64_t W = g.range(1, g.coin() ? 64 : 1024), rate = g.pick({1u, 2u, 4u, 8u, 16u}); double tr = share(g), dc = share(g); bool high = g.coin(), on = !g.chance(1, 4);
    std::ostringstream H; H << "TogglingHandle width=" << W << " rate=" << rate << " on=" << on << ":"; uint64_t now = 0, lastSwitch = 0; RefToggle r(rate, on);
    auto h = std::make_unique<DP::TogglingHandle>(W, rate, tr, dc, high ? P::H : P::L, on);
    if (g.chance(1, 4)) { tr = share(g); dc = share(g); high = g.coin(); h->setTogglingRateAndDutyCycle(tr, dc, high ? P::H : P::L); ctx.eq(h->getTogglingRate(), tr, "handle.rate", H.str()); ctx.eq(h->getDutyCycle(), dc, "handle.duty", H.str()); }
    int steps = int(g.range(2, 25)); uint64_t fp = W;
    for (int i = 0; i < steps; ++i) {
        now += gapOf(g);
        switch (g.below(7)) {
        case 6: tr = share(g); dc = share(g); high = g.coin(); h->setTogglingRateAndDutyCycle(tr, dc, high ? P::H : P::L); H << " definition"; ctx.count("handle_definitions"); break; // rates and idle level are those of the result's evaluation
        case 0: if (r.enabled()) { h->disable(now); r.off(now); H << " off@" << now; } else { h->enable(now); r.start(now); H << " on@" << now; } ctx.count("handle_switches"); lastSwitch = now; break;
        case 1: { bool o = r.enabled(); o ? h->enable(now) : h->disable(now); break; } // repeating a switch changes nothing
        case 2: { std::stringstream ss; h->serialize(ss); auto n = std::make_unique<DP::TogglingHandle>(W, rate, tr, dc, high ? P::H : P::L, g.coin()); n->deserialize(ss); h = std::move(n); H << " restore"; ctx.count("handle_restores"); break; }
        case 3: { auto n = std::make_unique<DP::TogglingHandle>(*h); h->incCountBurstLength(std::max(now, (r.busyUntil() + rate - 1) / rate), 5); h = std::move(n); break; } // the copy is not affected
        default: { uint64_t e = (r.busyUntil() + rate - 1) / rate; if (e > now) now = e; uint64_t len = g.chance(1, 30) ? g.range(1, 1ull << g.range(10, 36)) : g.range(1, 40); if (g.coin()) h->incCountBurstLength(now, len); else h->incCountBitLength(now, len * W); r.load(now, len); H << " load@" << now << "x" << len; ctx.count("handle_bursts");
            if (r.enabled()) ctx.eq(h->get_lastburst_timestamp(), (now * rate + len + rate - 1) / rate, "handle.last-burst", H.str()); } }
        ctx.eq(h->isEnabled(), r.enabled(), "handle.enabled", H.str());
        for (int q = 0; q < 2; ++q) { uint64_t t = now + (q ? gapOf(g) : 0); one(ctx, h->get_stats(t), r.beats(t), r.total(t), W, tr, dc, high, "handle.stats", H.str() + " at " + std::to_string(t)); fp = vh::mix(fp, r.beats(t) * 31 + r.total(t)); }
        if (ctx.fails.size() > 5) return;
    }
    ctx.fp(fp); if (g.chance(1, 400)) ctx.sample(H.str());
}
// a data bus switched between transferring data and toggling rates: each mode accounts exactly its own share of the time
VH_PART(databus, 1) {
    auto& g = ctx.rng; using P = DRAMUtils::Config::TogglingRateIdlePattern; using M = DP::util::DataBusMode; uint64_t W = g.range(1, g.coin() ? 64 : 300), rate = g.pick({1u, 2u, 4u, 8u}); double tr = share(g), dr = share(g), tw = share(g), dw = share(g); bool hr = g.coin(), hw = g.coin(), tog = g.coin(), later = g.chance(1, 4);
    DRAMUtils::Config::ToggleRateDefinition def{tr, tw, dr, dw, hr ? P::H : P::L, hw ? P::H : P::L}, none{0, 0, 0, 0, def.idlePatternRead, def.idlePatternWrite};
    def.togglingRateRead = tr; def.togglingRateWrite = tw; def.dutyCycleRead = dr; def.dutyCycleWrite = dw;
    auto mk = [&](bool t) { return DP::util::databus_presets::getDataBusPreset(DP::util::DataBusConfig{W, rate, later ? none : def}, t ? M::TogglingRate : M::Bus); };
    auto bus = std::make_unique<DP::util::databus_presets::databus_preset_t>(mk(tog)); if (later) bus->setTogglingRateDefinition(def);
    std::ostringstream H; H << "DataBus width=" << W << " rate=" << rate << " toggling=" << tog << ":"; RefToggle a(rate, tog), b(rate, tog); ref::Bus ra(W, rate, hr, !tog), rb(W, rate, hw, !tog); uint64_t now = 0, lastSwitch = 0, fp = W; int steps = int(g.range(2, 20));
    auto busy = [&] { uint64_t v = 0; for (auto* x : {&a, &b}) v = std::max(v, x->busyUntil()); for (auto* x : {&ra, &rb}) if (x->on() && !x->bursts.empty() && x->bursts.back().v >= x->periods.back().s) v = std::max(v, x->endOfLast()); return (v + rate - 1) / rate; };
    for (int i = 0; i < steps; ++i) {
        now += gapOf(g);
        if (g.chance(1, 5)) { // switches follow each other and the last burst's start strictly
            if (now <= lastSwitch) now = lastSwitch + 1; for (auto* x : {&ra, &rb}) if (!x->bursts.empty() && now * rate <= x->bursts.back().v) now = x->bursts.back().v / rate + 1;
            tog = !tog; if (tog) { bus->enableTogglingRate(now); ra.disable(now); rb.disable(now); a.start(now); b.start(now); } else { bus->enableBus(now); ra.enable(now); rb.enable(now); a.off(now); b.off(now); }
            H << (tog ? " toggling@" : " data@") << now; lastSwitch = now; ctx.count("mode_switches");
        } else if (g.chance(1, 8)) { std::stringstream ss; bus->serialize(ss); auto n = std::make_unique<DP::util::databus_presets::databus_preset_t>(mk(g.coin())); if (later) n->setTogglingRateDefinition(def); n->deserialize(ss); bus = std::move(n); ctx.count("databus_restores"); H << " restore"; }
        else if (g.chance(1, 8)) { later = true; hr = g.coin(); hw = g.coin(); def.togglingRateRead = tr = share(g); def.togglingRateWrite = tw = share(g); def.dutyCycleRead = dr = share(g); def.dutyCycleWrite = dw = share(g); def.idlePatternRead = hr ? P::H : P::L; def.idlePatternWrite = hw ? P::H : P::L; bus->setTogglingRateDefinition(def); H << " definition"; ctx.count("databus_definitions"); }
        else { now = std::max(now, busy()); bool rd = g.coin(); uint64_t len = g.range(1, 17); std::vector<uint8_t> d((len * W + 7) / 8); for (auto& x : d) x = uint8_t(g.next()); rd ? bus->loadRead(now, len * W, d.data()) : bus->loadWrite(now, len * W, d.data());
            (rd ? a : b).load(now, len); (rd ? ra : rb).load(now, ref::beatsOf(d.data(), len * W, W)); H << (rd ? " rd@" : " wr@") << now << "x" << len; ctx.count("databus_bursts"); }
        ctx.check(bus->isTogglingRate() == tog && bus->isBus() != tog && bus->getWidth() == W, "databus.mode", H.str());
        for (int q = 0; q < 2; ++q) { uint64_t t = std::max(now, lastSwitch) + (q ? gapOf(g) : 0); DP::util::bus_stats_t x, y, tx, ty; bus->get_stats(t, x, y, tx, ty); std::string at = H.str() + " at " + std::to_string(t);
            one(ctx, tx, a.beats(t), a.total(t), W, tr, dr, hr, "databus.toggling-read", at); one(ctx, ty, b.beats(t), b.total(t), W, tw, dw, hw, "databus.toggling-write", at); sameBus(ctx, x, ra.at(t), "databus.read", at); sameBus(ctx, y, rb.at(t), "databus.write", at); fp = vh::mix(fp, ra.at(t).ones + 31 * a.beats(t)); }
        if (ctx.fails.size() > 5) return;
    }
    ctx.fp(fp); if (g.chance(1, 400)) ctx.sample(H.str());
}
