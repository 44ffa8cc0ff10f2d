// P19: the signal and time primitives (buses, pins, clocks, interval counters) account every half-cycle of simulated
// time exactly once, with the level and the transition that was really driven.
#include <common/vh.h>
#include <sim/refbus.h>
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/databus.h>
#include <DRAMPower/util/databus_presets.h>
#include <DRAMPower/util/pin.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/cycle_stats.h>
#include <DRAMPower/util/pending_stats.h>
#include <sstream>
#include <memory>
using namespace DRAMPower;
using namespace vh;
using ref::of;

static bool same(Ctx& ctx, const util::bus_stats_t& got, const ref::Stats& want, const char* key, const std::string& where) {
    ctx.eval(5);
    if (of(got) == want) return true;
    ctx.fail(key, where + ": got " + ref::str(of(got)) + " expected " + ref::str(want)); return false;
}
static std::vector<uint8_t> rndData(Rng& g, size_t bits) {
    std::vector<uint8_t> d((bits + 7) / 8); unsigned m = unsigned(g.below(6));
    for (size_t i = 0; i < d.size(); ++i) d[i] = m == 0 ? 0 : m == 1 ? 0xff : m == 2 ? (i & 1 ? 0xff : 0) : m == 3 ? 0xaa : uint8_t(g.next());
    return d;
}
static uint64_t rndGap(Rng& g) { switch (g.below(8)) { case 0: case 1: case 2: return 0; case 3: return 1; case 7: return g.chance(1, 10) ? g.below(1ull << 40) : g.below(50); default: return g.below(20); } }

template <size_t N> static void busCase(Ctx& ctx) {
    auto& g = ctx.rng; size_t width = g.chance(1, 3) ? N : g.range(1, N); if (g.chance(1, 3)) width = std::min<size_t>(N, g.pick({4u, 7u, 8u, 14u, 16u, 27u, 32u, 64u}));
    uint64_t rate = g.pick({1u, 1u, 2u, 2u, 4u, 8u, 16u}); bool high = g.coin(), on = !g.chance(1, 8), switching = g.chance(1, 3);
    auto bus = std::make_unique<util::Bus<N>>(width, rate, high ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L, on);
    ref::Bus r(width, rate, high, on);
    std::ostringstream H; H << "Bus<" << N << "> width=" << width << " rate=" << rate << " idle=" << high << " on=" << on << ":";
    uint64_t now = 0, fp = mix(width * 2 + high, rate); uint64_t lastSwitch = 0; bool sw0 = on;
    ctx.eq(bus->get_width(), width, "bus.width", "width");
    int steps = int(g.range(2, N > 256 ? 8 : 18));
    for (int s = 0; s < steps; ++s) {
        now += rndGap(g);
        unsigned op = unsigned(g.below(8));
        if (op < 5) {
            if (r.on()) { uint64_t e = (r.endOfLast() + rate - 1) / rate; if (e > now && r.bursts.back().v >= r.periods.back().s) now = e; }
            bool cmdLoad = width * 1 <= 64 && g.chance(1, 3); size_t beats = g.range(1, cmdLoad ? 64 / width : 18);
            std::vector<uint8_t> d = rndData(g, cmdLoad ? 64 : beats * width + (g.chance(1, 6) ? g.below(width) : 0));
            size_t bits = cmdLoad ? beats * width : beats * width + (d.size() * 8 > beats * width + width ? 0 : 0);
            if (cmdLoad) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= uint64_t(d[i]) << (8 * i); bus->load(now, v, beats); }
            else bus->load(now, d.data(), bits);
            r.load(now, ref::beatsOf(d.data(), bits, width)); H << " load@" << now << "x" << beats; ctx.count("bus_loads");
            // the beat driven at every cycle of the burst and right after it
            if (r.on()) for (uint64_t k = 0; k <= beats; ++k) {
                auto b = bus->at(now * rate + k); bool ok = true;
                for (size_t j = 0; j < width; ++j) if (b[j] != (k < beats ? bool(r.bursts.back().b[k][j]) : high)) ok = false;
                ctx.check(ok, "bus.at", H.str() + " beat " + std::to_string(k));
            }
        } else if (op == 5 && switching) {
            if (now <= lastSwitch) now = lastSwitch + 1;
            if (!r.bursts.empty() && now * rate <= r.bursts.back().v) now = r.bursts.back().v / rate + 1;
            if (r.on()) { bus->disable(now); r.disable(now); H << " off@" << now; } else { bus->enable(now); r.enable(now); H << " on@" << now; }
            lastSwitch = now; ctx.count("bus_switches");
        } else if (op == 6) {
            std::stringstream ss; bus->serialize(ss);
            auto b2 = std::make_unique<util::Bus<N>>(width, rate, high ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L, g.coin()); b2->deserialize(ss);
            ctx.check(bool(ss) && ss.peek() == EOF, "bus.snapshot", H.str() + " snapshot length"); bus = std::move(b2); H << " restore"; ctx.count("restores");
        }
        // observe now, inside the burst, at its end and later; observing must not disturb
        uint64_t tmin = std::max(now, lastSwitch);
        for (int q = 0; q < 3; ++q) {
            uint64_t t = tmin + (q == 0 ? 0 : q == 1 ? g.below(12) : rndGap(g));
            fp = mix(fp, r.at(t).ones * 31 + r.at(t).o2z);
            if (!same(ctx, bus->get_stats(t), r.at(t), "bus.stats", H.str() + " stats@" + std::to_string(t))) return;
        }
    }
    (void)sw0; ctx.fp(fp); if (g.chance(1, 400)) ctx.sample(H.str());
}
VH_PART(bus_small, 4) { busCase<7>(ctx); }
VH_PART(bus_cmd, 4) { busCase<27>(ctx); }
VH_PART(bus_64, 6) { busCase<64>(ctx); }
VH_PART(bus_256, 3) { busCase<256>(ctx); }
VH_PART(bus_1024, 1) { busCase<1024>(ctx); }

// the data bus preset: any width up to the maximum, reads and writes accounted separately
VH_PART(databus, 5) {
    auto& g = ctx.rng; size_t width = g.chance(1, 3) ? g.pick({63u, 64u, 65u, 255u, 256u, 257u, 1023u, 1024u, 1025u, 4096u}) : g.range(1, g.coin() ? 64 : 1200);
    uint64_t rate = g.pick({1u, 2u, 4u, 8u}); bool hr = g.coin(), hw = g.coin();
    using P = DRAMUtils::Config::TogglingRateIdlePattern;
    DRAMUtils::Config::ToggleRateDefinition def{0, 0, 0, 0, hr ? P::H : P::L, hw ? P::H : P::L};
    auto mk = [&] { return util::databus_presets::getDataBusPreset(util::DataBusConfig{width, rate, def}, util::DataBusMode::Bus); };
    auto bus = std::make_unique<util::databus_presets::databus_preset_t>(mk());
    ref::Bus rr(width, rate, hr), rw(width, rate, hw);
    ctx.eq(bus->getWidth(), width, "databus.width", "width"); ctx.check(bus->isBus() && !bus->isTogglingRate(), "databus.mode", "mode");
    uint64_t now = 0; std::ostringstream H; H << "DataBus width=" << width << " rate=" << rate << " idle r/w=" << hr << hw << ":"; uint64_t fp = mix(width, rate);
    int steps = int(g.range(2, width > 256 ? 6 : 14));
    for (int s = 0; s < steps; ++s) {
        now += rndGap(g); bool rd = g.coin(); auto& r = rd ? rr : rw;
        uint64_t e = (r.endOfLast() + rate - 1) / rate; if (e > now) now = e;
        size_t beats = g.range(1, 17); auto d = rndData(g, beats * width);
        if (g.chance(1, 10)) { if (rd) bus->loadRead(now, beats * width, nullptr); else bus->loadWrite(now, beats * width, nullptr); H << " null"; } // no data known: nothing is driven
        else {
            if (rd) bus->loadRead(now, beats * width, d.data()); else bus->loadWrite(now, beats * width, d.data());
            r.load(now, ref::beatsOf(d.data(), beats * width, width)); H << (rd ? " rd@" : " wr@") << now << "x" << beats; ctx.count("bus_loads");
        }
        if (g.chance(1, 5)) { std::stringstream ss; bus->serialize(ss); auto b2 = std::make_unique<util::databus_presets::databus_preset_t>(mk()); b2->deserialize(ss); bus = std::move(b2); ctx.count("restores"); }
        uint64_t t = now + g.below(12); util::bus_stats_t a, b, c, d2;
        bus->get_stats(t, a, b, c, d2);
        bool ok = same(ctx, a, rr.at(t), "databus.read", H.str() + " read@" + std::to_string(t)); ok &= same(ctx, b, rw.at(t), "databus.write", H.str() + " write@" + std::to_string(t));
        ok &= same(ctx, c, ref::Stats{}, "databus.toggle", H.str()) && same(ctx, d2, ref::Stats{}, "databus.toggle", H.str());
        fp = mix(fp, rr.at(t).ones + 7 * rw.at(t).ones); if (!ok) return;
    }
    ctx.fp(fp);
}

template <size_t N> static void pinCase(Ctx& ctx) {
    auto& g = ctx.rng; using S = util::PinState; auto lv = [](S s) { return s == S::L ? 0 : s == S::H ? 1 : -1; };
    S init = g.pick({S::L, S::H, S::Z}), idle = g.chance(1, 8) ? S::Z : (g.coin() ? S::L : S::H); if (g.coin()) init = idle;
    auto mk = [&] { return std::make_unique<util::Pin<N>>(init, idle); };
    auto pin = mk(); ref::Line r(lv(init), lv(idle)); uint64_t now = 0, rate = g.pick({1u, 1u, 2u, 4u}), fp = mix(lv(init) + 5, lv(idle));
    std::ostringstream H; H << "Pin<" << N << "> init=" << lv(init) << " idle=" << lv(idle) << " rate=" << rate << ":"; uint64_t endv = 0;
    int steps = int(g.range(1, 14));
    for (int s = 0; s < steps; ++s) {
        uint64_t t = std::max(now, (endv + rate - 1) / rate); if (g.chance(1, 2)) t += rndGap(g); else if (s == 0) t += g.below(3);
        if (s && t * rate == r.bursts.back().v) ++t;
        size_t beats = g.range(1, N); unsigned m = unsigned(g.below(4)); H << " @" << t << ":";
        for (size_t k = 0; k < beats; ++k) { bool h = m == 0 ? false : m == 1 ? true : g.coin(); pin->set(t, h ? S::H : S::L, rate); r.push(t * rate, h); H << h; }
        now = t; endv = t * rate + beats; ctx.count("pin_beats", beats);
        if (g.chance(1, 6)) { std::stringstream ss; pin->serialize(ss); auto p2 = mk(); p2->deserialize(ss); pin = std::move(p2); H << " restore"; ctx.count("restores"); }
        for (int q = 0; q < 3; ++q) {
            uint64_t tq = now + (q == 0 ? 0 : q == 1 ? g.below(N + 3) : rndGap(g));
            if (!same(ctx, pin->get_stats_at(tq, rate), r.at(tq * rate), "pin.stats", H.str() + " stats@" + std::to_string(tq))) return;
            fp = mix(fp, r.at(tq * rate).ones);
        }
    }
    ctx.fp(fp); if (g.chance(1, 400)) ctx.sample(H.str());
}
VH_PART(pin_8, 5) { pinCase<8>(ctx); }
VH_PART(pin_32, 4) { pinCase<32>(ctx); }

VH_PART(clocks, 4) {
    auto& g = ctx.rng; size_t rate = g.pick({1u, 2u, 2u, 3u, 4u, 8u}); bool stopped = g.coin();
    auto c = std::make_unique<util::Clock>(rate, stopped); bool run = !stopped; uint64_t start = 0, now = 0; uint64_t half = 0, fp = rate;
    std::ostringstream H; H << "Clock rate=" << rate << " stopped=" << stopped << ":";
    int steps = int(g.range(1, 24));
    for (int s = 0; s < steps; ++s) {
        now += rndGap(g);
        if (g.chance(2, 3)) {
            if (run) { if (now <= start) now = start + 1; c->stop(now); half += (now - start) * rate / 2; run = false; H << " stop@" << now; }
            else { c->start(now); start = now; run = true; H << " start@" << now; }
        } else if (g.chance(1, 3)) { std::stringstream ss; c->serialize(ss); auto c2 = std::make_unique<util::Clock>(rate, g.coin()); c2->deserialize(ss); c = std::move(c2); H << " restore"; ctx.count("restores"); }
        uint64_t t = now + rndGap(g), n = half + (run ? (t - start) * rate / 2 : 0);
        ref::Stats w; w.ones = w.zeroes = w.o2z = w.z2o = n; w.changes = 2 * n;
        if (!same(ctx, c->get_stats_at(t), w, "clock.stats", H.str() + " @" + std::to_string(t))) return;
        fp = mix(fp, n);
    }
    ctx.fp(fp); ctx.count("clock_histories");
}

VH_PART(intervals, 4) {
    auto& g = ctx.rng; using I = util::interval_counter<uint64_t>;
    bool ctor = g.coin(); uint64_t now = g.below(50); I c = ctor ? I(now) : I();
    uint64_t total = 0, st = ctor ? now : 0, en = 0; bool hs = ctor, he = false; uint64_t fp = now; std::ostringstream H; H << "interval" << (ctor ? "(" + std::to_string(now) + ")" : "()") << ":";
    int steps = int(g.range(1, 25));
    for (int s = 0; s < steps; ++s) {
        now += rndGap(g); unsigned op = unsigned(g.below(7));
        switch (op) {
        case 0: c.start_interval(now); st = now; hs = true; he = false; H << " start@" << now; break;
        case 1: c.start_interval_if_not_running(now); if (!(hs && !he)) { st = now; hs = true; he = false; } H << " startif@" << now; break;
        case 2: case 3: { uint64_t want = 0; if (hs && !he) { want = now - st; total += want; en = now; he = true; } ctx.eq(c.close_interval(now), want, "interval.close", H.str() + " close@" + std::to_string(now)); H << " close@" << now; break; }
        case 4: if (g.coin()) { c.reset_interval(); hs = he = false; H << " reset"; } break;
        case 5: { uint64_t k = g.below(9); c.add(k); total += k; H << " add" << k; break; }
        default: { std::stringstream ss; c.serialize(ss); I d; if (g.coin()) { d.start_interval(3); d.close_interval(9); } d.deserialize(ss); c = d; ctx.count("restores"); H << " restore"; }
        }
        bool open = hs && !he;
        ctx.check(c.is_open() == open && c.is_closed() == (hs && he), "interval.state", H.str());
        ctx.eq(c.get_count(), total, "interval.count", H.str());
        if (hs) ctx.eq(c.get_start(), st, "interval.start", H.str());
        if (he) ctx.eq(c.get_end(), en, "interval.end", H.str());
        uint64_t t = g.coin() ? now + rndGap(g) : g.below(now + 1);
        ctx.eq(c.get_count_at(t), total + (open && t > st ? t - st : 0), "interval.at", H.str() + " at " + std::to_string(t));
        fp = mix(fp, total * 4 + open);
    }
    ctx.fp(fp); ctx.count("interval_histories");
}

VH_PART(stats_algebra, 2) {
    auto& g = ctx.rng; auto rnd = [&] { util::bus_stats_t s; s.ones = g.below(1ull << 40); s.zeroes = g.below(1ull << 40); s.bit_changes = g.below(1ull << 40); s.ones_to_zeroes = g.below(1ull << 40); s.zeroes_to_ones = g.below(1ull << 40); return s; };
    auto a = rnd(), b = rnd(); uint64_t k = g.below(1000); auto ra = of(a), rb = of(b), sum = ra; sum += rb;
    same(ctx, a + b, sum, "busstats.add", "a+b"); same(ctx, b + a, sum, "busstats.add", "b+a"); same(ctx, k * a, ra.times(k), "busstats.mul", "k*a"); same(ctx, a * k, ra.times(k), "busstats.mul", "a*k");
    auto c = a; c += b; same(ctx, c, sum, "busstats.addeq", "a+=b"); c = a; c *= k; same(ctx, c, ra.times(k), "busstats.muleq", "a*=k");
    ctx.check(a == a && (a == b) == (ra == rb), "busstats.eq", "equality");
    auto d = a; (g.below(5) == 0 ? d.ones : g.below(4) == 0 ? d.zeroes : g.below(3) == 0 ? d.bit_changes : g.coin() ? d.ones_to_zeroes : d.zeroes_to_ones) ^= 1; ctx.check(!(a == d), "busstats.ne", "difference in one field");
    std::stringstream ss; a.serialize(ss); util::bus_stats_t e; e.deserialize(ss); same(ctx, e, ra, "busstats.snapshot", "restored");
    ctx.fp(mix(ra.ones, rb.zeroes));
}
