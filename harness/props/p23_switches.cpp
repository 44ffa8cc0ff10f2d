// P23 (simulator job): every simulator offers exactly the extensions its standard has, and what a switch reports is what the device does.
#include "sim/refif.h"
using namespace sim;
template <class D, class M, class MS> static void own(vh::Ctx& ctx, Std std, bool wantDBI, bool wantMeta) {
    auto& g = ctx.rng; SessionOpt so; so.toggling = 0; so.dbi = 1; so.gen.power = g.coin(); so.end = false; so.spec.maxRanks = 2; Session S(g, std, so); auto dev = S.make(); RefIf r(S.s, S.cfg); std::string p = std::string(stdName(std)) + ".";
    auto* d = &static_cast<DevT<D>&>(*dev).d; auto ext = [&](D& x) {
        auto& m = x.getExtensionManager(); ctx.eq(m.template hasExtension<DP::extensions::DBI>(), wantDBI, (p + "offers-inversion").c_str(), "lookup"); ctx.eq(m.template hasExtension<DP::extensions::MetaData>(), wantMeta, (p + "offers-metadata").c_str(), "lookup");
        ctx.eq(bool(m.template getExtension<DP::extensions::DBI>().lock()), wantDBI, (p + "inversion-handle").c_str(), "lookup"); ctx.eq(bool(m.template getExtension<DP::extensions::MetaData>().lock()), wantMeta, (p + "metadata-handle").c_str(), "lookup");
        size_t n = 0; m.template withExtension<DP::extensions::DBI>([&](auto&) { ++n; }); m.template withExtension<DP::extensions::MetaData>([&](auto&) { n += 16; }); ctx.eq(n, size_t(wantDBI) + 16 * size_t(wantMeta), (p + "visits").c_str(), "visitor called once per offered extension");
    };
    ext(*d); { D c(*d); ext(c); D v(std::move(c)); ext(v); }
    bool dbi = false; std::pair<uint16_t, uint16_t> meta = dev->meta(); size_t n = g.range(2, 40); ctx.check(!dev->dbi(), (p + "inversion-initially-off").c_str(), S.where()); uint64_t fp = 0;
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S.next(o)) break; bool ok = apply(*dev, o); r.apply(o);
        if (o.k == Op::DBI) { ctx.eq(ok, wantDBI && !(std == DDR4 && S.s.width == 4), (p + "switch-outcome").c_str(), S.where()); if (ok) dbi = o.on; ctx.count("inversion_switches"); }
        if (o.k == Op::META && wantMeta) { meta = {o.m1, o.m2}; ctx.count("metadata_switches"); }
        ctx.eq(dev->dbi(), dbi && wantDBI, (p + "reported-inversion").c_str(), S.where()); ctx.check(dev->meta() == meta, (p + "reported-metadata").c_str(), S.where()); ctx.count("operations");
        if (g.chance(1, 6)) { // copies and moved simulators report what the original had, and restored ones what was saved
            if (g.chance(1, 3) && dev->serializable()) { std::stringstream ss; dev->ser(ss); auto e = S.make(); e->deser(ss); dev = std::move(e); ctx.count("restores"); } else dev = g.coin() ? dev->copy() : dev->moved();
            ctx.eq(dev->dbi(), dbi && wantDBI, (p + "inversion-of-copy").c_str(), S.where()); ctx.check(dev->meta() == meta, (p + "metadata-of-copy").c_str(), S.where()); ext(static_cast<DevT<D>&>(*dev).d);
        }
        fp = vh::mix(fp, o.k * 2 + o.on);
    }
    // the device does what was reported: activity of data, inversion signal and commands is that of the reported switches
    uint64_t q = S.queryTime() + g.below(200); auto st = dev->window(q); auto x = r.at(q); auto one = [&](const DP::util::bus_stats_t& a, const ref::Stats& w, const char* k) { ctx.eval(5); if (!(ref::of(a) == w)) ctx.fail(p + k, S.where() + ": got " + ref::str(ref::of(a)) + " expected " + ref::str(w)); };
    one(st.readBus, x.rd, "read-bus"); one(st.writeBus, x.wr, "write-bus"); one(st.readDBI, x.rdbi, "read-inversion"); one(st.writeDBI, x.wdbi, "write-inversion"); ctx.fp(vh::mix(S.fp, fp)); if (ctx.caseIdx < 5) ctx.sample(S.where(8));
}
#define OWN(N, D, S, DBI, META) VH_PART(N, 1) { own<DP::D, DP::MemSpec##D, DRAMUtils::MemSpec::MemSpec##D>(ctx, S, DBI, META); }
OWN(ddr4, DDR4, DDR4, true, false)
OWN(ddr5, DDR5, DDR5, false, false)
OWN(lpddr4, LPDDR4, LPDDR4, true, false)
OWN(lpddr5, LPDDR5, LPDDR5, true, false)
OWN(lpddr6, LPDDR6, LPDDR6, true, true)
