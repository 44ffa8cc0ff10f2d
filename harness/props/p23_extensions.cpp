// P23: extension hosting - every registered extension that supports a hook is called exactly once per call, in
// registration order; lookups find exactly what was registered; snapshots visit every extension in order; the DBI and
// metadata switches report what the device accepted.
#include <common/vh.h>
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_manager_static.h>
#include <DRAMPower/util/extensions.h>
#include <sstream>
#include <memory>
using namespace DRAMPower;
using namespace DRAMPower::util;
using namespace vh;

// ---- dynamic manager ----
struct PBase : Serialize, Deserialize { int id = 0; uint64_t v = 0; virtual ~PBase() = default;
    void serialize(std::ostream& o) const override { o.write(reinterpret_cast<const char*>(&v), sizeof v); }
    void deserialize(std::istream& i) override { i.read(reinterpret_cast<char*>(&v), sizeof v); } };
template <int I> struct PExt : PBase { PExt(int i, uint64_t x) { id = i; v = x; } PExt() { id = I; } };
template <class F, int... Is> static void forAll(F&& f, std::integer_sequence<int, Is...>) { (f(std::integral_constant<int, Is>{}), ...); }
constexpr int NX = 10;
VH_PART(dynamic_plain, 2) {
    auto& g = ctx.rng; extension_manager::ExtensionManager<PBase> m; std::vector<int> order; for (int i = 0; i < NX; ++i) if (g.coin()) order.push_back(i);
    g.shuffle(order); std::vector<uint64_t> val(NX); std::ostringstream W; W << "registered";
    for (int i : order) { W << " " << i; val[i] = g.next(); forAll([&](auto c) { if (c.value == i) m.registerExtension<PExt<decltype(c)::value>>(i, val[i]); }, std::make_integer_sequence<int, NX>{}); ctx.count("registered"); }
    auto verify = [&](const char* key, std::vector<uint64_t>& v) {
        forAll([&](auto c) { constexpr int I = decltype(c)::value; using T = PExt<I>; bool want = std::find(order.begin(), order.end(), I) != order.end();
            ctx.eq(m.hasExtension<T>(), want, "ext.has", W.str()); auto w = m.getExtension<T>().lock(); ctx.eq(bool(w), want, "ext.get", W.str());
            if (w) ctx.check(w->id == I && w->v == v[I], key, W.str()); int calls = 0; m.withExtension<T>([&](T& e) { ++calls; ctx.check(&e == w.get(), "ext.with", W.str()); });
            ctx.eq(calls, want ? 1 : 0, "ext.with", W.str()); }, std::make_integer_sequence<int, NX>{}); };
    verify("ext.state", val);
    std::stringstream s; m.serialize(s); std::string raw = s.str(); ctx.eq(raw.size(), order.size() * 8, "ext.snapshot", W.str());
    for (size_t k = 0; k < order.size() && raw.size() == order.size() * 8; ++k) { uint64_t x; memcpy(&x, raw.data() + 8 * k, 8); ctx.eq(x, val[order[k]], "ext.snapshot_order", W.str()); }
    std::vector<uint64_t> other(NX); forAll([&](auto c) { constexpr int I = decltype(c)::value; m.withExtension<PExt<I>>([&](auto& e) { e.v = other[I] = ctx.rng.next(); }); }, std::make_integer_sequence<int, NX>{});
    verify("ext.state", other); m.deserialize(s); verify("ext.restore", val);
    uint64_t f = 1; for (int i : order) f = mix(f, i); ctx.fp(f);
}
template <class HV> struct HookE { enum class T : HV {}; };
template <class HV> using HookOf = typename HookE<HV>::T;
template <class HV> struct HBaseT : extension_manager::ExtensionWithHooks<HookOf<HV>>, Serialize, Deserialize { int id = 0; HV mask = 0; HookOf<HV> getSupportedHooks() const override { return HookOf<HV>(mask); }
    void serialize(std::ostream& o) const override { o.put(char(id)); } void deserialize(std::istream& i) override { id = i.get(); } };
template <class HV, int I> struct HExt : HBaseT<HV> { HExt(int i, HV mk) { this->id = i; this->mask = mk; } };
template <class HV> static void hookCase(Ctx& ctx) {
    using Hook = HookOf<HV>; using HBase = HBaseT<HV>; constexpr unsigned D = std::numeric_limits<HV>::digits;
    auto& g = ctx.rng; auto rbit = [&] { return g.chance(1, 3) ? g.pick({0u, D - 1, D / 2, D > 31 ? 31u : 0u, D > 32 ? 32u : 1u}) : unsigned(g.below(D)); };
    struct M { extension_manager::ExtensionManagerWithHooks<HBase, Hook> m; }; auto m = std::make_unique<M>(); std::vector<std::pair<int, HV>> reg; std::ostringstream W;
    std::vector<int> order; for (int i = 0; i < NX; ++i) if (g.chance(2, 3)) order.push_back(i); g.shuffle(order);
    std::vector<unsigned> hot; for (int i = 0; i < 4; ++i) hot.push_back(rbit());
    for (int i : order) { HV mask = 0; int n = int(g.below(4)); for (int k = 0; k < n; ++k) mask |= HV(HV(1) << (g.coin() ? g.pick(hot) : rbit())); if (g.chance(1, 12)) mask = HV(~HV(0)) & std::numeric_limits<HV>::max();
        forAll([&](auto c) { if (c.value == i) m->m.template registerExtension<HExt<HV, decltype(c)::value>>(i, mask); }, std::make_integer_sequence<int, NX>{});
        reg.push_back({i, mask}); W << " " << i << ":" << std::hex << uint64_t(mask) << std::dec; ctx.count("registered");
        if (g.coin()) continue; // hooks may fire between registrations
        unsigned b = g.coin() ? g.pick(hot) : rbit(); std::vector<int> got, want; m->m.callHook(Hook(HV(HV(1) << b)), [&](HBase& e) { got.push_back(e.id); }); for (auto& p : reg) if ((p.second >> b) & 1) want.push_back(p.first);
        ctx.check(got == want, "hook.calls", W.str() + " hook bit " + std::to_string(b)); }
    for (unsigned b = 0; b < D; ++b) { std::vector<int> got, want; m->m.callHook(Hook(HV(HV(1) << b)), [&](HBase& e) { got.push_back(e.id); }); for (auto& p : reg) if ((p.second >> b) & 1) want.push_back(p.first);
        ctx.count("hook_calls"); ctx.count("hook_deliveries", want.size()); ctx.check(got == want, "hook.calls", W.str() + " hook bit " + std::to_string(b)); }
    int none = 0; m->m.callHook(Hook(0), [&](HBase&) { ++none; }); ctx.eq(none, 0, "hook.none", W.str());
    std::stringstream s; m->m.serialize(s); std::string raw = s.str(); std::string want; for (auto& p : reg) want += char(p.first); ctx.check(raw == want, "ext.snapshot_order", W.str());
    uint64_t f = D; for (auto& p : reg) f = mix(f, p.second); ctx.fp(f); if (g.chance(1, 500)) ctx.sample(W.str());
}
VH_PART(hooks_u8, 1) { hookCase<uint8_t>(ctx); }
VH_PART(hooks_u16, 1) { hookCase<uint16_t>(ctx); }
VH_PART(hooks_u32, 2) { hookCase<uint32_t>(ctx); }
VH_PART(hooks_u64, 2) { hookCase<uint64_t>(ctx); }

// ---- static manager ----
enum class SH : uint64_t { none = 0, a = 1, b = 2, c = 4, d = 8, hi = 1ull << 40, top = 1ull << 63 };
constexpr SH operator|(SH l, SH r) { return SH(uint64_t(l) | uint64_t(r)); }
template <int I, uint64_t M> struct SExt { static constexpr SH getSupportedHooks() { return SH(M); } int id = I; uint64_t n = 0; };
using S0 = SExt<0, 1>; using S1 = SExt<1, 6>; using S2 = SExt<2, (1ull << 40) | 1>; using S3 = SExt<3, 0>; using S4 = SExt<4, (1ull << 63) | 15>; struct Absent {};
template <class Mgr, class... Es> static void staticCase(Ctx& ctx) {
    auto& g = ctx.rng; Mgr m; std::vector<int> ids{Es{}.id...}; std::vector<uint64_t> masks{uint64_t(Es::getSupportedHooks())...}, cnt(ids.size(), 0);
    ((ctx.check(Mgr::template hasExtension<Es>(), "static.has", "registered type")), ...); ctx.check(!Mgr::template hasExtension<Absent>(), "static.has", "absent type");
    uint64_t f = 7; int steps = int(g.range(1, 10));
    for (int s = 0; s < steps; ++s) {
        std::vector<int> got; auto fn = [&](auto& e) { got.push_back(e.id); ++e.n; }; int second = 0; auto fn2 = [&](auto& e) { got.push_back(100 + e.id); ++second; };
        unsigned h = unsigned(g.below(6)); bool two = g.coin(); uint64_t bit = h == 0 ? 1 : h == 1 ? 2 : h == 2 ? 4 : h == 3 ? 8 : h == 4 ? (1ull << 40) : (1ull << 63);
#define CALL(H) do { if (two) m.template callHook<SH::H>(fn, fn2); else m.template callHook<SH::H>(fn); } while (0)
        switch (h) { case 0: CALL(a); break; case 1: CALL(b); break; case 2: CALL(c); break; case 3: CALL(d); break; case 4: CALL(hi); break; default: CALL(top); }
#undef CALL
        std::vector<int> want; for (size_t i = 0; i < ids.size(); ++i) if (masks[i] & bit) { want.push_back(ids[i]); if (two) want.push_back(100 + ids[i]); ++cnt[i]; }
        ctx.check(got == want, "static.calls", "hook " + std::to_string(h)); ctx.count("static_hook_calls"); f = mix(f, h * 2 + two);
        size_t i = 0; ((ctx.eq(m.template getExtension<Es>().n, cnt[i++], "static.state", "state kept by the extension")), ...);
        i = 0; ((ctx.eq(m.template withExtension<Es>([](auto& e) { return e.n; }), cnt[i++], "static.with", "visitor result")), ...);
        const auto& cm = m; i = 0; ((ctx.eq(cm.template getExtension<Es>().n, cnt[i++], "static.state", "const access")), ...);
    }
    ctx.fp(f);
}
template <class... E> using SM = extension_manager_static::StaticExtensionManager<DRAMUtils::util::type_sequence<E...>, SH>;
VH_PART(static_a, 1) { staticCase<SM<S0, S1, S2, S3, S4>, S0, S1, S2, S3, S4>(ctx); }
VH_PART(static_b, 1) { staticCase<SM<S4, S2, S0>, S4, S2, S0>(ctx); }

// ---- the shipped extensions ----
VH_PART(shipped, 2) {
    auto& g = ctx.rng; bool init = g.coin(), cur = init; std::vector<std::pair<uint64_t, bool>> seen; bool accept = true;
    extensions::DBI d([&](timestamp_t t, bool e) { seen.push_back({t, e}); return accept; }, init); std::ostringstream W;
    for (int s = 0; s < 12; ++s) { ctx.eq(d.isEnabled(), cur, "dbi.enabled", W.str());
        if (g.chance(1, 4)) { std::stringstream ss; d.serialize(ss); extensions::DBI e([](timestamp_t, bool) { return true; }, g.coin()); e.deserialize(ss); ctx.eq(e.isEnabled(), cur, "dbi.snapshot", W.str()); continue; }
        accept = g.chance(2, 3); bool e = g.coin(); uint64_t t = g.below(1000); seen.clear(); bool r = d.enable(t, e); W << " en(" << t << "," << e << ")=" << accept;
        ctx.eq(r, accept, "dbi.result", W.str()); ctx.check(seen.size() == 1 && seen[0] == std::make_pair(t, e), "dbi.callback", W.str()); if (accept) cur = e; }
    std::tuple<uint16_t, uint16_t> dev{uint16_t(g.next()), uint16_t(g.next())}, want = dev;
    auto mk = [&](std::tuple<uint16_t, uint16_t>& x) { return extensions::MetaData([&x](uint16_t a, uint16_t b) { x = {a, b}; }, [&x] { return x; }, x); }; auto md = mk(dev);
    for (int s = 0; s < 6; ++s) { ctx.check(md.getMetaData() == want, "meta.get", "metadata"); uint16_t a = uint16_t(g.next()), b = uint16_t(g.next()); md.setMetaData(a, b); want = {a, b}; ctx.check(dev == want, "meta.set", "device side"); 
        std::stringstream ss; md.serialize(ss); ctx.eq(ss.str().size(), size_t(4), "meta.snapshot", "length"); std::string raw = ss.str(); uint16_t x, y; memcpy(&x, raw.data(), 2); memcpy(&y, raw.data() + 2, 2); ctx.check(x == a && y == b, "meta.snapshot", "content");
        std::tuple<uint16_t, uint16_t> d2{0, 0}; auto m2 = mk(d2); m2.deserialize(ss); std::stringstream s2; m2.serialize(s2); ctx.check(s2.str() == raw, "meta.restore", "restored content"); 
        // without a device to ask, the extension itself reports what was accepted, and so does one restored from it
        extensions::MetaData own([](uint16_t, uint16_t) {}, extensions::MetaData::get_callback_t{}, std::tuple<uint16_t, uint16_t>{1, 2}); ctx.check(own.getMetaData() == std::tuple<uint16_t, uint16_t>(1, 2), "meta.own-initial", "initial"); own.setMetaData(a, b);
        ctx.check(own.getMetaData() == want, "meta.own", "accepted value"); std::stringstream s3; own.serialize(s3); extensions::MetaData back([](uint16_t, uint16_t) {}, extensions::MetaData::get_callback_t{}, std::tuple<uint16_t, uint16_t>{3, 4}); back.deserialize(s3); ctx.check(back.getMetaData() == want, "meta.own-restored", "restored value"); }
    ctx.fp(mix(cur, std::get<0>(want)));
}
