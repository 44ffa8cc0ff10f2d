// P17: bit containers behave as the mathematical bit vector they represent, for every length, block size and history.
#include <common/vh.h>
#include <DRAMPower/util/dynamic_bitset.h>
#include <DRAMPower/util/sub_bitset.h>
#include <DRAMPower/util/binary_ops.h>
#include <DRAMPower/util/burst_storage.h>
#include <stdexcept>
using namespace DRAMPower;
using namespace vh;
using Bits = std::vector<bool>;

static std::string show(const Bits& b) { std::string s; for (size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0'; return s; }
static Bits fromValue(size_t n, uint64_t v) { Bits b(n); for (size_t i = 0; i < n; ++i) b[i] = i < 64 ? (v >> i) & 1 : false; return b; }
static size_t ones(const Bits& b) { size_t n = 0; for (bool x : b) n += x; return n; }
static uint64_t low64(const Bits& b) { uint64_t v = 0; for (size_t i = 0; i < b.size() && i < 64; ++i) if (b[i]) v |= 1ull << i; return v; }
static bool fits64(const Bits& b) { for (size_t i = 64; i < b.size(); ++i) if (b[i]) return false; return true; }

template <size_t B> using DB = util::dynamic_bitset<B>;

template <size_t B> static DB<B> rebuild(const Bits& m) { DB<B> r; for (bool b : m) r.push_back(b); return r; }

template <size_t B>
static void observe(Ctx& ctx, const DB<B>& d, const Bits& m, const std::string& op) {
    std::string where = "dynamic_bitset<" + std::to_string(B) + "> after " + op + " model=" + show(m).substr(0, 200);
    ctx.eq(d.size(), m.size(), "dyn.size", where);
    if (d.size() != m.size()) return;
    ctx.eq(d.count(), ones(m), "dyn.count", where);
    for (size_t i = 0; i < m.size(); ++i) if (bool(d[i]) != m[i]) { ctx.fail("dyn.bit", where + " bit " + std::to_string(i)); break; }
    ctx.eval(m.size());
    // equality is by length and bits only, however the value came about
    DB<B> r = rebuild<B>(m);
    ctx.check(d == r && r == d && !(d != r), "dyn.eq.rebuilt", where);
    auto o = rebuild<(B % 13) + 3>(m);
    ctx.check(d == o && o == d && !(d != o), "dyn.eq.otherblock", where);
    if (fits64(m)) { ctx.check(d == static_cast<unsigned long>(low64(m)) && !(d != static_cast<unsigned long>(low64(m))), "dyn.eq.value", where); }
    if (!m.empty()) {
        Bits m2 = m; size_t k = ctx.rng.below(m.size()); m2[k] = !m2[k];
        ctx.check(d != rebuild<B>(m2) && !(d == rebuild<B>(m2)), "dyn.ne.onebit", where);
        auto o2 = rebuild<(B % 13) + 3>(m2);
        ctx.check(d != o2 && !(d == o2), "dyn.ne.otherblock", where);
        if (fits64(m2) && k < 64) ctx.check(d != static_cast<unsigned long>(low64(m2)), "dyn.ne.value", where);
        Bits m3(m.begin(), m.end() - 1);
        ctx.check(d != rebuild<B>(m3), "dyn.ne.shorter", where);
    }
}

template <size_t B> static void dynCase(Ctx& ctx) {
    auto& g = ctx.rng;
    size_t n = g.chance(1, 3) ? B * g.below(4) : g.below(3 * B + 6); if (g.chance(1, 6)) n = g.range(60, 140);
    DB<B> d; Bits m; std::string hist;
    switch (g.below(3)) {
    case 0: d = DB<B>(n); m = Bits(n); hist = "ctor(n)"; break;
    case 1: { uint64_t v = g.chance(1, 4) ? ~0ull : g.next(); d = DB<B>(n, v); m = fromValue(n, v); hist = "ctor(n,v)"; break; }
    default: for (size_t i = 0; i < n; ++i) { bool b = g.coin(); d.push_back(b); m.push_back(b); } hist = "push"; break;
    }
    observe(ctx, d, m, hist);
    uint64_t h = mix(B, n);
    int steps = int(g.range(3, 14));
    for (int s = 0; s < steps; ++s) {
        unsigned op = unsigned(g.below(14)); h = mix(h, op); std::string nm;
        switch (op) {
        case 0: case 1: { bool b = g.coin(); d.push_back(b); m.push_back(b); nm = "push_back"; break; }
        case 2: if (!m.empty()) { size_t k = g.below(m.size()); bool b = g.coin(); d.set(k, b); m[k] = b; nm = "set(k)"; } break;
        case 3: d.set(); for (size_t i = 0; i < m.size(); ++i) m[i] = true; nm = "set()"; break;
        case 4: d.reset(); for (size_t i = 0; i < m.size(); ++i) m[i] = false; nm = "reset()"; break;
        case 5: d.flip(); m.flip(); nm = "flip()"; break;
        case 6: if (!m.empty()) { size_t k = g.below(m.size()); d.flip(k); m[k] = !m[k]; nm = "flip(k)"; } break;
        case 7: if (g.chance(1, 4)) { d.clear(); m.clear(); nm = "clear"; } break;
        case 8: { DB<B> before = d; Bits mb = m; DB<B> e = ~d; Bits me = m; me.flip(); observe(ctx, d, mb, hist + ",~(operand)"); d = e; m = me; nm = "~"; break; }
        case 9: case 10: case 11: {
            Bits o(m.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = g.coin();
            DB<B> od = rebuild<B>(o); bool inplace = g.coin(), self = g.chance(1, 8);
            if (self) { o = m; od = d; }
            DB<B> r = d;
            if (op == 9) { if (inplace) r ^= od; else r = d ^ od; for (size_t i = 0; i < o.size(); ++i) m[i] = m[i] != o[i]; nm = "^"; }
            else if (op == 10) { if (inplace) r &= od; else r = d & od; for (size_t i = 0; i < o.size(); ++i) m[i] = m[i] && o[i]; nm = "&"; }
            else { if (inplace) r |= od; else r = d | od; for (size_t i = 0; i < o.size(); ++i) m[i] = m[i] || o[i]; nm = "|"; }
            observe(ctx, od, o, hist + "," + nm + "(rhs)"); d = r; break;
        }
        case 12: { DB<B> c(d); DB<B> mv(std::move(c)); d = mv; nm = "copy/move"; break; }
        case 13: { bool threw = false; size_t cap = ((m.size() + B - 1) / B) * B + g.below(3) * B; try { (void)d[cap]; } catch (const std::out_of_range&) { threw = true; }
                   ctx.check(threw, "dyn.oob", "index beyond the last block must be refused"); nm = "oob"; break; }
        }
        if (nm.empty()) continue;
        hist += "," + nm; ctx.count("dyn.op." + nm);
        observe(ctx, d, m, hist);
        h = mix(h, low64(m));
    }
    ctx.fp(h); ctx.sample("dynamic_bitset<" + std::to_string(B) + ">: " + hist + " -> " + show(m));
}
VH_PART(dynamic_bitset, 4) {
    switch (ctx.rng.below(9)) {
    case 0: dynCase<1>(ctx); break; case 1: dynCase<3>(ctx); break; case 2: dynCase<4>(ctx); break; case 3: dynCase<8>(ctx); break;
    case 4: dynCase<13>(ctx); break; case 5: dynCase<16>(ctx); break; case 6: dynCase<32>(ctx); break; case 7: dynCase<64>(ctx); break;
    default: dynCase<100>(ctx);
    }
}

template <size_t W> static util::sub_bitset<W> subOf(const Bits& m) { util::sub_bitset<W> s(m.size()); for (size_t i = 0; i < m.size(); ++i) s.set(i, m[i]); return s; }
template <size_t W> static void observeSub(Ctx& ctx, const util::sub_bitset<W>& d, const Bits& m, const std::string& op) {
    std::string where = "sub_bitset<" + std::to_string(W) + "> after " + op + " model=" + show(m).substr(0, 200);
    ctx.eq(d.size(), m.size(), "sub.size", where); if (d.size() != m.size()) return;
    ctx.eq(d.count(), ones(m), "sub.count", where);
    for (size_t i = 0; i < m.size(); ++i) if (bool(d[i]) != m[i]) { ctx.fail("sub.bit", where); break; }
    ctx.eval(m.size());
    auto r = subOf<W>(m);
    ctx.check(d == r && !(d != r), "sub.eq", where);
    if (fits64(m)) ctx.check(d == static_cast<unsigned long>(low64(m)) && !(d != static_cast<unsigned long>(low64(m))), "sub.eq.value", where);
    if (!m.empty()) { Bits m2 = m; size_t k = ctx.rng.below(m.size()); m2[k] = !m2[k]; ctx.check(d != subOf<W>(m2) && !(d == subOf<W>(m2)), "sub.ne", where);
        if (fits64(m2) && k < 64) ctx.check(d != static_cast<unsigned long>(low64(m2)), "sub.ne.value", where); }
    if (m.size() < W) { Bits m3 = m; m3.push_back(false); ctx.check(d != subOf<W>(m3), "sub.ne.longer", where); }
}
template <size_t W> static void subCase(Ctx& ctx) {
    auto& g = ctx.rng; size_t n = g.chance(1, 5) ? W : g.below(W + 1);
    Bits m(n); util::sub_bitset<W> d; std::string hist;
    if (g.coin()) { d = util::sub_bitset<W>(n); hist = "ctor(n)"; }
    else { uint64_t v = g.chance(1, 4) ? ~0ull : g.next(); d = util::sub_bitset<W>(n, v); m = fromValue(n, v); hist = "ctor(n,v)"; }
    observeSub(ctx, d, m, hist);
    uint64_t h = mix(W + 1000, n);
    for (int s = 0, e = int(g.range(3, 12)); s < e; ++s) {
        unsigned op = unsigned(g.below(10)); h = mix(h, op); std::string nm;
        switch (op) {
        case 0: if (n) { size_t k = g.below(n); bool b = g.coin(); d.set(k, b); m[k] = b; nm = "set(k)"; } break;
        case 1: d.set(); for (size_t i = 0; i < n; ++i) m[i] = true; nm = "set()"; break;
        case 2: d.reset(); for (size_t i = 0; i < n; ++i) m[i] = false; nm = "reset()"; break;
        case 3: d.flip(); m.flip(); nm = "flip()"; break;
        case 4: if (n) { size_t k = g.below(n); d.flip(k); m[k] = !m[k]; nm = "flip(k)"; } break;
        case 5: { auto e2 = ~d; observeSub(ctx, d, m, hist + ",~(operand)"); d = e2; m.flip(); nm = "~"; break; }
        case 6: case 7: case 8: {
            Bits o(n); for (size_t i = 0; i < n; ++i) o[i] = g.coin(); auto od = subOf<W>(o); bool in = g.coin(); auto r = d;
            if (op == 6) { if (in) r ^= od; else r = d ^ od; for (size_t i = 0; i < n; ++i) m[i] = m[i] != o[i]; nm = "^"; }
            else if (op == 7) { if (in) r &= od; else r = d & od; for (size_t i = 0; i < n; ++i) m[i] = m[i] && o[i]; nm = "&"; }
            else { if (in) r |= od; else r = d | od; for (size_t i = 0; i < n; ++i) m[i] = m[i] || o[i]; nm = "|"; }
            observeSub(ctx, od, o, hist + "," + nm + "(rhs)"); d = r; break; }
        case 9: { util::sub_bitset<W> c(d), mv(std::move(c)); d = mv; nm = "copy"; break; }
        }
        if (nm.empty()) continue;
        hist += "," + nm; ctx.count("sub.op." + nm); observeSub(ctx, d, m, hist); h = mix(h, low64(m));
    }
    ctx.fp(h);
}
VH_PART(sub_bitset, 2) {
    switch (ctx.rng.below(5)) { case 0: subCase<7>(ctx); break; case 1: subCase<32>(ctx); break; case 2: subCase<64>(ctx); break; case 3: subCase<1>(ctx); break; default: subCase<130>(ctx); }
}

// The transition counts between two bit patterns: bit-by-bit oracle.
template <class T> static void opsInt(Ctx& ctx, const char* nm) {
    auto& g = ctx.rng; T p = T(g.next()), q = T(g.next()); if (g.chance(1, 6)) p = 0; if (g.chance(1, 6)) q = T(~T(0));
    size_t z2o = 0, o2z = 0, pc = 0; for (size_t i = 0; i < sizeof(T) * 8; ++i) { bool a = (p >> i) & 1, b = (q >> i) & 1; z2o += !a && b; o2z += a && !b; pc += a; }
    std::string w = std::string(nm) + " p=" + std::to_string(p) + " q=" + std::to_string(q);
    ctx.eq(util::BinaryOps::popcount(p), pc, "ops.popcount", w);
    ctx.eq(util::BinaryOps::zero_to_ones(p, q), z2o, "ops.z2o", w);
    ctx.eq(util::BinaryOps::one_to_zeroes(p, q), o2z, "ops.o2z", w);
    ctx.eq(util::BinaryOps::bit_changes(p, q), z2o + o2z, "ops.changes", w);
    ctx.fp(mix(p, q));
}
template <size_t N> static void opsBits(Ctx& ctx) {
    auto& g = ctx.rng; std::bitset<N> p, q; for (size_t i = 0; i < N; ++i) { p[i] = g.coin(); q[i] = g.coin(); }
    size_t z2o = 0, o2z = 0; for (size_t i = 0; i < N; ++i) { z2o += !p[i] && q[i]; o2z += p[i] && !q[i]; }
    std::string w = "bitset<" + std::to_string(N) + "> p=" + p.to_string() + " q=" + q.to_string();
    ctx.eq(util::BinaryOps::popcount(p), p.count(), "ops.popcount", w);
    ctx.eq(util::BinaryOps::zero_to_ones(p, q), z2o, "ops.z2o", w);
    ctx.eq(util::BinaryOps::one_to_zeroes(p, q), o2z, "ops.o2z", w);
    ctx.eq(util::BinaryOps::bit_changes(p, q), z2o + o2z, "ops.changes", w);
    std::string s = "["; for (size_t i = N; i-- > 0;) s += p[i] ? '1' : '0'; s += "]";
    ctx.eq(util::to_string(p), s, "ops.to_string", w);
    ctx.fp(hashStr(w));
}
VH_PART(binary_ops, 2) {
    opsInt<uint8_t>(ctx, "u8"); opsInt<uint16_t>(ctx, "u16"); opsInt<uint32_t>(ctx, "u32"); opsInt<uint64_t>(ctx, "u64");
    opsBits<5>(ctx); opsBits<27>(ctx); opsBits<64>(ctx); opsBits<130>(ctx); ctx.count("binary_ops");
}

// Bursts: a single line's stored levels, and whole bus patterns, against a plain list.
template <size_t N> static void lineBursts(Ctx& ctx) {
    auto& g = ctx.rng; using S = util::burst_storage<util::BitsetContainer<N>>; auto st = std::make_unique<S>(); Bits m; uint64_t load = 0; size_t steps = g.range(3, 60); std::string H = "line<" + std::to_string(N) + ">";
    for (size_t k = 0; k < steps; ++k) {
        switch (g.below(10)) {
            case 0: { st->clear(); m.clear(); load = 0; H += " clear"; break; }
            case 1: { std::stringstream ss; st->serialize(ss); st = std::make_unique<S>(); for (size_t i = g.below(4); i--;) st->push_back(1 + i, g.coin()); st->deserialize(ss); ctx.check(ss.peek() == EOF, "line.snapshot-not-consumed", H); H += " restore"; break; }
            case 2: { auto c = std::make_unique<S>(std::as_const(*st)); if (m.size() < N) st->push_back(load, true); st = std::move(c); H += " copy"; break; }
            default: { uint64_t t = load; if (m.size() == N || g.chance(1, 6)) t = load + 1 + (g.chance(1, 8) ? g.next() >> 20 : g.below(50)); for (size_t i = g.chance(1, 3) ? N : g.range(1, N); i--;) { if (t == load && m.size() == N) break; if (t != load) { m.clear(); load = t; } bool b = g.coin(); st->push_back(t, b); m.push_back(b); } H += " push@" + std::to_string(t); }
        }
        std::string w = H + " model=" + show(m); ctx.eq(st->size(), m.size(), "line.size", w); ctx.eq(st->empty(), m.empty(), "line.empty", w); ctx.eq(uint64_t(st->endTime()), load + m.size(), "line.end", w); if (st->size() != m.size()) return;
        for (size_t i = 0; i < m.size(); ++i) if (st->get_burst(i) != m[m.size() - 1 - i]) { ctx.fail("line.burst", w + " " + std::to_string(i)); break; }
        for (int q = 0; q < 3; ++q) {
            size_t a = q ? g.below(m.size() + 1) : 0, b = q ? g.range(a, m.size()) : m.size(), o = 0, z = 0, up = 0, dn = 0; for (size_t i = a; i < b; ++i) { (m[i] ? o : z)++; if (i > a) { up += !m[i - 1] && m[i]; dn += m[i - 1] && !m[i]; } }
            auto r = st->count(load + a, load + b); std::string at = w + " " + std::to_string(a) + ".." + std::to_string(b);
            ctx.eq(uint64_t(r.ones), uint64_t(o), "line.ones", at); ctx.eq(uint64_t(r.zeroes), uint64_t(z), "line.zeroes", at); ctx.eq(uint64_t(r.zeroes_to_ones), uint64_t(up), "line.rising", at); ctx.eq(uint64_t(r.ones_to_zeroes), uint64_t(dn), "line.falling", at); ctx.eq(uint64_t(r.bit_changes), uint64_t(up + dn), "line.changes", at);
        }
        ctx.eval(m.size()); ctx.count("line_bursts"); ctx.fp(mix(low64(m), load));
    }
}
template <size_t N> static void busBursts(Ctx& ctx) {
    auto& g = ctx.rng; using S = util::burst_storage<util::BusContainer<N>>; using B = std::bitset<N>; size_t W = g.coin() ? N : g.range(1, N); auto st = std::make_unique<S>(W); std::vector<B> m; uint64_t load = 0; std::string H = "bus<" + std::to_string(N) + "> width " + std::to_string(W);
    auto rb = [&] { B b; for (size_t i = 0; i < W; ++i) b[i] = g.coin(); return b; };
    for (size_t k = g.range(3, 30); k--;) {
        switch (g.below(8)) {
            case 0: st->clear(); m.clear(); load = 0; H += " clear"; break;
            case 1: { std::stringstream ss; st->serialize(ss); st = std::make_unique<S>(W); for (size_t i = g.below(4); i--;) st->push_back(1 + g.below(9), rb()); st->deserialize(ss); ctx.check(ss.peek() == EOF, "bus.snapshot-not-consumed", H); H += " restore"; break; }
            case 2: { auto c = std::make_unique<S>(std::as_const(*st)); st->push_back(load, rb()); st = std::move(c); H += " copy"; break; }
            case 3: case 4: { uint64_t t = g.coin() ? load : load + 1 + g.below(60); for (size_t i = g.range(1, 20); i--;) { if (t != load) { m.clear(); load = t; } B b = rb(); st->push_back(t, b); m.push_back(b); } H += " push@" + std::to_string(t); break; }
            default: { size_t n = g.below(35), bits = n * W + (n ? 0 : g.below(W)); std::vector<uint8_t> d((bits + 7) / 8 + 1); for (auto& x : d) x = uint8_t(g.next()); d.resize((bits + 7) / 8); auto keep = d; bool inv = g.chance(1, 3); load = g.chance(1, 8) ? g.next() >> 20 : g.below(100);
                util::BurstStorageInsertHelper::insert_data<N>(*st, load, W, d.data(), bits, inv); ctx.check(d == keep, "bus.payload-changed", H); m.assign(n, B{}); for (size_t i = 0; i < n * W; ++i) m[i / W][i % W] = bool((d[i / 8] >> (i % 8)) & 1) != inv; H += " insert " + std::to_string(n) + (inv ? " inverted" : ""); }
        }
        ctx.eq(st->size(), m.size(), "bus.size", H); ctx.eq(st->empty(), m.empty(), "bus.empty", H); ctx.eq(uint64_t(st->endTime()), load + m.size(), "bus.end", H); if (st->size() != m.size()) return;
        for (size_t i = 0; i < m.size(); ++i) if (st->get_burst(i) != m[m.size() - 1 - i]) { ctx.fail("bus.burst", H + " " + std::to_string(i) + " got " + st->get_burst(i).to_string() + " want " + m[m.size() - 1 - i].to_string()); break; }
        ctx.eval(m.size()); ctx.count("bus_bursts"); ctx.fp(mix(m.size(), load));
    }
}
VH_PART(line_bursts, 2) { switch (ctx.rng.below(4)) { case 0: lineBursts<1>(ctx); break; case 1: lineBursts<8>(ctx); break; case 2: lineBursts<64>(ctx); break; default: lineBursts<70>(ctx); } }
VH_PART(bus_bursts, 2) { switch (ctx.rng.below(4)) { case 0: busBursts<1>(ctx); break; case 1: busBursts<16>(ctx); break; case 2: busBursts<64>(ctx); break; default: busBursts<300>(ctx); } }
