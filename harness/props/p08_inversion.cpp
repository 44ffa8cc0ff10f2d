// P08: data bus inversion drives the cheaper form of every group and reports it on the inversion signal.
#include "props/ifcommon.h"
#include <DRAMPower/util/dbi.h>
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    SessionOpt so; so.toggling = 0; so.dbi = 1; uint64_t inv = 0, kept = 0, ties = 0;
    driveIf(ctx, std, so, [&](Dev& d, RefIf& r, uint64_t q, Session& S) {
        auto st = d.window(q); auto w = r.at(q); std::string at = S.where() + " at " + std::to_string(q), n = std::string(stdName(std)) + ".";
        sameBus(ctx, st.readBus, w.rd, n + "read-bus", at); sameBus(ctx, st.writeBus, w.wr, n + "write-bus", at); sameBus(ctx, st.readDBI, w.rdbi, n + "read-inversion", at); sameBus(ctx, st.writeDBI, w.wdbi, n + "write-inversion", at);
        ctx.check(d.dbi() == r.dbi, (n + "switch-state").c_str(), at); if (r.dbi) ctx.count("queries_with_inversion_on"); inv = r.inverted; kept = r.kept; ties = r.ties;
    });
    ctx.count("groups_inverted", inv); ctx.count("groups_kept", kept); ctx.count("groups_tied", ties);
}
VH_PART(ddr4, 3) { run(ctx, DDR4); }
VH_PART(lpddr4, 3) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 3) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 3) { run(ctx, LPDDR6); }
VH_PART(ddr5_has_none, 1) { run(ctx, DDR5); }
// The inversion unit by itself, for group sizes, element types, idle levels and bus widths beyond those the five simulators use. The inversion
// lines are rebuilt from its reports and compared instant by instant with the groups that have to be inverted.
namespace {
using DP::util::PinState; using DP::timestamp_t;
template <class T> T rndElem(vh::Rng& g, int style) {
    constexpr size_t D = DP::util::types::digit_count_v<T>; T v{}; uint64_t a = g.next(), b = g.next();
    switch (style) { case 0: a &= b; break; case 1: a |= b; break; case 2: a = g.coin() ? 0 : ~0ull; break; case 3: { a = 0; while (size_t(__builtin_popcountll(a)) < D / 2) a |= 1ull << g.below(D); break; } default: break; }
    for (size_t i = 0; i < D && i < 64; ++i) if (a >> i & 1) { if constexpr (std::is_integral_v<T>) v = T(v | T(T(1) << i)); else v.set(i); }
    return v;
}
template <class T> size_t ones(const T& v) { if constexpr (std::is_integral_v<T>) return size_t(__builtin_popcountll(v)); else return v.count(); }
struct Ev { uint64_t load, t; bool on; };
template <class T, size_t SUB, PinState IDLE> void unit(vh::Ctx& ctx) {
    using U = DP::util::DBI<T, SUB, IDLE, DP::util::StaticDBI>; constexpr size_t D = DP::util::types::digit_count_v<T>, C = SUB * D;
    auto& g = ctx.rng; bool absolute = g.chance(1, 4); size_t lanes = g.range(1, 4), width = lanes * C, BL = g.range(1, 16), absChunks = g.range(1, 9); bool on = g.coin();
    std::string w = "element bits " + std::to_string(D) + " x" + std::to_string(SUB) + (absolute ? " absolute" : " lanes " + std::to_string(lanes)) + " idle " + (IDLE == PinState::L ? "L" : IDLE == PinState::H ? "H" : "Z");
    std::map<std::pair<bool, size_t>, std::vector<Ev>> ev; auto sink = [&ev](timestamp_t load, timestamp_t t, size_t c, bool s, bool read) { ev[{read, c}].push_back({load, t, s}); };
    std::optional<size_t> ow; if (!absolute) ow = width; auto u = std::make_unique<U>(ow, BL, sink, on); uint64_t now = 0; std::optional<uint64_t> end[2];
    struct Burst { uint64_t t, end; std::vector<bool> inv; }; std::vector<Burst> h[2]; uint64_t fp = D * 8 + SUB; int steps = int(g.range(2, 25)); uint64_t load = 0; (void)load;
    ctx.check(!u->getLastBurstEnd(true) && !u->getLastBurstEnd(false), "unit.burst-end-before-any", w); ctx.eq(u->getChunksPerWidth().has_value(), !absolute, "unit.chunks-per-width", w); if (!absolute) ctx.eq(*u->getChunksPerWidth(), lanes, "unit.chunks-per-width", w);
    for (int s = 0; s < steps; ++s) {
        switch (g.below(10)) {
        case 0: on = !on; u->enable(on); break;
        case 1: { now += g.below(20); u->dispatchResetCallback(now); break; }
        case 2: { auto v = std::make_unique<U>(*u); u = std::move(v); break; }
        case 3: { std::stringstream ss; u->serialize(ss); auto v = std::make_unique<U>(ow, BL, sink, g.coin()); if constexpr (std::is_integral_v<T>) { if (g.coin()) { std::vector<T> junk(absolute ? SUB * absChunks : lanes * SUB, T(~T(0))); v->setChangeCallback([](timestamp_t, timestamp_t, size_t, bool, bool) {}); v->updateDBI(0, junk.size() * D, junk.data(), g.coin()); v->setChangeCallback(sink); } }
            v->deserialize(ss); ctx.check(bool(ss) && ss.peek() == std::char_traits<char>::eof(), "unit.snapshot-not-consumed-exactly", w); u = std::move(v); ctx.count("unit_restores"); break; }
        case 4: { size_t before = 0, after = 0; for (auto& e : ev) before += e.second.size(); T x{}; bool none = !u->updateDBI(now, 0, &x, true) && !u->updateDBI(now, C, nullptr, false); for (auto& e : ev) after += e.second.size(); ctx.check(none && before == after, "unit.empty-burst-reported", w); break; }
        default: {
            bool rd = g.coin(); uint64_t t = std::max(now, end[rd].value_or(0)) + (g.coin() ? 0 : g.below(6)); now = t; size_t beats = absolute ? 1 : g.range(1, 10), n = absolute ? absChunks : beats * lanes; std::vector<T> data(n * SUB); int style = int(g.below(5)); for (auto& x : data) x = rndElem<T>(g, style);
            std::vector<bool> inv(n, false); std::vector<T> want = data;
            for (size_t c = 0; c < n; ++c) { size_t o = 0; for (size_t k = 0; k < SUB; ++k) o += ones(data[c * SUB + k]); inv[c] = (IDLE == PinState::L && o > C - o) || (IDLE == PinState::H && C - o > o); if (inv[c]) for (size_t k = 0; k < SUB; ++k) want[c * SUB + k] = T(~want[c * SUB + k]); }
            size_t before = 0; for (auto& e : ev) before += e.second.size();
            auto got = u->updateDBI(t, n * C, data.data(), rd);
            if (!on || IDLE == PinState::Z) { size_t after = 0; for (auto& e : ev) after += e.second.size(); ctx.check(!got && before == after, "unit.disabled-inverts", w); ctx.count("unit_disabled"); break; }
            if (!ctx.check(bool(got), "unit.burst-not-inverted", w)) return;
            for (size_t i = 0; i < want.size(); ++i) if (!((*got)[i] == want[i])) { ctx.fail("unit.driven-data", w + " element " + std::to_string(i) + " of " + std::to_string(want.size())); break; }
            auto& st = rd ? u->getInversionStateRead() : u->getInversionStateWrite(); ctx.check(st.size() >= n && std::equal(inv.begin(), inv.end(), st.begin()), "unit.inversion-state", w); ctx.eq(rd ? u->getInversionSizeRead() : u->getInversionSizeWrite(), n * SUB, "unit.inversion-size", w);
            if constexpr (std::is_same_v<T, uint8_t>) { auto [p, sz] = u->getInvertedData(); ctx.eq(sz, n * SUB, "unit.inverted-size", w); ctx.eq(u->getInvertedDataSize(), n * SUB, "unit.inverted-size", w); ctx.check(std::equal(want.begin(), want.end(), p), "unit.inverted-data", w); }
            end[rd] = t + (absolute ? BL : beats); h[rd].push_back({t, *end[rd], inv}); ctx.eq(*u->getLastBurstEnd(rd), *end[rd], "unit.burst-end", w); ctx.count("unit_bursts"); ctx.eval(want.size()); fp = vh::mix(fp, t * 2 + rd); for (auto x : inv) fp = vh::mix(fp, x);
        } }
        ctx.eq(u->isEnabled(), on, "unit.switch", w);
        for (int r = 0; r < 2; ++r) ctx.check(u->getLastBurstEnd(bool(r)) == end[r], "unit.burst-end-of-each-direction", w); // what the other direction carries changes neither
    }
    u->dispatchResetCallback(now + 1000); uint64_t last = 0; for (int r = 0; r < 2; ++r) if (end[r]) last = std::max(last, *end[r]);
    for (int r = 0; r < 2; ++r) for (size_t c = 0; c < (absolute ? absChunks : lanes); ++c) {
        auto& e = ev[{bool(r), c}]; for (size_t i = 1; i < e.size(); ++i) ctx.check(e[i - 1].t <= e[i].t, "unit.reports-out-of-order", w); for (auto& x : e) ctx.check(x.t <= last, "unit.report-after-last-burst", w);
        size_t k = 0; bool lv = false; size_t b = 0;
        for (uint64_t t = 0; t <= last + 1; ++t) {
            while (k < e.size() && e[k].t <= t) lv = e[k++].on;
            while (b < h[r].size() && h[r][b].end <= t) ++b;
            bool want = false; if (b < h[r].size() && h[r][b].t <= t) { auto& x = h[r][b]; if (absolute) want = x.inv[c]; else { size_t beats = x.end - x.t; want = x.inv[(beats - 1 - (t - x.t)) * lanes + c]; } }
            if (lv != want) { ctx.fail("unit.inversion-line", w + (r ? " read" : " write") + " group " + std::to_string(c) + " at " + std::to_string(t) + ": " + std::to_string(lv) + ", data needs " + std::to_string(want)); return; }
        }
        ctx.eval(last);
    }
    for (auto& e : ev) ctx.check(e.first.second < (absolute ? absChunks : lanes), "unit.report-of-missing-group", w);
    ctx.fp(fp);
}
}
VH_PART(unit_bytes, 6) { switch (ctx.rng.below(6)) { case 0: unit<uint8_t, 1, PinState::L>(ctx); break; case 1: unit<uint8_t, 1, PinState::H>(ctx); break; case 2: unit<uint8_t, 2, PinState::L>(ctx); break; case 3: unit<uint8_t, 2, PinState::H>(ctx); break; case 4: unit<uint8_t, 4, PinState::L>(ctx); break; default: unit<uint8_t, 1, PinState::Z>(ctx); } }
VH_PART(unit_words, 6) { switch (ctx.rng.below(5)) { case 0: unit<uint16_t, 1, PinState::L>(ctx); break; case 1: unit<uint16_t, 3, PinState::H>(ctx); break; case 2: unit<uint32_t, 1, PinState::H>(ctx); break; case 3: unit<uint64_t, 2, PinState::L>(ctx); break; default: unit<std::bitset<12>, 1, PinState::L>(ctx); } }
