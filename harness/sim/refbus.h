// Reference beat-level model of a bus: an explicit timeline of driven beats, evaluated bit by bit.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <sstream>
#include <DRAMPower/util/bus_types.h>
namespace ref {
struct Stats {
    uint64_t ones = 0, zeroes = 0, changes = 0, o2z = 0, z2o = 0;
    Stats& operator+=(const Stats& r) { ones += r.ones; zeroes += r.zeroes; changes += r.changes; o2z += r.o2z; z2o += r.z2o; return *this; }
    Stats times(uint64_t k) const { Stats s = *this; s.ones *= k; s.zeroes *= k; s.changes *= k; s.o2z *= k; s.z2o *= k; return s; }
    bool operator==(const Stats& r) const { return ones == r.ones && zeroes == r.zeroes && changes == r.changes && o2z == r.o2z && z2o == r.z2o; }
};
inline Stats of(const DRAMPower::util::bus_stats_t& s) { Stats r; r.ones = s.ones; r.zeroes = s.zeroes; r.changes = s.bit_changes; r.o2z = s.ones_to_zeroes; r.z2o = s.zeroes_to_ones; return r; }
inline std::string str(const Stats& s) { std::ostringstream o; o << "{1:" << s.ones << " 0:" << s.zeroes << " chg:" << s.changes << " 10:" << s.o2z << " 01:" << s.z2o << "}"; return o.str(); }

using Beat = std::vector<bool>;
// Beats of a burst in the order they are driven: the most significant width-sized group first.
inline std::vector<Beat> beatsOf(const uint8_t* data, size_t nbits, size_t width) {
    size_t n = nbits / width; std::vector<Beat> r(n, Beat(width));
    for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < width; ++j) { size_t p = (n - 1 - k) * width + j; r[k][j] = (data[p / 8] >> (p % 8)) & 1; }
    return r;
}
struct Bus {
    size_t width; uint64_t rate; bool idleHigh;
    struct Burst { uint64_t v; std::vector<Beat> b; };
    struct Period { uint64_t s, e; };
    std::vector<Burst> bursts; std::vector<Period> periods;
    static constexpr uint64_t INF = ~0ull;
    Bus(size_t w, uint64_t r, bool h, bool on = true) : width(w), rate(r), idleHigh(h) { if (on) periods.push_back({0, INF}); }
    bool on() const { return !periods.empty() && periods.back().e == INF; }
    void load(uint64_t t, std::vector<Beat> b) { if (on()) bursts.push_back({t * rate, std::move(b)}); }
    void disable(uint64_t t) { if (on()) periods.back().e = t * rate; }
    void enable(uint64_t t) { if (!on()) periods.push_back({t * rate, INF}); }
    uint64_t endOfLast() const { return bursts.empty() ? 0 : bursts.back().v + bursts.back().b.size(); } // virtual time
    Stats at(uint64_t t) const {
        uint64_t T = t * rate; Stats s; const Beat idle(width, idleHigh); Beat prev;
        auto tr = [&](const Beat& a, const Beat& b) { for (size_t i = 0; i < width; ++i) if (a[i] != b[i]) { ++s.changes; if (b[i]) ++s.z2o; else ++s.o2z; } };
        auto lev = [&](const Beat& a) { for (size_t i = 0; i < width; ++i) if (a[i]) ++s.ones; else ++s.zeroes; };
        auto gap = [&](uint64_t n) { if (!n) return; tr(prev, idle); (idleHigh ? s.ones : s.zeroes) += n * width; prev = idle; };
        size_t bi = 0;
        for (auto& p : periods) {
            uint64_t e = p.e < T ? p.e : T; if (p.s >= e) continue;
            prev = idle; uint64_t cur = p.s;
            while (bi < bursts.size() && bursts[bi].v < p.s) ++bi;
            for (; bi < bursts.size() && bursts[bi].v < e; ++bi) {
                auto& b = bursts[bi]; gap(b.v - cur); cur = b.v;
                for (auto& x : b.b) { if (cur >= e) break; tr(prev, x); lev(x); prev = x; ++cur; }
            }
            if (cur < e) gap(e - cur);
        }
        return s;
    }
};
// A single line: driven beats between idle stretches; a level of -1 is high impedance (neither counted nor toggling).
struct Line {
    int init, idle; struct Burst { uint64_t v; std::vector<int> b; }; std::vector<Burst> bursts;
    Line(int in, int id) : init(in), idle(id) {}
    void push(uint64_t v, int s) { if (bursts.empty() || bursts.back().v != v) bursts.push_back({v, {}}); bursts.back().b.push_back(s); }
    Stats at(uint64_t T) const {
        Stats s; int prev = init; uint64_t cur = 0;
        auto tr = [&](int a, int b) { if (a == 0 && b == 1) { ++s.z2o; ++s.changes; } else if (a == 1 && b == 0) { ++s.o2z; ++s.changes; } };
        auto dur = [&](int l, uint64_t n) { if (l == 1) s.ones += n; else if (l == 0) s.zeroes += n; };
        auto gap = [&](uint64_t n) { if (!n) return; tr(prev, idle); dur(idle, n); prev = idle; };
        for (auto& b : bursts) {
            if (b.v >= T) break;
            gap(b.v - cur); cur = b.v;
            for (int l : b.b) { if (cur >= T) return s; tr(prev, l); dur(l, 1); prev = l; ++cur; }
        }
        if (cur < T) gap(T - cur);
        return s;
    }
};
} // namespace ref
