// Generator of legal command histories with hostile spacing.
#pragma once
#include "sim/refcore.h"
namespace sim {
struct GenOpt {
    bool coreOnly = false;      // no bus timing to respect, equal time stamps allowed
    bool payload = true;        // reads and writes carry data (only meaningful with an interface)
    bool mixPayload = false;    // some without (toggling mode)
    bool huge = true;           // occasional very long idle times
    bool power = true;          // power-down and self-refresh
    bool reads = true;
    bool seamless = true;
    bool nop = false;           // interface alone: LPDDR6 accepts NOP there (its core does not)
};
struct Gen {
    vh::Rng& g; const Spec& s; GenOpt o; RefCore rc; uint64_t now = 0, cmdFree = 0, rdFree = 0, wrFree = 0; bool first = true; bool noWr = false;
    std::vector<size_t> focus; unsigned calm = 0; uint64_t lastQuery = 0; int mood = 0;
    Gen(vh::Rng& r, const Spec& sp, const GenOpt& op = {}) : g(r), s(sp), o(op), rc(sp) {
        size_t n = g.range(1, std::min<uint64_t>(s.B, g.chance(1, 3) ? s.B : 4)); std::vector<size_t> all(s.B); for (size_t i = 0; i < s.B; ++i) all[i] = i; g.shuffle(all); focus.assign(all.begin(), all.begin() + n);
        mood = int(g.below(4));
    }
    static uint64_t beats(int std, CmdType t) {
        switch (std) {
            case DDR4: return t == CmdType::SREFEX ? 2 : 1;
            case DDR5: switch (t) { case CmdType::ACT: case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: return 2; default: return 1; }
            case LPDDR4: switch (t) { case CmdType::ACT: case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: return 4; case CmdType::PDEA: case CmdType::PDEP: case CmdType::PDXA: case CmdType::PDXP: return 0; default: return 2; }
            case LPDDR5: return t == CmdType::ACT ? 4 : 2;
            default: return t == CmdType::ACT ? 8 : 4;
        }
    }
    uint64_t cmdCycles(CmdType t) const { uint64_t b = beats(s.std, t), r = s.std >= LPDDR5 ? 2 : 1; return (b + r - 1) / r; }
    std::vector<CmdType> types() const {
        std::vector<CmdType> v; auto add = [&](CmdType t, int w) { while (w-- > 0) v.push_back(t); };
        using C = CmdType; int m = mood;
        add(C::ACT, 8); add(C::PRE, m == 1 ? 2 : 4); add(C::PREA, 2);
        if (o.reads) { add(C::RD, m == 2 ? 8 : 4); add(C::WR, m == 2 ? 8 : 4); add(C::RDA, m == 1 ? 5 : 2); add(C::WRA, m == 1 ? 5 : 2); }
        add(C::REFA, 3);
        if (o.power) { add(C::PDEA, m == 3 ? 5 : 2); add(C::PDEP, m == 3 ? 5 : 2); add(C::SREFEN, m == 3 ? 3 : 1); add(C::PDXA, 6); add(C::PDXP, 6); add(C::SREFEX, 5); }
        switch (s.std) {
            case DDR5: add(C::PRESB, 3); add(C::REFSB, 4); add(C::NOP, 1); break;
            case LPDDR4: add(C::REFB, 4); break;
            case LPDDR5: add(C::REFB, 3); if (!s.m8b) add(C::REFP2B, 4); if (o.power) { add(C::DSMEN, 5); add(C::DSMEX, 5); } break;
            case LPDDR6: add(C::REFDB, 4); if (o.nop) add(C::NOP, 1); break;
            default: break;
        }
        return v;
    }
    uint64_t step() {
        uint64_t base = now; auto dl = rc.deadlines(now);
        switch (g.below(12)) {
            case 0: case 1: return base + g.below(2);
            case 2: case 3: case 4: if (!dl.empty()) { uint64_t d = dl[g.below(std::min<size_t>(dl.size(), 3))]; uint64_t x = d + g.below(3); return x ? std::max(base, x - 1) : base; } return base + 1;
            case 5: if (!dl.empty()) { uint64_t d = g.pick(dl); return std::max(base, d + g.below(3) - (d ? 1 : 0)); } return base + g.below(4);
            case 6: return base + g.below(200);
            case 7: if (o.huge && g.chance(1, 15)) return base + (g.coin() ? g.below(200000) : (1ull << 33) + g.below(1000)); return base + g.below(8);
            case 8: if (o.seamless) return std::max(base, g.coin() ? rdFree : wrFree); return base + g.below(5);
            default: return base + g.below(12);
        }
    }
    void payload(Cmd& c, uint64_t len) {
        uint64_t W = s.width * s.devices; c.bits = s.std == LPDDR6 ? (len > 24 ? 512 : 256) : W * len;
        c.data.resize((c.bits + 7) / 8);
        switch (g.below(7)) {
            case 0: { uint8_t v = g.pick({uint8_t(0), uint8_t(0xff), uint8_t(0x55), uint8_t(0xaa), uint8_t(0x0f), uint8_t(0xf0)}); for (auto& b : c.data) b = v; break; }
            case 1: for (auto& b : c.data) b = uint8_t(1u << g.below(8)); break;
            case 2: for (auto& b : c.data) { b = 0; for (int i = 0; i < 4; ++i) b |= uint8_t(1u << ((g.below(8)))); } break;   // around the tie
            case 3: for (auto& b : c.data) b = g.coin() ? 0 : 0xff; break;
            case 4: for (auto& b : c.data) b = uint8_t(~(1u << g.below(8))); break;
            default: for (auto& b : c.data) b = uint8_t(g.next());
        }
    }
    uint64_t burst() { // in beats
        switch (s.std) {
            case DDR4: return s.DR == 4 ? 8 : g.chance(3, 4) ? s.BL : g.pick({4, 8});
            case DDR5: return g.chance(3, 4) ? s.BL : g.pick({8, 16, 32});
            case LPDDR4: return g.chance(3, 4) ? s.BL : g.pick({16, 32});
            case LPDDR5: return g.chance(3, 4) ? s.BL : g.pick({16, 32});
            default: return g.chance(3, 4) ? s.BL : g.pick({24, 48});
        }
    }
    bool isRead(CmdType t) const { return t == CmdType::RD || t == CmdType::RDA; }
    bool isWrite(CmdType t) const { return t == CmdType::WR || t == CmdType::WRA; }
    // next legal command, or nothing if none was found
    bool next(Cmd& out) {
        static thread_local std::vector<CmdType> tl; tl = types();
        for (int round = 0; round < 6; ++round) {
            uint64_t t = round < 4 ? step() : now + g.below(400); t = std::max({t, now, lastQuery});
            if (!o.coreOnly) t = std::max(t, cmdFree);
            for (int i = 0; i < 24; ++i) {
                Cmd c; c.t = t; c.type = tl[g.below(tl.size())]; c.rank = g.below(s.ranks); c.bank = g.chance(5, 6) ? g.pick(focus) : g.below(s.B); c.bg = c.bank / s.perGroup() ;
                if (c.type == CmdType::PRESB || c.type == CmdType::REFSB) c.bank = g.below(s.B);
                c.bank2 = (c.bank + 8) % 16; c.row = g.below(s.rows); c.col = g.below(s.cols); if (g.chance(1, 6)) { c.row = g.pick({uint64_t(0), s.rows - 1}); c.col = g.pick({uint64_t(0), s.cols - 1}); }
                if (!rc.legal(c)) continue;
                if (!o.coreOnly && (isRead(c.type) || isWrite(c.type))) {
                    bool shared = s.std >= LPDDR5; uint64_t& fr = isRead(c.type) ? rdFree : wrFree; uint64_t need = shared ? std::max(rdFree, wrFree) : fr;
                    if (t < need) { if (g.chance(1, 3) && need - t < 1000) { Cmd d = c; d.t = need; if (!rc.legal(d)) continue; c = d; } else continue; }
                    uint64_t len = burst(); bool with = o.payload && (!o.mixPayload || g.coin());
                    if (with) payload(c, len); else len = s.BL;
                    if (with && s.std == LPDDR6) len = c.bits == 512 ? 48 : 24;
                    fr = c.t + (len + s.DR - 1) / s.DR;
                }
                rc.apply(c); now = c.t; cmdFree = c.t + cmdCycles(c.type);
                out = std::move(c); return true;
            }
        }
        return false;
    }
    uint64_t busIdleAt() const { return std::max({now, cmdFree, rdFree, wrFree}); }
    // a time at which a query may be placed
    uint64_t queryTime() {
        uint64_t q; auto dl = rc.deadlines(now);
        switch (g.below(6)) { case 0: q = now; break; case 1: q = now + 1; break; case 2: case 3: q = dl.empty() ? now : g.pick(dl) + g.below(3); if (q > now && q) q -= 1; break; default: q = now + g.below(60); }
        return std::max({q, now, lastQuery});
    }
    void queried(uint64_t q) { lastQuery = q; rc.at(q); }
};
} // namespace sim
