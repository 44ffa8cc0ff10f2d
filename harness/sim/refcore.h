// Reference timeline of bank and rank states: interval lists per bank and rank, clipped at query time.
#pragma once
#include "sim/spec.h"
#include <DRAMPower/data/stats.h>
namespace sim {
using DRAMPower::CmdType;
constexpr uint64_t INF = ~0ull;
struct Iv { uint64_t s, e; };
struct Cmd { uint64_t t = 0; CmdType type = CmdType::NOP; size_t bank = 0, bg = 0, rank = 0, row = 0, col = 0; size_t bank2 = 0; std::vector<uint8_t> data; size_t bits = 0; };

enum Ev { E_ACT, E_PRE, E_RD, E_WR, E_REFAB, E_REFPB, E_REF2B, E_REFDB, E_REFSB, E_RDA, E_WRA, NEV };
struct RBank {
    std::vector<Iv> act; std::vector<uint64_t> ev[NEV];
    bool open = false; uint64_t lastStart = 0; bool everAct = false, everPre = false; uint64_t lastPre = 0, refEnd = 0;
    uint64_t closeAt = INF, blocked = 0;  // pending auto-precharge; no activation before `blocked`
};
enum class PD { NONE, PDA, PDP, SREF, DSM };
struct RRank { std::vector<RBank> b; std::vector<Iv> pda, pdp, sref, dsm; PD pd = PD::NONE; uint64_t pdSince = 0, freeAt = 0; };
struct CycleSum { uint64_t act = 0, pre = 0, pda = 0, pdp = 0, sref = 0, dsm = 0; };

inline uint64_t measure(const std::vector<Iv>& v, uint64_t T) { uint64_t r = 0; for (auto& i : v) { if (i.s >= T) continue; r += std::min(i.e, T) - i.s; } return r; }
// length of (union of a) minus (union of b), both possibly unsorted, clipped to [0,T)
inline uint64_t measureMinus(const std::vector<Iv>& a, const std::vector<Iv>& b, uint64_t T) {
    std::vector<std::pair<uint64_t, int>> pts;
    for (auto& i : a) if (i.s < T && i.s < i.e) { pts.push_back({i.s, 1}); pts.push_back({std::min(i.e, T), -1}); }
    for (auto& i : b) if (i.s < T && i.s < i.e) { pts.push_back({i.s, 1000000}); pts.push_back({std::min(i.e, T), -1000000}); }
    std::sort(pts.begin(), pts.end());
    uint64_t r = 0, prev = 0; int64_t lvl = 0;
    for (auto& p : pts) { if (lvl > 0 && lvl < 500000) r += p.first - prev; prev = p.first; lvl += p.second; }
    return r;
}

struct RefCore {
    const Spec* sp; std::vector<RRank> r; std::vector<uint64_t> dues; // due times of delayed effects
    uint64_t lastEffect(uint64_t T) const { uint64_t m = 0; for (auto d : dues) if (d <= T) m = std::max(m, d); return m; }
    explicit RefCore(const Spec& s) : sp(&s), r(s.ranks) { for (auto& k : r) k.b.resize(s.B); }

    void close(RBank& b, uint64_t t) { b.open = false; b.act.back().e = t; b.everPre = true; b.lastPre = t; b.ev[E_PRE].push_back(t); b.closeAt = INF; }
    void settle(uint64_t t) { for (auto& k : r) for (auto& b : k.b) if (b.open && b.closeAt <= t) close(b, b.closeAt); }
    uint64_t earliestPD(const RRank& k) const {
        uint64_t e = 0;
        for (auto& b : k.b) { if (b.everAct) e = std::max(e, b.lastStart + sp->tRCD); if (b.everPre) e = std::max(e, b.lastPre + sp->tRP); e = std::max(e, b.refEnd); }
        return e;
    }
    void refresh(RBank& b, uint64_t t, uint64_t len, Ev e) { b.act.push_back({t, t + len}); b.refEnd = t + len; dues.push_back(t + len); b.lastStart = t; b.ev[e].push_back(t); }
    std::vector<size_t> targets(const Cmd& c) const {  // banks a per-bank command addresses
        std::vector<size_t> v; const Spec& s = *sp;
        if (c.type == CmdType::REFSB || c.type == CmdType::PRESB) { for (size_t g = 0; g < s.BG; ++g) v.push_back(g * s.perGroup() + c.bank % s.perGroup()); }
        else if (c.type == CmdType::REFP2B) { v = {c.bank, (c.bank + s.p2b) % 16}; }
        else if (c.type == CmdType::REFDB) v = {c.bank, c.bank2};
        else v = {c.bank};
        return v;
    }
    static bool perBank(CmdType t) { switch (t) { case CmdType::ACT: case CmdType::PRE: case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: case CmdType::REFB: case CmdType::REFSB: case CmdType::PRESB: case CmdType::REFP2B: case CmdType::REFDB: return true; default: return false; } }
    void apply(const Cmd& c) {
        settle(c.t); const Spec& s = *sp; auto& k = r[std::min<size_t>(c.rank, r.size() - 1)]; uint64_t t = c.t;
        switch (c.type) {
            case CmdType::ACT: { auto& b = k.b[c.bank]; b.open = true; b.act.push_back({t, INF}); b.lastStart = t; b.everAct = true; b.ev[E_ACT].push_back(t); break; }
            case CmdType::PRE: case CmdType::PRESB: for (auto i : targets(c)) if (k.b[i].open) { auto& b = k.b[i]; if (b.closeAt != INF) b.blocked = std::max(b.blocked, b.closeAt); close(b, t); } break;
            case CmdType::PREA: for (auto& b : k.b) if (b.open) { if (b.closeAt != INF) b.blocked = std::max(b.blocked, b.closeAt); close(b, t); } break;
            case CmdType::RD: k.b[c.bank].ev[E_RD].push_back(t); break;
            case CmdType::WR: k.b[c.bank].ev[E_WR].push_back(t); break;
            case CmdType::RDA: { auto& b = k.b[c.bank]; b.ev[E_RDA].push_back(t); b.closeAt = std::max(b.lastStart + s.tRAS, t + s.offRD); dues.push_back(b.closeAt); break; }
            case CmdType::WRA: { auto& b = k.b[c.bank]; b.ev[E_WRA].push_back(t); b.closeAt = std::max(b.lastStart + s.tRAS, t + s.offWR); dues.push_back(b.closeAt); break; }
            case CmdType::REFA: for (auto& b : k.b) refresh(b, t, s.tRFC, E_REFAB); break;
            case CmdType::REFB: refresh(k.b[c.bank], t, s.tRFCx, E_REFPB); break;
            case CmdType::REFSB: for (auto i : targets(c)) refresh(k.b[i], t, s.tRFCx, E_REFSB); break;
            case CmdType::REFP2B: for (auto i : targets(c)) refresh(k.b[i], t, s.tRFCx, E_REF2B); break;
            case CmdType::REFDB: for (auto i : targets(c)) refresh(k.b[i], t, s.tRFCx, E_REFDB); break;
            case CmdType::SREFEN: for (auto& b : k.b) refresh(b, t, s.tRFC, E_REFAB); k.sref.push_back({t + s.tRFC, INF}); dues.push_back(t + s.tRFC); k.pd = PD::SREF; k.pdSince = t + s.tRFC; break;
            case CmdType::SREFEX: k.sref.back().e = t; k.pd = PD::NONE; k.freeAt = t; break;
            case CmdType::DSMEN: k.dsm.push_back({t, INF}); k.pd = PD::DSM; break;
            case CmdType::DSMEX: k.dsm.back().e = t; k.pd = PD::SREF; break;
            case CmdType::PDEA: case CmdType::PDEP: { uint64_t e = std::max(t, earliestPD(k)); dues.push_back(e); bool a = c.type == CmdType::PDEA; (a ? k.pda : k.pdp).push_back({e, INF}); k.pd = a ? PD::PDA : PD::PDP; k.pdSince = e; break; }
            case CmdType::PDXA: case CmdType::PDXP: {
                uint64_t e = std::max(t, earliestPD(k)); dues.push_back(e); bool a = c.type == CmdType::PDXA; (a ? k.pda : k.pdp).back().e = e; k.pd = PD::NONE; k.freeAt = e;
                if (a) for (auto& b : k.b) if (b.open) b.lastStart = e;
                break; }
            default: break;
        }
    }
    uint64_t count(const RBank& b, Ev e, uint64_t T) const { uint64_t n = 0; for (auto x : b.ev[e]) if (x <= T) ++n; return n; }
    // implicit closing that lies at or before T but was not applied yet
    void at(uint64_t T) { settle(T); }
    CycleSum bankAt(size_t rk, size_t bk, uint64_t T) const {
        CycleSum c; auto& k = r[rk]; c.act = measureMinus(k.b[bk].act, k.pda, T); fill(c, k, T); return c;
    }
    CycleSum rankAt(size_t rk, uint64_t T) const {
        CycleSum c; auto& k = r[rk]; std::vector<Iv> u; for (auto& b : k.b) u.insert(u.end(), b.act.begin(), b.act.end());
        c.act = measureMinus(u, k.pda, T); fill(c, k, T); return c;
    }
    void fill(CycleSum& c, const RRank& k, uint64_t T) const {
        c.pda = measure(k.pda, T); c.pdp = measure(k.pdp, T); c.dsm = measure(k.dsm, T); c.sref = measure(k.sref, T) - c.dsm;
        c.pre = T - c.act - c.pda - c.pdp - c.sref - c.dsm;
    }

    // --- legality -------------------------------------------------------------------------------------------
    static bool isOpen(const RBank& b, uint64_t t) { return b.open && b.closeAt > t; }
    bool allClosed(const RRank& k, uint64_t t) const { for (auto& b : k.b) if (isOpen(b, t) || b.refEnd > t || b.blocked > t) return false; return true; }
    bool idle(const RBank& b, uint64_t t) const { return !isOpen(b, t) && b.refEnd <= t && b.blocked <= t; }
    bool legal(const Cmd& c) const {
        const Spec& s = *sp; uint64_t t = c.t; if (c.type == CmdType::END_OF_SIMULATION || c.type == CmdType::NOP) return true;
        auto& k = r[c.rank];
        if (c.type == CmdType::SREFEX) return k.pd == PD::SREF && t >= k.pdSince;
        if (c.type == CmdType::DSMEN) return s.std == LPDDR5 && k.pd == PD::SREF && t >= k.pdSince;
        if (c.type == CmdType::DSMEX) return k.pd == PD::DSM;
        if (c.type == CmdType::PDXA) return k.pd == PD::PDA && (s.std != DDR4 || t >= k.pdSince);
        if (c.type == CmdType::PDXP) return k.pd == PD::PDP;
        if (k.pd != PD::NONE || t < k.freeAt) return false;
        auto tg = perBank(c.type) ? targets(c) : std::vector<size_t>{};
        switch (c.type) {
            case CmdType::ACT: return idle(k.b[c.bank], t);
            case CmdType::PRE: case CmdType::PRESB: for (auto i : tg) if (k.b[i].refEnd > t || (isOpen(k.b[i], t) && k.b[i].closeAt != INF)) return false; return true;
            case CmdType::PREA: for (auto& b : k.b) if (b.refEnd > t) return false; return true;
            case CmdType::RD: case CmdType::RDA: case CmdType::WR: case CmdType::WRA: return isOpen(k.b[c.bank], t) && k.b[c.bank].closeAt == INF;
            case CmdType::REFA: case CmdType::SREFEN: return allClosed(k, t);
            case CmdType::REFB: case CmdType::REFSB: case CmdType::REFP2B: case CmdType::REFDB: {
                std::set<size_t> u(tg.begin(), tg.end()); if (u.size() != tg.size()) return false;
                for (auto i : tg) if (i >= k.b.size() || !idle(k.b[i], t)) return false; return true; }
            case CmdType::PDEA: { bool any = false; for (auto& b : k.b) { if (isOpen(b, t)) { any = true; if (b.closeAt != INF) return false; } if (b.blocked > t) return false; } return any; }
            case CmdType::PDEP: for (auto& b : k.b) if (isOpen(b, t) || b.blocked > t) return false; return true;
            default: return false;
        }
    }
    // times at which something changes by itself (for hostile spacing)
    std::vector<uint64_t> deadlines(uint64_t now) const {
        std::vector<uint64_t> v;
        for (auto& k : r) {
            v.push_back(k.freeAt); v.push_back(k.pdSince);
            for (auto& b : k.b) { v.push_back(b.refEnd); v.push_back(b.blocked); if (b.closeAt != INF) v.push_back(b.closeAt); if (b.everAct) { v.push_back(b.lastStart + sp->tRCD); v.push_back(b.lastStart + sp->tRAS); } if (b.everPre) v.push_back(b.lastPre + sp->tRP); }
        }
        v.erase(std::remove_if(v.begin(), v.end(), [&](uint64_t x) { return x < now; }), v.end());
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
    }
};
} // namespace sim
