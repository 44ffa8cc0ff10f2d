// Bit-level reference of the five interfaces: command bus, data buses, strobes, clocks, data bus inversion, toggling mode.
// The command truth tables are transcribed as text (first entry = most significant bit of the first beat).
#pragma once
#include "sim/session.h"
#include "sim/refbus.h"
#include <cmath>
namespace sim {
inline std::vector<std::string> toks(const std::string& s) { std::vector<std::string> v; std::string c; for (char ch : s + " ") { if (ch == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } return v; }
// the truth tables; "Vn" stands for n don't-care bits
inline std::string truth(const Spec& s, CmdType t) {
    using C = CmdType; auto is = [&](std::initializer_list<C> l) { return std::find(l.begin(), l.end(), t) != l.end(); }; bool ap = is({C::RDA, C::WRA}), rd = is({C::RD, C::RDA}), wr = is({C::WR, C::WRA});
    switch (s.std) {
        case DDR4: {
            std::string bg = " BG0 BG1 BA0 BA1 ";
            if (t == C::ACT) return "L L R16 R15 R14" + bg + "V3 R12 R17 R13 R11 R10 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9";
            if (t == C::PRE) return "L H L H L" + bg + "V7 L V V9"; if (t == C::PREA) return "L H L H L V4 V7 H V V9";
            if (is({C::REFA, C::SREFEN})) return "L H L L H V4 V9 V9";
            if (rd || wr) return std::string("L H H L ") + (rd ? "H" : "L") + bg + "V7 " + (ap ? "H" : "L") + " C0 C1 C2 C3 C4 C5 C6 C7 C8 C9";
            if (t == C::SREFEX) return "H X26 L H H H H V22"; if (is({C::PDEA, C::PDEP, C::PDXA, C::PDXP})) return "H X26"; break; }
        case DDR5: {
            std::string ba = " BA0 BA1 ", bg = "BG0 BG1 BG2 ", cid = "CID0 CID1 CID2";
            if (t == C::ACT) return "L L R0 R1 R2 R3" + ba + bg + cid + " R4 R5 R6 R7 R8 R9 R10 R11 R12 R13 R14 R15 R16 CID3";
            if (t == C::PRE) return "H H L H H CID3" + ba + bg + cid; if (t == C::PREA) return "H H L H L CID3 V4 L " + cid; if (t == C::PRESB) return "H H L H L CID3" + ba + "V V H " + cid;
            if (t == C::REFSB) return "H H L L H CID3" + ba + "V V H " + cid; if (t == C::REFA) return "H H L L H CID3 V4 L " + cid;
            if (rd) return "H L H H H H" + ba + bg + cid + " C2 C3 C4 C5 C6 C7 C8 C9 C10 V " + (ap ? "L" : "H") + " V V CID3";
            if (wr) return "H L H H L H" + ba + bg + cid + " V C3 C4 C5 C6 C7 C8 C9 C10 V " + (ap ? "L" : "H") + " H V CID3";
            if (t == C::SREFEN) return "H H H L H V4 H L V3"; if (is({C::PDEA, C::PDEP})) return "H H H L H V5 H L V2"; if (is({C::PDXA, C::PDXP, C::NOP, C::SREFEX})) return "H H H H H V9"; break; }
        case LPDDR4:
            if (t == C::ACT) return "H L R12 R13 R14 R15 BA0 BA1 BA2 R16 R10 R11 R17 R18 R6 R7 R8 R9 R0 R1 R2 R3 R4 R5";
            if (t == C::PRE) return "L L L L H L BA0 BA1 BA2 V3"; if (t == C::PREA) return "L L L L H H V6"; if (t == C::REFB) return "L L L H L L BA0 BA1 BA2 V3"; if (t == C::REFA) return "L L L H L H V6";
            if (rd || wr) return std::string(rd ? "L H L L L BL" : "L L H L L BL") + " BA0 BA1 BA2 V C9 " + (ap ? "H" : "L") + " L H L L H C8 C2 C3 C4 C5 C6 C7";
            if (t == C::SREFEN) return "L L L H H V V6"; if (t == C::SREFEX) return "L L H L H V V6"; return "";
        case LPDDR5: {
            // bank address field: with bank groups the two upper bits carry the group, with eight banks the fourth bit is not driven
            std::string b3 = s.mbg ? " BA0 BA1 BG0 BG1 " : s.m8b ? " BA0 BA1 BA2 V " : " BA0 BA1 BA2 BA3 ", b3r = s.mbg ? b3 : s.m8b ? " BA0 BA1 BA2 L " : b3;
            if (t == C::ACT) return "H H H R14 R15 R16 R17" + b3 + "R11 R12 R13 H H L R7 R8 R9 R10 R0 R1 R2 R3 R4 R5 R6";
            if (t == C::PRE) return "L L L H H H H" + b3 + "V V L"; if (t == C::PREA) return s.mbg ? "L L L H H H H V V BG0 BG1 V V H" : "L L L H H H H V6 H";
            if (is({C::REFB, C::REFP2B})) return s.mbg ? "L L L H H H L BA0 BA1 BG0 V3 L" : "L L L H H H L BA0 BA1 BA2 V3 L"; if (t == C::REFA) return s.mbg ? "L L L H H H L V V BG0 V3 H" : "L L L H H H L V6 H";
            if (rd) return "H L L C0 C3 C4 C5" + b3r + "C1 C2 " + (ap ? "H" : "L"); if (wr) return "L H H C0 C3 C4 C5" + b3 + "C1 C2 " + (ap ? "H" : "L");
            if (t == C::SREFEN) return "L L L H L H H V5 L L"; if (is({C::PDEA, C::PDEP})) return "L L L H L H H V5 L H"; if (t == C::DSMEN) return "L L L H L H H V5 H L";
            if (is({C::SREFEX, C::PDXA, C::PDXP, C::DSMEX})) return "L L L H L H L V7"; break; }
        default: {
            std::string ba = " BA0 BA1 BG0 BG1", a = " X X X X";
            if (t == C::NOP) return "L L L PAR L L L V X8"; if (is({C::PDEA, C::PDEP})) return "L L L PAR L H L V X8"; if (is({C::PDXA, C::PDXP})) return "V X3 V X3 V X3 V X3";
            if (t == C::SREFEN) return "L L L PAR L L H H X8"; if (t == C::SREFEX) return "L L L PAR L H H V X8";
            if (t == C::PRE) return "L L L PAR H H V SC V V V L" + ba; if (t == C::PREA) return "L L L PAR H H V SC V V V H" + a;
            if (t == C::REFDB) return "L L L PAR H L L SC DBG0 DBG1 V L" + ba; if (t == C::REFA) return "L L L PAR H L L SC X X V H" + a;
            if (t == C::ACT) return "H H H PAR H R15 R16 SC R11 R12 R13 R14" + ba + " H H H PAR L R8 R9 R10 R4 R5 R6 R7 R0 R1 R2 R3";
            if (rd || wr) return std::string(wr ? "BL L H" : "BL H L") + " PAR C0 C1 " + (ap ? "H" : "L") + " SC C2 C3 C4 C5" + ba; break; }
    }
    return "";
}
struct Strobe { uint64_t rate; bool on; uint64_t since = 0, half = 0; // half periods completed; a started burst counts in full
    void start(uint64_t t) { if (!on) { on = true; since = t; } }
    void stop(uint64_t t) { if (on) { half += (t - since) * rate / 2; on = false; } }
    void burst(uint64_t cycles) { half += cycles * rate / 2; }
    ref::Stats at(uint64_t t, uint64_t k) const { uint64_t n = half + (on ? (t - since) * rate / 2 : 0); ref::Stats s; s.ones = s.zeroes = s.o2z = s.z2o = n; s.changes = 2 * n; return s.times(k); }
};
struct IfStats { ref::Stats cmd, rd, wr, clk, wck, rdqs, wdqs, rdbi, wdbi; std::vector<std::pair<uint64_t, uint64_t>> seamless; };
struct RefIf {
    const Spec& s; bool tog; DRAMUtils::Config::ToggleRateDefinition def{}; bool idleH; uint64_t W;
    ref::Bus cmd, rd, wr; Strobe clk, wck, rdqs, wdqs; std::map<std::string, int> ov; bool dbi = false, par = false; uint16_t meta[2] = {0, 0}; uint64_t curBL = 0;
    std::vector<ref::Line> rl, wl; std::vector<uint64_t> rEnd, wEnd, rSeam, wSeam;
    struct TB { uint64_t v, n; }; std::vector<TB> tr, tw; uint64_t inverted = 0, kept = 0, ties = 0;
    static size_t caWidth(int st) { static const size_t w[] = {27, 14, 6, 7, 4}; return w[st]; }
    RefIf(const Spec& sp, const DP::config::SimConfig& c) : s(sp), tog(c.toggleRateDefinition.has_value()), idleH(sp.std <= DDR5), W(sp.width * sp.devices),
        cmd(caWidth(sp.std), sp.std >= LPDDR5 ? 2 : 1, sp.std <= DDR5), rd(W, sp.DR, idleH, !tog), wr(W, sp.DR, idleH, !tog), clk{2, true}, wck{sp.std >= LPDDR5 ? sp.DR / sp.wck2ck : 2, sp.std >= LPDDR5 && sp.wckOn},
        rdqs{sp.std == DDR5 ? sp.dqsRate : sp.DR, false}, wdqs{sp.std == DDR5 ? sp.dqsRate : sp.DR, false}, rEnd(sp.ranks, 0), wEnd(sp.ranks, 0), rSeam(sp.ranks, 0), wSeam(sp.ranks, 0) {
        if (tog) def = *c.toggleRateDefinition;
        if (s.std <= DDR5) ov = {{"V", 1}, {"X", 1}}; if (s.std == DDR5) { ov["C0"] = 1; ov["C1"] = 1; }
        if (s.std == DDR4 || s.std == LPDDR4 || s.std == LPDDR5) { rl.assign(W / 8, ref::Line(idleH, idleH)); wl = rl; }
    }
    // --- command bus
    int bit(const std::string& n, const Cmd& c) const {
        if (n == "H") return 1; if (n == "L") return 0;
        if (s.std == LPDDR6) {
            if (n == "BL") return curBL == 24; if (n == "C0" && curBL != 24) return 0; if (n == "SC" || n == "V" || n == "X") return 0;
            if (n == "DBG0" || n == "DBG1") return int((((c.bank + 8) % 16) / s.BG) >> (n == "DBG1")) & 1;
        } else { auto i = ov.find(n); if (i != ov.end()) return i->second; if (n == "V" || n == "X") return 0; if (n == "BL" || n.rfind("CID", 0) == 0) return 1; }
        auto num = [&](size_t k) { return std::stoul(n.substr(k)); };
        if (n.rfind("BA", 0) == 0) return int(c.bank >> num(2)) & 1; if (n.rfind("BG", 0) == 0) return int(c.bg >> num(2)) & 1;
        if (n[0] == 'R') return int(c.row >> num(1)) & 1; if (n[0] == 'C') return int(c.col >> num(1)) & 1;
        return 0;
    }
    std::vector<bool> pattern(const Cmd& c) const {
        std::vector<bool> v; std::vector<size_t> pp;
        for (auto& n : toks(truth(s, c.type))) {
            if (n == "PAR") { pp.push_back(v.size()); v.push_back(false); continue; }
            bool rep = n.size() > 1 && (n[0] == 'V' || n[0] == 'X') && isdigit(n[1]); size_t k = rep ? std::stoul(n.substr(1)) : 1; for (size_t i = 0; i < k; ++i) v.push_back(bit(rep ? n.substr(0, 1) : n, c));
        }
        if (par) for (size_t p : pp) { size_t b = p / 16 * 16; bool x = false; for (size_t i = b; i < b + 16; ++i) if (i != p) x ^= v[i]; v[p] = x; }
        return v;
    }
    void command(const Cmd& c) {
        auto v = pattern(c); size_t w = cmd.width, n = v.size() / w; if (!n) return; std::vector<ref::Beat> b(n, ref::Beat(w));
        for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < w; ++j) b[k][w - 1 - j] = v[k * w + j]; cmd.load(c.t, b);
    }
    // --- data
    bool costly(size_t one, size_t zero) { if (one == zero) ++ties; return idleH ? one < zero : zero < one; }
    // LPDDR6: 24 beats x 12 lines per 256 data bits; lines 4,5,10,11 carry metadata in beats 8-11 and inversion flags in beats 20-23
    std::vector<ref::Beat> beats6(const Cmd& c, std::vector<bool>& flags) {
        std::vector<ref::Beat> out; auto in = [&](size_t i) { return (c.data[i / 8] >> (i % 8)) & 1; };
        size_t nb = c.bits == 512 ? 2 : 1; flags.assign(16 * nb, false);
        if (dbi) for (size_t k = 0; k < 16 * nb; ++k) { size_t o = 0; for (size_t i = 0; i < 16; ++i) o += in(16 * k + i); flags[k] = costly(o, 16 - o); (flags[k] ? inverted : kept)++; }
        for (size_t u = 0; u < nb; ++u) {
            size_t base = 0;
            for (size_t blk = 0; blk < 6; ++blk) {
                bool m = blk == 2, f = blk == 5; size_t n = m || f ? 8 : 12;
                for (size_t b = 0; b < 4; ++b) {
                    ref::Beat x(12); size_t j = 0;
                    for (size_t dq = 0; dq < 12; ++dq) {
                        size_t grp = dq == 4 ? 0 : dq == 5 ? 1 : dq == 10 ? 2 : dq == 11 ? 3 : 9; bool v;
                        if (m && grp < 9) v = (meta[u] >> (grp * 4 + b)) & 1;
                        else if (f && grp < 9) v = flags[16 * u + grp * 4 + b];
                        else { size_t i = 256 * u + base + 4 * j++ + b; v = in(i); if (flags[i / 16]) v = !v; }
                        x[11 - dq] = v;
                    }
                    out.push_back(x);
                }
                base += 4 * n;
            }
        }
        return out;
    }
    void data(const Cmd& c, bool read) {
        uint64_t len = 0; std::vector<bool> fl;
        if (c.bits == 0) { if (tog) { len = s.BL; (read ? tr : tw).push_back({c.t * s.DR, len}); } }
        else if (tog) { len = (s.std == LPDDR6 ? c.bits + 32 * (c.bits / 256) : c.bits) / W; (read ? tr : tw).push_back({c.t * s.DR, len}); }
        else if (s.std == LPDDR6) { auto b = beats6(c, fl); len = b.size(); (read ? rd : wr).load(c.t, b); }
        else {
            len = c.bits / W; auto d = c.data;
            if (dbi) { // per beat and group of eight lines; the first driven beat is the most significant one
                for (size_t k = 0; k < len; ++k) for (size_t p = 0; p < W / 8; ++p) {
                    size_t i = (len - 1 - k) * (W / 8) + p; size_t o = size_t(__builtin_popcount(d[i])); bool inv = costly(o, 8 - o); if (inv) d[i] = uint8_t(~d[i]); (inv ? inverted : kept)++;
                    (read ? rl : wl)[p].push(c.t * s.DR, idleH ? !inv : inv);
                }
            }
            (read ? rd : wr).load(c.t, ref::beatsOf(d.data(), c.bits, W));
        }
        uint64_t cyc = len / s.DR;
        if (s.std >= LPDDR5) { if (read) rdqs.burst(cyc); if (!s.wckOn) wck.burst(cyc); } else (read ? rdqs : wdqs).burst(cyc);
        auto set = [&](const char* n, int v) { ov[n] = v; };
        switch (s.std) {
            case DDR4: { int h = !read; set("C2", len == 4 ? 0 : h); set("C1", h); set("C0", h); auto& e = (read ? rEnd : wEnd)[c.rank]; if (e == c.t) (read ? rSeam : wSeam)[c.rank]++; e = c.t + cyc; break; }
            case DDR5: if (len == 32) set("C10", 0); else ov.erase("C10"); set("C3", read ? 0 : len == 8 ? 0 : 1); set("C2", read ? 0 : 1); break;
            case LPDDR4: set("C0", 0); set("C1", 0); set("C2", 0); set("C3", 0); if (len == 32) set("C4", 0); else ov.erase("C4"); set("BL", len == 32); break;
            case LPDDR5: if (len == 32) set("C0", 0); else ov.erase("C0"); break;
            default: curBL = len;
        }
        command(c);
    }
    void apply(const Op& o) {
        switch (o.k) {
            case Op::CMD: { auto t = o.c.type; using C = CmdType; if (t == C::RD || t == C::RDA) data(o.c, true); else if (t == C::WR || t == C::WRA) data(o.c, false); else if (t != C::END_OF_SIMULATION) command(o.c); break; }
            case Op::DBI: dbi = o.on && !(s.std == DDR4 && s.width == 4); break;
            case Op::META: meta[0] = o.m1; meta[1] = o.m2; break;
            case Op::PARITY: par = o.on; break;
            default: if (o.on) { clk.start(o.t); if (s.wckOn) wck.start(o.t); } else { clk.stop(o.t); if (s.wckOn) wck.stop(o.t); }
        }
    }
    IfStats at(uint64_t t) const {
        IfStats r; r.cmd = cmd.at(t); r.rd = rd.at(t); r.wr = wr.at(t); r.clk = clk.at(t, 2); if (s.std >= LPDDR5) r.wck = wck.at(t, 2);
        uint64_t pairs = s.std <= LPDDR4 && s.width == 16 ? 4 : 2; r.rdqs = rdqs.at(t, pairs); r.wdqs = wdqs.at(t, pairs);
        for (auto& l : rl) r.rdbi += l.at(t * s.DR); for (auto& l : wl) r.wdbi += l.at(t * s.DR);
        if (s.std == DDR4) for (size_t k = 0; k < s.ranks; ++k) r.seamless.push_back({rSeam[k], wSeam[k]});
        return r;
    }
    // toggling mode: beats transferred so far
    uint64_t toggled(bool read, uint64_t t) const { uint64_t n = 0, T = t * s.DR; for (auto& b : read ? tr : tw) n += b.v >= T ? 0 : std::min(b.n, T - b.v); return n; }
};
} // namespace sim
