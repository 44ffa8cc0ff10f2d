// Random memory specification documents and an independent reading of them.
#pragma once
#include "common/vh.h"
#include <DRAMUtils/memspec/MemSpec.h>
#include <DRAMUtils/util/json.h>
#include <DRAMPower/command/CmdType.h>
#include <set>
#include <optional>
namespace sim {
using nlohmann::json;
enum Std { DDR4, DDR5, LPDDR4, LPDDR5, LPDDR6, NSTD };
inline const char* stdName(int s) { static const char* n[] = {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"}; return n[s]; }
inline bool isLP(int s) { return s >= LPDDR4; }

struct Dom { double v, i0, i2n, i3n, i4r, i4w, i5, i5x, i6, i6ds, i2p, i3p, ibeta; };
struct Spec {
    Std std; json doc;                       // the document the simulator is built from ("memspec" content)
    uint64_t B, BG, rows, cols, ranks, devices, BL, DR, width;
    bool m8b = false, mbg = false, m16b = false; // LPDDR5 bank architecture
    double tCK, tWCK; uint64_t wck2ck = 1; bool wckOn = false;
    uint64_t tRAS, tRCD, tRP, tRFC, tRFCx = 0, tREFI = 0, offRD, offWR, tBurst = 0, p2b = 0;
    double vddq, rho; std::vector<Dom> dom;
    uint64_t caRate = 1, dqsRate = 2;
    const json& imp() const { return doc["memimpedancespec"]; }
    uint64_t groups() const { return BG ? BG : 1; }
    uint64_t perGroup() const { return B / groups(); }
};

template <class T> json blank() { return json(T{}); }
inline json blankDoc(Std s) {
    json j;
    switch (s) {
        case DDR4: j = blank<DRAMUtils::MemSpec::MemSpecDDR4>(); break;
        case DDR5: j = blank<DRAMUtils::MemSpec::MemSpecDDR5>(); break;
        case LPDDR4: j = blank<DRAMUtils::MemSpec::MemSpecLPDDR4>(); break;
        case LPDDR5: j = blank<DRAMUtils::MemSpec::MemSpecLPDDR5>(); break;
        default: j = blank<DRAMUtils::MemSpec::MemSpecLPDDR6>(); break;
    }
    j["memoryType"] = stdName(s);
    return j;
}

// Reads the document the way the specification documents define it (written from the documentation, not from MemSpec*.cpp).
inline Spec readSpec(Std s, const json& doc) {
    Spec p; p.std = s; p.doc = doc;
    const json &a = doc["memarchitecturespec"], &t = doc["memtimingspec"], &m = doc["mempowerspec"];
    auto U = [](const json& j, const char* k) { return j.at(k).get<uint64_t>(); };
    auto D = [](const json& j, const std::string& k) { return j.at(k).get<double>(); };
    p.B = U(a, "nbrOfBanks"); p.BG = U(a, "nbrOfBankGroups"); p.rows = U(a, "nbrOfRows"); p.cols = U(a, "nbrOfColumns");
    p.ranks = U(a, "nbrOfRanks"); p.devices = std::max<uint64_t>(1, U(a, "nbrOfDevices"));
    p.BL = U(a, "burstLength"); p.DR = U(a, "dataRate"); p.width = U(a, "width");
    p.tCK = D(t, "tCK"); p.tWCK = p.tCK; p.vddq = D(m, "vddq");
    p.rho = 1; if (doc.contains("bankwisespec") && doc["bankwisespec"].contains("factRho")) p.rho = D(doc["bankwisespec"], "factRho");
    p.tRAS = U(t, "RAS");
    auto dom = [&](std::initializer_list<const char*> k, const char* beta) { // v,0,2n,3n,4r,4w,5,5x,6,6ds,2p,3p
        Dom d; double* f[] = {&d.v, &d.i0, &d.i2n, &d.i3n, &d.i4r, &d.i4w, &d.i5, &d.i5x, &d.i6, &d.i6ds, &d.i2p, &d.i3p}; int i = 0;
        for (auto n : k) *f[i++] = *n ? D(m, n) : 0.0;
        d.ibeta = m.contains(beta) && !m[beta].is_null() ? D(m, beta) : d.i0;
        p.dom.push_back(d);
    };
    p.dqsRate = p.DR;
    switch (s) {
        case DDR4: {
            p.tRCD = U(t, "RCD"); p.tRP = U(t, "RP"); int rm = a["RefMode"].is_number() ? a["RefMode"].get<int>() : 1;
            const char* f[3][3] = {{"RFC1", "idd5B", "ipp5B"}, {"RFC2", "idd5F2", "ipp5F2"}, {"RFC4", "idd5F4", "ipp5F4"}};
            auto& r = f[rm == 2 ? 1 : rm == 4 ? 2 : 0]; p.tRFC = U(t, r[0]);
            p.tBurst = p.BL / p.DR; p.offRD = U(t, "AL") + U(t, "RTP"); p.offWR = p.tBurst + U(t, "WL") + U(t, "WR");
            dom({"vdd", "idd0", "idd2n", "idd3n", "idd4r", "idd4w", r[1], "", "idd6n", "", "idd2p", "idd3p"}, "iBeta_vdd");
            dom({"vpp", "ipp0", "ipp2n", "ipp3n", "ipp4r", "ipp4w", r[2], "", "ipp6n", "", "ipp2p", "ipp3p"}, "iBeta_vpp");
            break; }
        case DDR5: {
            p.tRCD = U(t, "RCD"); p.tRP = U(t, "RP"); bool m2 = a["RefMode"].is_number() && a["RefMode"].get<int>() == 2;
            p.tRFC = U(t, m2 ? "RFC2_slr" : "RFC1_slr"); p.tRFCx = U(t, "RFCsb_slr");
            p.tBurst = p.BL / p.DR; p.offRD = U(t, "RTP"); p.offWR = p.tBurst + U(t, "WL") + U(t, "WR");
            dom({"vdd", "idd0", "idd2n", "idd3n", "idd4r", "idd4w", m2 ? "idd5f" : "idd5b", "idd5c", "idd6n", "", "idd2p", "idd3p"}, "iBeta_vdd");
            dom({"vpp", "ipp0", "ipp2n", "ipp3n", "ipp4r", "ipp4w", m2 ? "ipp5f" : "ipp5b", "ipp5c", "ipp6n", "", "ipp2p", "ipp3p"}, "iBeta_vpp");
            p.dqsRate = 2;
            if (doc.contains("dataratespec") && !doc["dataratespec"].is_null()) p.dqsRate = U(doc["dataratespec"], "dqs_bus_rate");
            break; }
        case LPDDR4:
            p.tRCD = U(t, "RCD"); p.tRP = U(t, "RPpb"); p.tRFC = U(t, "RFCab"); p.tRFCx = U(t, "RFCpb"); p.tREFI = U(t, "REFI");
            p.offRD = U(t, "RTP") + (p.BL == 16 ? 0 : 8); p.offWR = U(t, "WL") + p.BL / 2 + U(t, "WR") + 1;
            dom({"vdd1", "idd01", "idd2n1", "idd3n1", "idd4r1", "idd4w1", "idd51", "idd5pb1", "idd61", "", "idd2p1", "idd3p1"}, "iBeta_vdd1");
            dom({"vdd2", "idd02", "idd2n2", "idd3n2", "idd4r2", "idd4w2", "idd52", "idd5pb2", "idd62", "", "idd2p2", "idd3p2"}, "iBeta_vdd2");
            break;
        case LPDDR5: case LPDDR6: {
            bool l5 = s == LPDDR5;
            p.tRCD = l5 ? U(t, "RCD_S") : std::max(U(t, "RCD_r"), U(t, "RCD_w")); p.tRP = U(t, "RPpb"); p.tRFC = U(t, "RFCab");
            p.tRFCx = U(t, l5 ? "RFCpb" : "RFCdb"); p.tREFI = U(t, "REFI"); p.wck2ck = U(t, "WCK2CK"); p.tWCK = p.tCK / p.wck2ck;
            p.wckOn = a["WCKalwaysOn"].get<bool>(); p.tBurst = p.BL / (p.DR * p.wck2ck);
            p.offRD = p.tBurst + U(t, "RBTP"); p.offWR = U(t, "WL") + p.tBurst + 1 + U(t, "WR");
            if (l5) {
                p.p2b = 8; // the simulator always pairs banks eight apart and does not read the document entry
                if (p.B == 16 && p.BG == 4) p.mbg = true;
                else if (p.B == 8 && p.BG <= 1) p.m8b = true;
                else { if (!(p.B == 16 && p.BG <= 1)) { p.B = 16; p.BG = 1; } p.m16b = true; }
            }
            std::vector<const char*> sfx = l5 ? std::vector<const char*>{"1", "2h", "2l"} : std::vector<const char*>{"1", "2c", "2d"};
            for (auto x : sfx) {
                std::vector<std::string> n; for (auto b : {"vdd", "idd0", "idd2n", "idd3n", "idd4r", "idd4w", "idd5", l5 ? "idd5pb" : "idd5pdb", "idd6", "idd6ds", "idd2p", "idd3p"}) n.push_back(std::string(b) + x);
                std::string be = std::string("iBeta_vdd") + x;
                dom({n[0].c_str(), n[1].c_str(), n[2].c_str(), n[3].c_str(), n[4].c_str(), n[5].c_str(), n[6].c_str(), n[7].c_str(), n[8].c_str(), n[9].c_str(), n[10].c_str(), n[11].c_str()}, be.c_str());
            }
            break; }
        default: break;
    }
    return p;
}

struct SpecOpt { bool busLegal = true; bool small = false; int maxRanks = 4; bool optionals = true; };

// A random, legal specification document: every number is drawn independently so that no two entries are equal by construction.
inline json randomDoc(vh::Rng& g, Std s, const SpecOpt& o = {}) {
    json d = blankDoc(s);
    d["memoryId"] = "vh" + std::to_string(g.below(1000000));
    for (auto& [k, v] : d["mempowerspec"].items()) v = (k[0] == 'v') ? g.real(0.4, 2.5) : g.real(1.0, 400.0) * 1e-3 * (g.chance(1, 12) ? 1000 : 1);
    bool slow = g.chance(1, 3);
    for (auto& [k, v] : d["memtimingspec"].items()) v = g.range(1, slow ? 60 : 25);
    auto& t = d["memtimingspec"]; auto& a = d["memarchitecturespec"];
    t["tCK"] = g.chance(1, 4) ? 1e-9 : g.real(0.2e-9, 3e-9);
    for (auto& [k, v] : d["memimpedancespec"].items()) { if (v.is_boolean()) v = g.chance(3, 4); else v = k.find("_R_eq") != std::string::npos ? g.real(10, 300) : g.real(0, 5e-12); }
    uint64_t rcd = 1; for (auto k : {"RCD", "RCD_S", "RCD_L", "RCD_r", "RCD_w"}) if (t.contains(k)) rcd = std::max<uint64_t>(rcd, t[k].get<uint64_t>());
    // refresh takes at least as long as an activation; the refresh interval leaves room for eight per-bank refreshes
    for (auto& [k, v] : t.items()) if (k.rfind("RFC", 0) == 0) v = rcd + g.range(0, slow ? 90 : 40);
    uint64_t rfc = 0; for (auto& [k, v] : t.items()) if (k.rfind("RFC", 0) == 0) rfc = std::max<uint64_t>(rfc, v.get<uint64_t>());
    if (t.contains("REFI")) t["REFI"] = 8 * (rfc + g.range(1, 200)) + g.below(8);
    a["nbrOfRows"] = g.chance(1, 6) ? 3ull << g.range(8, 18) : 1ull << g.range(10, 20); // 24 Gb parts have three quarters of the rows
    a["nbrOfColumns"] = 1ull << g.range(6, 13);
    a["nbrOfRanks"] = g.chance(1, 2) ? 1 : g.range(1, o.maxRanks); a["nbrOfDevices"] = g.pick({1, 1, 1, 2, 3, 4, 8});
    a["nbrOfChannels"] = g.range(1, 2); a["dataRate"] = 2; a["burstLength"] = 8; a["width"] = 8; a["maxBurstLength"] = 16;
    uint64_t b = 8, bg = 1;
    switch (s) {
        case DDR4: b = g.pick({4, 8, 16, 16}); bg = g.pick({1, 2, 4}); a["width"] = g.pick({4, 8, 16}); a["burstLength"] = g.pick({8, 8, 4}); a["RefMode"] = g.pick({1, 2, 4, -1});
            a["dataRate"] = g.pick({2, 2, 2, 1, 4});
            for (auto& [k, v] : d["prepostamble"].items()) { if (v.is_number_float()) v = g.real(0, 4); else v = g.range(0, 9); }
            for (auto k : {"read_zeroes_to_ones", "write_zeroes_to_ones", "read_ones_to_zeroes", "write_ones_to_zeroes"}) d["prepostamble"][k] = double(g.range(0, 9));
            break;
        case DDR5: b = g.pick({8, 16, 32, 32}); bg = g.pick({1, 2, 4, 8}); a["width"] = g.pick({4, 8, 16}); a["burstLength"] = g.pick({8, 16, 16, 32}); a["RefMode"] = g.pick({1, 2, -1});
            a["cmdMode"] = 1; a["nbrOfDIMMRanks"] = 1; a["nbrOfPhysicalRanks"] = 1; a["nbrOfLogicalRanks"] = 1; a["RAAIMT"] = 32; a["RAAMMT"] = 96; a["RAADEC"] = 16;
            if (g.coin()) d["dataratespec"] = {{"ca_bus_rate", g.pick({1, 2})}, {"dq_bus_rate", 2}, {"dqs_bus_rate", g.pick({2, 2, 4})}};
            break;
        case LPDDR4: b = g.pick({8, 8, 16}); bg = g.pick({1, 1, 2}); a["width"] = g.pick({8, 16, 16}); a["burstLength"] = g.pick({16, 16, 32}); break;
        case LPDDR5: { auto m = g.below(3); b = m == 0 ? 8 : 16; bg = m == 1 ? 4 : 1; a["width"] = g.pick({8, 16, 16}); a["burstLength"] = g.pick({16, 32}); { uint64_t w = g.pick({2, 4}); t["WCK2CK"] = w; a["dataRate"] = w * g.pick({1, 1, 2}); }
            a["per2BankOffset"] = g.pick({8, 8, 4, 1}); a["WCKalwaysOn"] = g.coin(); break; }
        default: b = 16; bg = 4; a["width"] = 12; a["burstLength"] = g.pick({24, 24, 48}); { uint64_t w = g.pick({2, 4}); t["WCK2CK"] = w; a["dataRate"] = w * g.pick({1, 1, 2}); } a["per2BankOffset"] = 8; a["WCKalwaysOn"] = g.coin(); a["nbrOfDevices"] = 1; break;
    }
    if ((s == DDR4 || s == DDR5) && g.chance(1, 12)) { bg = g.pick({1, 2, 3, 5}); b = bg * g.pick({3, 5, 6}); } // nothing requires powers of two
    a["nbrOfBanks"] = b; a["nbrOfBankGroups"] = bg;
    if (o.optionals) {
        auto& m = d["mempowerspec"];
        std::vector<const char*> betas = s <= DDR5 ? std::vector<const char*>{"iBeta_vdd", "iBeta_vpp"} : s == LPDDR4 ? std::vector<const char*>{"iBeta_vdd1", "iBeta_vdd2"}
            : s == LPDDR5 ? std::vector<const char*>{"iBeta_vdd1", "iBeta_vdd2h", "iBeta_vdd2l"} : std::vector<const char*>{"iBeta_vdd1", "iBeta_vdd2c", "iBeta_vdd2d"};
        for (auto k : betas) if (g.coin()) m[k] = g.real(1e-3, 0.4);
        if (g.coin()) { d["bankwisespec"] = json::object(); if (g.chance(3, 4)) d["bankwisespec"]["factRho"] = g.unit(); }
    }
    return d;
}
inline Spec randomSpec(vh::Rng& g, Std s, const SpecOpt& o = {}) { return readSpec(s, randomDoc(g, s, o)); }
inline std::string describe(const Spec& p) {
    std::ostringstream o; o << stdName(p.std) << " B" << p.B << " BG" << p.BG << " R" << p.ranks << " D" << p.devices << " w" << p.width << " BL" << p.BL << " DR" << p.DR
        << " RAS" << p.tRAS << " RCD" << p.tRCD << " RP" << p.tRP << " RFC" << p.tRFC << "/" << p.tRFCx << " off" << p.offRD << "/" << p.offWR << " wck" << p.wck2ck << (p.wckOn ? "on" : ""); return o.str();
}
} // namespace sim
