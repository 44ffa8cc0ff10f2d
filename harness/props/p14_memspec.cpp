// P14: every entry of a memory specification document reaches the parameter of the same meaning.
#include "sim/device.h"
#include <fstream>
#include <filesystem>
#include <sstream>
using namespace sim;
namespace DM = DRAMUtils::MemSpec;
namespace {
struct Cmp {
    vh::Ctx& ctx; const json& d; std::string w; std::string std;
    const json &a = d["memarchitecturespec"], &t = d["memtimingspec"], &m = d["mempowerspec"];
    uint64_t u(const json& j, const char* k) { return j.at(k).get<uint64_t>(); }
    void bad(const char* n, const std::string& got, const std::string& want) { ctx.fail("memspec." + std + "." + n, w + ": parameter " + n + " is " + got + ", the document says " + want); }
    template <class T> void is(const char* n, T got, T want) { ctx.eval(); ctx.count("parameters"); if (!(got == want)) { std::ostringstream x, y; x.precision(17); y.precision(17); x << got; y << want; bad(n, x.str(), y.str()); } }
    void num(const char* n, uint64_t got, uint64_t want) { is<uint64_t>(n, got, want); }
    void T(const char* n, uint64_t got, const char* key) { num(n, got, u(t, key)); }
    void P(const char* n, double got, const std::string& key) { is<double>((std::string(n) + ":" + key).c_str(), got, m.at(key).get<double>()); }
    double opt(const json& j, const char* k, double def) { return j.contains(k) && !j[k].is_null() ? j[k].get<double>() : def; }
    bool bw(const char* k) { return d.contains("bankwisespec") && !d["bankwisespec"].is_null() && d["bankwisespec"].contains(k) && !d["bankwisespec"][k].is_null(); }
    void impedance(const json& got) { ctx.eval(); ctx.count("parameters", got.size()); if (got != d["memimpedancespec"]) bad("impedance", diffJson(got, d["memimpedancespec"]), "the document's impedance entries"); ctx.check(got.size() >= 10, "memspec.impedance-empty", w); }
    template <class M> void base(const M& s, uint64_t B) {
        num("numberOfBanks", s.numberOfBanks, B); num("numberOfRows", s.numberOfRows, u(a, "nbrOfRows")); num("numberOfColumns", s.numberOfColumns, u(a, "nbrOfColumns"));
        num("numberOfDevices", s.numberOfDevices, std::max<uint64_t>(1, u(a, "nbrOfDevices"))); num("burstLength", s.burstLength, u(a, "burstLength")); num("dataRate", s.dataRate, u(a, "dataRate")); num("bitWidth", s.bitWidth, u(a, "width"));
        num("numberOfRanks", s.numberOfRanks, u(a, "nbrOfRanks")); is<std::string>("memoryId", s.memoryId, d["memoryId"].get<std::string>()); is<std::string>("memoryType", s.memoryType, std);
        is<double>("tCK", s.memTimingSpec.tCK, t["tCK"].template get<double>()); T("tRAS", s.memTimingSpec.tRAS, "RAS"); T("tWL", s.memTimingSpec.tWL, "WL"); T("tRL", s.memTimingSpec.tRL, "RL"); T("tWR", s.memTimingSpec.tWR, "WR");
        is<double>("vddq", s.vddq, m["vddq"].template get<double>()); is<double>("factRho", s.bwParams.bwPowerFactRho, bw("factRho") ? d["bankwisespec"]["factRho"].template get<double>() : 1.0); impedance(json(s.memImpedanceSpec));
    }
    template <class D> void ddrDom(const D& p, const std::string& pre, const char* i5) {
        bool vdd = pre == "idd"; P("v", p.vXX, vdd ? "vdd" : "vpp"); P("i0", p.iXX0, pre + "0"); P("i2n", p.iXX2N, pre + "2n"); P("i3n", p.iXX3N, pre + "3n"); P("i4r", p.iXX4R, pre + "4r"); P("i4w", p.iXX4W, pre + "4w"); P("i5", p.iXX5X, i5); P("i6n", p.iXX6N, pre + "6n"); P("i2p", p.iXX2P, pre + "2p"); P("i3p", p.iXX3P, pre + "3p");
        is<double>("iBeta", p.iBeta, opt(m, vdd ? "iBeta_vdd" : "iBeta_vpp", m[pre + "0"].get<double>()));
    }
    template <class D> void lpDom(const D& p, const std::string& s) {
        P("v", p.vDDX, "vdd" + s); P("i0", p.iDD0X, "idd0" + s); P("i2n", p.iDD2NX, "idd2n" + s); P("i3n", p.iDD3NX, "idd3n" + s); P("i2p", p.iDD2PX, "idd2p" + s); P("i3p", p.iDD3PX, "idd3p" + s); P("i4r", p.iDD4RX, "idd4r" + s); P("i4w", p.iDD4WX, "idd4w" + s); P("i5", p.iDD5X, "idd5" + s); P("i6", p.iDD6X, "idd6" + s);
        is<double>("iBeta", p.iBeta, opt(m, ("iBeta_vdd" + s).c_str(), m["idd0" + s].get<double>()));
    }
    void off(uint64_t rd, uint64_t wr, uint64_t wantR, uint64_t wantW) { num("prechargeOffsetRD", rd, wantR); num("prechargeOffsetWR", wr, wantW); }
    int mode() { return a["RefMode"].is_number() ? a["RefMode"].get<int>() : 1; }

    void ddr4(const DP::MemSpecDDR4& s) {
        base(s, u(a, "nbrOfBanks")); num("numberOfBankGroups", s.numberOfBankGroups, u(a, "nbrOfBankGroups")); auto& q = s.memTimingSpec;
        T("tRCD", q.tRCD, "RCD"); T("tRTP", q.tRTP, "RTP"); T("tRP", q.tRP, "RP"); T("tAL", q.tAL, "AL"); uint64_t b = u(a, "burstLength") / u(a, "dataRate"); num("tBurst", q.tBurst, b);
        int rm = mode(); T("tRFC", q.tRFC, rm == 2 ? "RFC2" : rm == 4 ? "RFC4" : "RFC1"); num("refreshMode", s.refreshMode, rm == 2 ? 2 : rm == 4 ? 4 : 1);
        if (!ctx.check(s.memPowerSpec.size() == 2, "memspec.domains", w)) return;
        ddrDom(s.memPowerSpec[0], "idd", rm == 2 ? "idd5F2" : rm == 4 ? "idd5F4" : "idd5B"); ddrDom(s.memPowerSpec[1], "ipp", rm == 2 ? "ipp5F2" : rm == 4 ? "ipp5F4" : "ipp5B");
        auto& pp = s.prePostamble; auto& dp = d["prepostamble"]; struct { const char* k; double v; } e[] = {{"read_zeroes", pp.read_zeroes}, {"write_zeroes", pp.write_zeroes}, {"read_ones", pp.read_ones}, {"write_ones", pp.write_ones}, {"read_zeroes_to_ones", double(pp.read_zeroes_to_ones)}, {"write_zeroes_to_ones", double(pp.write_zeroes_to_ones)}, {"write_ones_to_zeroes", double(pp.write_ones_to_zeroes)}, {"read_ones_to_zeroes", double(pp.read_ones_to_zeroes)}, {"readMinTccd", double(pp.readMinTccd)}, {"writeMinTccd", double(pp.writeMinTccd)}};
        for (auto& x : e) is<double>(x.k, x.v, dp[x.k].get<double>());
        off(s.prechargeOffsetRD, s.prechargeOffsetWR, u(t, "AL") + u(t, "RTP"), b + u(t, "WL") + u(t, "WR"));
    }
    void ddr5(const DP::MemSpecDDR5& s) {
        base(s, u(a, "nbrOfBanks")); uint64_t bg = u(a, "nbrOfBankGroups"); num("numberOfBankGroups", s.numberOfBankGroups, bg); num("banksPerGroup", s.banksPerGroup, u(a, "nbrOfBanks") / bg); auto& q = s.memTimingSpec;
        T("tRCD", q.tRCD, "RCD"); T("tRTP", q.tRTP, "RTP"); T("tRP", q.tRP, "RP"); T("tRFCsb", q.tRFCsb, "RFCsb_slr"); uint64_t b = u(a, "burstLength") / u(a, "dataRate"); num("tBurst", q.tBurst, b);
        bool m2 = mode() == 2; T("tRFC", q.tRFC, m2 ? "RFC2_slr" : "RFC1_slr"); if (!ctx.check(s.memPowerSpec.size() == 2, "memspec.domains", w)) return;
        ddrDom(s.memPowerSpec[0], "idd", m2 ? "idd5f" : "idd5b"); ddrDom(s.memPowerSpec[1], "ipp", m2 ? "ipp5f" : "ipp5b"); P("i5c", s.memPowerSpec[0].iXX5C, "idd5c"); P("i5c", s.memPowerSpec[1].iXX5C, "ipp5c");
        bool has = d.contains("dataratespec") && !d["dataratespec"].is_null(); auto R = [&](const char* k) { return has ? u(d["dataratespec"], k) : 2; };
        num("commandBusRate", s.dataRateSpec.commandBusRate, R("ca_bus_rate")); num("dataBusRate", s.dataRateSpec.dataBusRate, R("dq_bus_rate")); num("dqsBusRate", s.dataRateSpec.dqsBusRate, R("dqs_bus_rate"));
        off(s.prechargeOffsetRD, s.prechargeOffsetWR, u(t, "RTP"), b + u(t, "WL") + u(t, "WR"));
    }
    void lpddr4(const DP::MemSpecLPDDR4& s) {
        uint64_t N = u(a, "nbrOfBanks"); base(s, N); num("numberOfBankGroups", s.numberOfBankGroups, u(a, "nbrOfBankGroups")); num("banksPerGroup", s.banksPerGroup, N / u(a, "nbrOfBankGroups")); auto& q = s.memTimingSpec;
        T("tRCD", q.tRCD, "RCD"); T("tRTP", q.tRTP, "RTP"); T("tRP", q.tRP, "RPpb"); T("tRFC", q.tRFC, "RFCab"); T("tRFCPB", q.tRFCPB, "RFCpb"); T("tREFI", q.tREFI, "REFI"); if (!ctx.check(s.memPowerSpec.size() == 2, "memspec.domains", w)) return;
        for (int i = 0; i < 2; ++i) { std::string x = i ? "2" : "1"; lpDom(s.memPowerSpec[i], x); P("i5pb", s.memPowerSpec[i].iDD5PBX, "idd5pb" + x); }
        uint64_t bl = u(a, "burstLength"); off(s.prechargeOffsetRD, s.prechargeOffsetWR, u(t, "RTP") + (bl == 16 ? 0 : 8), u(t, "WL") + bl / 2 + u(t, "WR") + 1);
        is<double>("factSigma", s.bwParams.bwPowerFactSigma, bw("factSigma") ? d["bankwisespec"]["factSigma"].get<double>() : 1.0); bool pasr = bw("hasPASR") && d["bankwisespec"]["hasPASR"].get<bool>(); is<bool>("hasPASR", s.bwParams.flgPASR, pasr);
        uint64_t pm = 0; if (bw("pasrMode") && d["bankwisespec"]["pasrMode"].is_number() && d["bankwisespec"]["pasrMode"].get<int>() >= 0) pm = d["bankwisespec"]["pasrMode"].get<uint64_t>(); num("pasrMode", s.bwParams.pasrMode, pm);
        // the documented array fractions: full, lower 1/2, 1/4, 1/8 of eight banks, upper 3/4, 1/2, 1/4, 1/8
        struct { uint64_t cut, from; } tab[8] = {{0, 0}, {4, 0}, {6, 0}, {7, 0}, {2, 2}, {4, 4}, {6, 6}, {7, 7}};
        for (uint64_t k = 0; k < N + 3; ++k) { bool want = pasr && k >= tab[pm].from && k < tab[pm].from + N - tab[pm].cut; is<bool>("isBankActiveInPasr", s.bwParams.isBankActiveInPasr(unsigned(k)), want); }
        num("activeBanks", s.bwParams.activeBanks.size(), pasr ? N - tab[pm].cut : 0);
    }
    template <class M> void lp56(const M& s, uint64_t B, uint64_t BG) {
        base(s, B); num("numberOfBankGroups", s.numberOfBankGroups, BG); num("banksPerGroup", s.banksPerGroup, BG ? B / BG : B); auto& q = s.memTimingSpec; uint64_t wck = u(t, "WCK2CK");
        num("WCKtoCK", q.WCKtoCK, wck); is<double>("tWCK", q.tWCK, t["tCK"].template get<double>() / double(wck)); T("tRBTP", q.tRBTP, "RBTP"); T("tRP", q.tRP, "RPpb"); T("tREFI", q.tREFI, "REFI");
        uint64_t b = u(a, "burstLength") / (u(a, "dataRate") * wck); num("tBurst", q.tBurst, b); is<bool>("wckAlwaysOnMode", s.wckAlwaysOnMode, a["WCKalwaysOn"].template get<bool>());
        off(s.prechargeOffsetRD, s.prechargeOffsetWR, b + u(t, "RBTP"), u(t, "WL") + b + 1 + u(t, "WR")); ctx.check(s.memPowerSpec.size() == 3, "memspec.domains", w);
    }
    void lpddr5(const DP::MemSpecLPDDR5& s) {
        uint64_t B = u(a, "nbrOfBanks"), BG = u(a, "nbrOfBankGroups"); auto arch = DP::MemSpecLPDDR5::M16B;
        if (B == 16 && BG == 4) arch = DP::MemSpecLPDDR5::MBG; else if (B == 8 && BG <= 1) arch = DP::MemSpecLPDDR5::M8B; else if (!(B == 16 && BG <= 1)) { B = 16; BG = 1; }
        lp56(s, B, BG); is<int>("bank_arch", s.bank_arch, arch); auto& q = s.memTimingSpec; T("tRCD", q.tRCD, "RCD_S"); T("tRFC", q.tRFC, "RFCab"); T("tRFCPB", q.tRFCPB, "RFCpb"); num("perTwoBankOffset", s.perTwoBankOffset, 8); if (s.memPowerSpec.size() != 3) return;
        const char* x[] = {"1", "2h", "2l"}; for (int i = 0; i < 3; ++i) { lpDom(s.memPowerSpec[i], x[i]); P("i5pb", s.memPowerSpec[i].iDD5PBX, std::string("idd5pb") + x[i]); P("i6ds", s.memPowerSpec[i].iDD6DSX, std::string("idd6ds") + x[i]); }
    }
    void lpddr6(const DP::MemSpecLPDDR6& s) {
        lp56(s, u(a, "nbrOfBanks"), u(a, "nbrOfBankGroups")); auto& q = s.memTimingSpec; T("tRCDR", q.tRCDR, "RCD_r"); T("tRCDW", q.tRCDW, "RCD_w"); T("tRFCAB", q.tRFCAB, "RFCab"); T("tRFCDB", q.tRFCDB, "RFCdb"); if (s.memPowerSpec.size() != 3) return;
        const char* x[] = {"1", "2c", "2d"}; for (int i = 0; i < 3; ++i) { lpDom(s.memPowerSpec[i], x[i]); P("i5pdb", s.memPowerSpec[i].iDD5PDBX, std::string("idd5pdb") + x[i]); P("i6ds", s.memPowerSpec[i].iDD6DSX, std::string("idd6ds") + x[i]); }
    }
};
// builds the parameters the two ways the library offers and checks both, plus a copy and a move
void checkDoc(vh::Ctx& ctx, Std s, const json& d, const std::string& w) {
    auto v = DRAMUtils::parse_memspec_from_json(json{{"memspec", d}}); if (!ctx.check(v.has_value(), "memspec.rejected", w)) return;
    Cmp c{ctx, d, w, stdName(s)};
    auto go = [&](auto doc, auto make, auto cmp) {
        auto p = make(doc); cmp(p); auto q = decltype(p)::from_memspec(*v); cmp(q); auto r = p; cmp(r); auto x = std::move(r); cmp(x);
        json other = d; other["memtimingspec"]["RAS"] = d["memtimingspec"]["RAS"].get<uint64_t>() + 1; auto y = make(other.get<decltype(doc)>()); y = x; cmp(y); ctx.count("specs", 5);
    };
    switch (s) {
        case DDR4: go(d.get<DM::MemSpecDDR4>(), [](const auto& x) { return DP::MemSpecDDR4(x); }, [&](auto& x) { c.ddr4(x); }); break;
        case DDR5: go(d.get<DM::MemSpecDDR5>(), [](const auto& x) { return DP::MemSpecDDR5(x); }, [&](auto& x) { c.ddr5(x); }); break;
        case LPDDR4: go(d.get<DM::MemSpecLPDDR4>(), [](const auto& x) { return DP::MemSpecLPDDR4(x); }, [&](auto& x) { c.lpddr4(x); }); break;
        case LPDDR5: go(d.get<DM::MemSpecLPDDR5>(), [](const auto& x) { return DP::MemSpecLPDDR5(x); }, [&](auto& x) { c.lpddr5(x); }); break;
        default: go(d.get<DM::MemSpecLPDDR6>(), [](const auto& x) { return DP::MemSpecLPDDR6(x); }, [&](auto& x) { c.lpddr6(x); });
    }
}
} // namespace
VH_PART(documents, 12) {
    auto& g = ctx.rng; Std s = Std(ctx.caseIdx % NSTD); json d = randomDoc(g, s); auto &a = d["memarchitecturespec"], &t = d["memtimingspec"]; std::string note;
    // spread the integers further than the simulator workloads need, so that no two entries coincide by chance
    for (auto& [k, v] : t.items()) if (v.is_number_unsigned() || v.is_number_integer()) { if (k != "WCK2CK") v = g.chance(1, 20) ? g.below(3) : g.range(1, 1u << 20); }
    if (g.coin()) a["nbrOfDevices"] = g.below(40); a["nbrOfRanks"] = g.range(1, 9); if (g.coin()) a["width"] = g.range(1, 64);
    if (g.coin()) { a["burstLength"] = g.range(1, 64); a["dataRate"] = g.range(1, 8); if (t.contains("WCK2CK")) t["WCK2CK"] = g.range(1, 8); }
    if (s == DDR5 && d.contains("dataratespec")) for (auto& [k, v] : d["dataratespec"].items()) v = g.range(1, 99);
    if (s == DDR5 && g.chance(1, 6)) d.erase("dataratespec");
    if (s == LPDDR4 && g.chance(3, 4)) {
        json b = json::object(); if (g.chance(3, 4)) b["factRho"] = g.unit(); if (g.chance(3, 4)) b["factSigma"] = g.unit(); if (g.chance(5, 6)) b["hasPASR"] = g.chance(3, 4);
        if (g.chance(5, 6)) { int m = int(g.below(9)) - 1; b["pasrMode"] = m; note = " PASR " + std::to_string(m); } d["bankwisespec"] = b;
    } else if (g.chance(1, 4)) d.erase("bankwisespec"); else if (g.chance(1, 4)) d["bankwisespec"] = json::object();
    if (s == LPDDR5) { static const uint64_t o[][2] = {{16, 4}, {16, 1}, {8, 1}, {16, 0}, {8, 0}, {8, 2}, {16, 2}, {32, 4}, {4, 1}}; auto& x = o[g.below(g.chance(3, 4) ? 5 : 9)]; a["nbrOfBanks"] = x[0]; a["nbrOfBankGroups"] = x[1]; }
    for (auto& [k, v] : d["mempowerspec"].items()) if (g.chance(1, 30) && v.is_number()) v = g.chance(1, 2) ? 0.0 : g.real(0, 1e6);
    std::string w = std::string(stdName(s)) + " document of case " + std::to_string(ctx.caseIdx) + note;
    checkDoc(ctx, s, d, w); ctx.fp(vh::hashStr(d.dump())); ctx.count(std::string("documents_") + stdName(s)); if (ctx.caseIdx < NSTD) ctx.sample(w + " " + d["memtimingspec"].dump());
}
// the documents shipped with the simulator
VH_PART(shipped, 1) {
    namespace fs = std::filesystem; const char* root = std::getenv("VH_REPO"); fs::path dir = fs::path(root ? root : "/repo") / "tests/tests_drampower/resources"; size_t n = 0;
    if (fs::exists(dir)) for (auto& e : fs::directory_iterator(dir)) {
        if (e.path().extension() != ".json") continue; std::ifstream f(e.path()); json j = json::parse(f, nullptr, false, true); if (j.is_discarded() || !j.contains("memspec") || !j["memspec"].contains("memoryType")) continue;
        std::string ty = j["memspec"]["memoryType"]; for (int s = 0; s < NSTD; ++s) if (ty == stdName(s)) { checkDoc(ctx, Std(s), j["memspec"], e.path().filename().string()); ++n; ctx.fp(vh::hashStr(e.path().filename().string())); }
    }
    ctx.count("shipped_documents", n);
}
