// Comparison of reported core activity with the independent timeline.
#pragma once
#include "sim/device.h"
#include "sim/gen.h"
#include "sim/session.h"
namespace sim {
inline void compareTimeline(vh::Ctx& ctx, RefCore& rc, const SimulationStats& st, uint64_t T, const std::string& where) {
    const Spec& s = *rc.sp;
    if (!ctx.eq(st.bank.size(), size_t(s.ranks * s.B), "bank-count", where) || !ctx.eq(st.rank_total.size(), size_t(s.ranks), "rank-count", where)) return;
    auto cyc = [&](const DP::cycles_t& g, const CycleSum& w, const std::string& at, const std::string& pre) {
        auto one = [&](uint64_t a, uint64_t b, const char* n) { ctx.eq(a, b, (pre + n).c_str(), at + " " + n); };
        one(g.act, w.act, "act"); one(g.pre, w.pre, "pre"); one(g.powerDownAct, w.pda, "pdnAct"); one(g.powerDownPre, w.pdp, "pdnPre"); one(g.selfRefresh, w.sref, "selfRefresh"); one(g.deepSleepMode, w.dsm, "deepSleep");
    };
    for (size_t r = 0; r < s.ranks; ++r) {
        std::string at = where + " t=" + std::to_string(T) + " rank " + std::to_string(r);
        cyc(st.rank_total[r].cycles, rc.rankAt(r, T), at, std::string(stdName(s.std)) + ".rank.");
        for (size_t b = 0; b < s.B; ++b) {
            auto& g = st.bank[r * s.B + b]; auto& k = rc.r[r].b[b]; std::string ab = at + " bank " + std::to_string(b), p = std::string(stdName(s.std)) + ".";
            cyc(g.cycles, rc.bankAt(r, b, T), ab, p + "bank.");
            auto one = [&](uint64_t a, Ev e, const char* n) { ctx.eq(a, rc.count(k, e, T), (p + "count." + n).c_str(), ab + " count " + n); };
            one(g.counter.act, E_ACT, "act"); one(g.counter.pre, E_PRE, "pre"); one(g.counter.reads, E_RD, "reads"); one(g.counter.writes, E_WR, "writes"); one(g.counter.refAllBank, E_REFAB, "refAllBank");
            one(g.counter.refPerBank, E_REFPB, "refPerBank"); one(g.counter.refPerTwoBanks, E_REF2B, "refPerTwoBanks"); one(g.counter.refDualBanks, E_REFDB, "refDualBanks"); one(g.counter.refSameBank, E_REFSB, "refSameBank");
            one(g.counter.readAuto, E_RDA, "readAuto"); one(g.counter.writeAuto, E_WRA, "writeAuto");
        }
    }
}
} // namespace sim
