// Independent evaluation of the documented core and interface energy models.
#pragma once
#include "sim/device.h"
namespace sim {
// value with the magnitude of its terms, so that cancellation does not turn rounding into an alarm
struct Acc { double v = 0, mag = 0; void add(double x, double m) { v += x; mag += std::abs(m); } void add(double x) { add(x, x); } };
struct RefBankE { Acc act, pre, bgAct, bgPre, rd, wr, rda, wra, preRda, preWra, refAB, refPB, refSB, ref2B, refDB; };
struct RefCoreE { std::vector<RefBankE> bank; Acc shared, pdna, pdnp, sref, dsm; };
inline RefCoreE refCoreEnergy(const Spec& s, const SimulationStats& st) {
    RefCoreE r; r.bank.resize(s.ranks * s.devices * s.B); const double B = double(s.B), tCK = s.tCK, bl = double(s.BL) / double(s.DR);
    const double tRAS = s.tRAS * tCK, tRP = s.tRP * tCK, tRFC = s.tRFC * tCK, tRFCx = s.tRFCx * tCK, rho = s.rho; bool lp = isLP(s.std);
    for (auto& d : s.dom) {
        double iTheta = (d.i0 * (tRP + tRAS) - d.ibeta * tRP) / tRAS, mTheta = (d.i0 * (tRP + tRAS) + d.ibeta * tRP) / tRAS;
        double iRho = lp ? (B * rho * d.i3n + (1 - rho) * d.i2n) / (B * rho + 1 - rho) : rho * (d.i3n - d.i2n) + d.i2n;
        double i1 = lp ? d.i3n : (d.i3n + (B - 1) * iRho) / B;
        double iB = lp ? iRho + B * (i1 - iRho) : d.i3n, mB = B * (std::abs(d.i3n) + std::abs(d.i2n));
        double i2 = 2 * i1 - iRho, iBG = iRho + (i1 - iRho) * double(s.BG);
        double tRef8 = s.tREFI * tCK / 8, iPB = lp && tRFCx > 0 ? (d.i5x * tRef8 - d.i2n * (tRef8 - tRFCx)) / tRFCx : 0, mPB = lp && tRFCx > 0 ? (d.i5x + d.i2n) * tRef8 / tRFCx : 0;
        double base = d.i3n + d.i2n;
        double iRW = s.std == LPDDR6 || (s.std == LPDDR5 && s.mbg) ? i2 : lp ? i1 : d.i3n, tRW = s.std >= LPDDR5 ? s.tWCK : tCK;
        for (size_t k = 0; k < s.ranks; ++k) {
            auto& R = st.rank_total[k].cycles;
            for (size_t dv = 0; dv < s.devices; ++dv) for (size_t b = 0; b < s.B; ++b) {
                auto& e = r.bank[(k * s.devices + dv) * s.B + b]; auto& x = st.bank[k * s.B + b]; auto& c = x.counter;
                auto t = [&](Acc& a, double i, double m, double time, double n) { a.add(d.v * i * time * n, d.v * m * time * n); };
                t(e.act, iTheta - i1, mTheta + base, tRAS, double(c.act)); t(e.pre, d.ibeta - d.i2n, d.ibeta + d.i2n, tRP, double(c.pre));
                t(e.bgAct, i1 - iRho, base, tCK, double(x.cycles.act)); t(e.bgPre, d.i2n / B, d.i2n / B, tCK, double(R.pre));
                t(e.rd, d.i4r - iRW, d.i4r + 2 * base, bl * tRW, double(c.reads)); t(e.wr, d.i4w - iRW, d.i4w + 2 * base, bl * tRW, double(c.writes));
                t(e.rda, d.i4r - iRW, d.i4r + 2 * base, bl * tRW, double(c.readAuto)); t(e.wra, d.i4w - iRW, d.i4w + 2 * base, bl * tRW, double(c.writeAuto));
                t(e.preRda, d.ibeta - d.i2n, d.ibeta + d.i2n, tRP, double(c.readAuto)); t(e.preWra, d.ibeta - d.i2n, d.ibeta + d.i2n, tRP, double(c.writeAuto));
                t(e.refAB, (d.i5 - iB) / B, (d.i5 + mB) / B, tRFC, double(c.refAllBank));
                if (s.std == DDR5) t(e.refSB, (d.i5x - iBG) / double(s.BG), d.i5x + base * double(s.BG), tRFCx, double(c.refSameBank));
                if (s.std == LPDDR4 || s.std == LPDDR5) t(e.refPB, iPB - i1, mPB + base, tRFCx, double(c.refPerBank));
                if (s.std == LPDDR5) t(e.ref2B, 0.5 * (iPB - i2), mPB + 2 * base, tRFCx, double(c.refPerTwoBanks));
                if (s.std == LPDDR6) t(e.refDB, 0.5 * (iPB - i2), mPB + 2 * base, tRFCx, double(c.refDualBanks));
            }
            double n = double(s.devices); auto t = [&](Acc& a, double i, uint64_t cyc) { a.add(d.v * i * double(cyc) * tCK * n); };
            t(r.sref, d.i6, R.selfRefresh); t(r.pdna, d.i3p, R.powerDownAct); t(r.pdnp, d.i2p, R.powerDownPre); t(r.shared, iRho, R.act);
            if (s.std >= LPDDR5) t(r.dsm, d.i6ds, R.deepSleepMode);
        }
    }
    return r;
}
struct RefIfE { Acc cStat, cDyn, dStat, dDyn; };
inline RefIfE refIfEnergy(const Spec& s, const SimulationStats& st) {
    RefIfE r; auto& m = s.imp(); const double v2 = s.vddq * s.vddq; bool lp = isLP(s.std);
    auto P = [&](const std::string& n, const char* w) { return m.at(n + w); };
    auto term = [&](const std::string& n, const DP::util::bus_stats_t& b, double tbit, Acc& stat, Acc& dyn) {
        if (P(n, "_termination").get<bool>()) stat.add(double(lp ? b.ones : b.zeroes) * v2 / P(n, "_R_eq").get<double>() * tbit);
        dyn.add(double(b.zeroes_to_ones) * P(n, "_dyn_E").get<double>());
    };
    double dq = s.tCK / double(s.DR), dqs = s.std == DDR5 ? s.tCK / double(s.dqsRate) : dq, ca = s.tCK / (s.std >= LPDDR5 ? 2.0 : 1.0);
    term("ck", st.clockStats, s.tCK / 2, r.cStat, r.cDyn); term("ca", st.commandBus, ca, r.cStat, r.cDyn);
    if (s.std >= LPDDR5) term("wck", st.wClockStats, s.tWCK / 2, r.cStat, r.cDyn); else term("wdqs", st.writeDQSStats, dqs, r.cStat, r.cDyn);
    term("rdqs", st.readDQSStats, dqs, r.dStat, r.dDyn);
    term("wdq", st.writeBus, dq, r.cStat, r.cDyn); term("rdq", st.readBus, dq, r.dStat, r.dDyn);
    term("wdq", st.togglingStats.write, dq, r.cStat, r.cDyn); term("rdq", st.togglingStats.read, dq, r.dStat, r.dDyn);
    if (s.std == DDR4 || s.std == LPDDR4 || s.std == LPDDR5) { term("wdbi", st.writeDBI, dq, r.cStat, r.cDyn); term("rdbi", st.readDBI, dq, r.dStat, r.dDyn); }
    if (s.std == DDR4) {
        double rd = 0, wr = 0, pairs = s.width == 16 ? 2 : 1; auto& pp = s.doc["prepostamble"];
        for (auto& k : st.rank_total) { rd += double(k.counter.reads + k.counter.readAuto - k.prepos.readSeamless); wr += double(k.counter.writes + k.counter.writeAuto - k.prepos.writeSeamless); }
        auto amble = [&](const std::string& n, const std::string& dir, double cnt, Acc& stat, Acc& dyn) {
            if (!P(n, "_termination").get<bool>()) return;
            stat.add(pairs * pp[dir + "_zeroes"].get<double>() * cnt * v2 / P(n, "_R_eq").get<double>() * s.tCK); dyn.add(pairs * pp[dir + "_zeroes_to_ones"].get<double>() * cnt * P(n, "_dyn_E").get<double>());
        };
        amble("wdqs", "write", wr, r.cStat, r.cDyn); amble("rdqs", "read", rd, r.dStat, r.dDyn);
    }
    return r;
}
inline bool close(vh::Ctx& ctx, double got, const Acc& a, const std::string& key, const std::string& where) {
    ctx.eval(); double tol = 1e-10 * a.mag; if (std::abs(got - a.v) <= tol) return true;
    std::ostringstream o; o.precision(17); o << where << ": got " << got << " expected " << a.v; ctx.fail(key, o.str()); return false;
}
// Random activity record of the right shape: every entry drawn independently.
inline SimulationStats randomRecord(vh::Rng& g, const Spec& s) {
    SimulationStats st; st.bank.resize(s.ranks * s.B); st.rank_total.resize(s.ranks); nlohmann::json j = js(st); uint64_t cap = g.pick({uint64_t(20), uint64_t(5000), uint64_t(1) << 36}); unsigned zero = g.pick({0u, 1u, 5u});
    std::function<void(nlohmann::json&)> fill = [&](nlohmann::json& x) { if (x.is_number()) x = g.chance(zero, 6) ? uint64_t(0) : g.range(1, cap); else for (auto& y : x) fill(y); }; fill(j);
    for (auto& k : j["rank_total"]) { auto& p = k["prepos"]; auto& c = k["counter"]; p["readSeamless"] = g.below(c["reads"].get<uint64_t>() + c["readAuto"].get<uint64_t>() + 1); p["writeSeamless"] = g.below(c["writes"].get<uint64_t>() + c["writeAuto"].get<uint64_t>() + 1); }
    DP::from_json(j, st); return st;
}
} // namespace sim
