// P16: statistics and energy records add up component by component, compare exactly and are written under their own names.
#include "sim/session.h"
#include "sim/refenergy.h"
using namespace sim;
using DP::util::bus_stats_t; using J = nlohmann::json;
static uint64_t cap(vh::Rng& g) { return g.pick({uint64_t(1), uint64_t(9), uint64_t(100000), uint64_t(1) << 60}); }
static bus_stats_t rbus(vh::Rng& g, uint64_t c) { bus_stats_t b; b.ones = g.below(c); b.zeroes = g.below(c); b.bit_changes = g.below(c); b.ones_to_zeroes = g.below(c); b.zeroes_to_ones = g.below(c); return b; }
static J ind(const bus_stats_t& b) { return J{{"ones", b.ones}, {"zeroes", b.zeroes}, {"bit_changes", b.bit_changes}, {"ones_to_zeroes", b.ones_to_zeroes}, {"zeroes_to_ones", b.zeroes_to_ones}}; }
static J ind(const DP::CycleStats& s) {
    auto& c = s.counter; auto& y = s.cycles; auto& p = s.prepos;
    return J{{"counter", {{"act", c.act}, {"pre", c.pre}, {"reads", c.reads}, {"writes", c.writes}, {"refAllBank", c.refAllBank}, {"refPerBank", c.refPerBank}, {"refPerTwoBanks", c.refPerTwoBanks}, {"refDualBanks", c.refDualBanks}, {"refSameBank", c.refSameBank}, {"readAuto", c.readAuto}, {"writeAuto", c.writeAuto}}},
             {"cycles", {{"act", y.act}, {"pre", y.pre}, {"powerDownAct", y.powerDownAct}, {"powerDownPre", y.powerDownPre}, {"selfRefresh", y.selfRefresh}, {"deepSleepMode", y.deepSleepMode}}},
             {"prepos", {{"readMerged", p.readMerged}, {"readMergedTime", p.readMergedTime}, {"writeMerged", p.writeMerged}, {"writeMergedTime", p.writeMergedTime}, {"readSeamless", p.readSeamless}, {"writeSeamless", p.writeSeamless}}}};
}
static J ind(const SimulationStats& s) {
    J j{{"commandBus", ind(s.commandBus)}, {"readBus", ind(s.readBus)}, {"writeBus", ind(s.writeBus)}, {"clockStats", ind(s.clockStats)}, {"wClockStats", ind(s.wClockStats)}, {"readDBI", ind(s.readDBI)}, {"writeDBI", ind(s.writeDBI)},
        {"togglingStats", {{"read", ind(s.togglingStats.read)}, {"write", ind(s.togglingStats.write)}}}, {"readDQSStats", ind(s.readDQSStats)}, {"writeDQSStats", ind(s.writeDQSStats)}, {"bank", J::array()}, {"rank_total", J::array()}};
    for (auto& b : s.bank) j["bank"].push_back(ind(b)); for (auto& b : s.rank_total) j["rank_total"].push_back(ind(b)); return j;
}
static DP::CycleStats rcyc(vh::Rng& g, uint64_t k) {
    DP::CycleStats s; auto f = [&](auto&... x) { ((x = g.below(k)), ...); }; auto& c = s.counter; auto& y = s.cycles; auto& p = s.prepos;
    f(c.act, c.pre, c.reads, c.writes, c.refAllBank, c.refPerBank, c.refPerTwoBanks, c.refDualBanks, c.refSameBank, c.readAuto, c.writeAuto); f(y.act, y.pre, y.powerDownAct, y.powerDownPre, y.selfRefresh, y.deepSleepMode);
    f(p.readMerged, p.readMergedTime, p.writeMerged, p.writeMergedTime, p.readSeamless, p.writeSeamless); return s;
}
static SimulationStats rstats(vh::Rng& g, size_t banks, size_t ranks) {
    uint64_t k = cap(g); SimulationStats s; for (auto b : {&s.commandBus, &s.readBus, &s.writeBus, &s.clockStats, &s.wClockStats, &s.readDBI, &s.writeDBI, &s.togglingStats.read, &s.togglingStats.write, &s.readDQSStats, &s.writeDQSStats}) *b = rbus(g, k);
    for (size_t i = 0; i < banks; ++i) s.bank.push_back(rcyc(g, k)); for (size_t i = 0; i < ranks; ++i) s.rank_total.push_back(rcyc(g, k)); return s;
}
// element-wise sum of two documents of the same or different array lengths
static J sum(const J& a, const J& b) {
    if (a.is_number()) return a.get<uint64_t>() + b.get<uint64_t>();
    J r = a; if (a.is_object()) { for (auto& [k, v] : b.items()) r[k] = a.contains(k) ? sum(a[k], v) : v; } else for (size_t i = 0; i < b.size(); ++i) { if (i < a.size()) r[i] = sum(a[i], b[i]); else r.push_back(b[i]); }
    return r;
}
static void leaves(const J& j, J::json_pointer p, std::vector<J::json_pointer>& o) { if (j.is_object()) for (auto& [k, v] : j.items()) leaves(v, p / k, o); else if (j.is_array()) { for (size_t i = 0; i < j.size(); ++i) leaves(j[i], p / i, o); } else o.push_back(p); }
VH_PART(bus_records, 2) {
    auto& g = ctx.rng; for (int k = 0; k < 20; ++k) {
        auto a = rbus(g, cap(g)), b = rbus(g, cap(g)); uint64_t f = g.below(9); J x = ind(a), y = ind(b); std::string w = x.dump() + y.dump();
        sameJ(ctx, ind(a + b), sum(x, y), "bus.sum", w); auto c = a; c += b; sameJ(ctx, ind(c), sum(x, y), "bus.add", w); sameJ(ctx, ind(a + bus_stats_t{}), x, "bus.zero", w);
        J m = x; for (auto& [n, v] : m.items()) v = v.get<uint64_t>() * f; sameJ(ctx, ind(a * f), m, "bus.scale", w); sameJ(ctx, ind(f * a), m, "bus.scale", w); c = a; c *= f; sameJ(ctx, ind(c), m, "bus.scale", w);
        ctx.check(a == a, "bus.equal", w); ctx.check((a == b) == (x == y), "bus.equal", w); sameJ(ctx, J(a), x, "bus.json", w); sameJ(ctx, ind(J(a).get<bus_stats_t>()), x, "bus.json-read", w);
        std::stringstream s; a.serialize(s); bus_stats_t d = b; d.deserialize(s); sameJ(ctx, ind(d), x, "bus.snapshot", w); ctx.fp(vh::hashStr(w)); ctx.count("bus_records");
    }
}
VH_PART(stat_records, 3) {
    auto& g = ctx.rng; size_t nb = g.below(5), nr = g.below(4); bool eqShape = g.coin(); auto a = rstats(g, nb, nr), b = rstats(g, eqShape ? nb : g.below(6), eqShape ? nr : g.below(5)), c = rstats(g, g.below(5), g.below(4));
    J x = ind(a), y = ind(b), z = ind(c); std::string w = "records of " + std::to_string(a.bank.size()) + "/" + std::to_string(a.rank_total.size()) + " and " + std::to_string(b.bank.size()) + "/" + std::to_string(b.rank_total.size());
    sameJ(ctx, J(a), x, "stats.json", w); sameJ(ctx, ind(J(a).get<SimulationStats>()), x, "stats.json-read", w);
    auto ab = a; ab += b; sameJ(ctx, ind(ab), sum(x, y), "stats.add", w); auto ba = b; ba += a; sameJ(ctx, ind(ba), sum(x, y), "stats.commutative", w); ctx.check(ab == ba, "stats.commutative-equal", w);
    auto abc = ab; abc += c; auto bc = b; bc += c; auto a2 = a; a2 += bc; sameJ(ctx, ind(abc), ind(a2), "stats.associative", w); sameJ(ctx, ind(abc), sum(sum(x, y), z), "stats.add3", w);
    auto zero = a; zero += SimulationStats{}; ctx.check(zero == a, "stats.zero", w); SimulationStats z2; z2 += a; sameJ(ctx, ind(z2), x, "stats.zero-left", w);
    { SimulationStats z3; z3.bank.resize(a.bank.size()); z3.rank_total.resize(a.rank_total.size()); std::vector<J::json_pointer> zl; J zj = ind(z3); leaves(zj, J::json_pointer(), zl); for (auto& p : zl) if (zj[p] != 0) ctx.fail("stats.fresh-record-not-zero", p.to_string() + " = " + zj[p].dump()); ctx.eval(zl.size());
      z3 += a; sameJ(ctx, ind(z3), x, "stats.zero-left", w); ctx.check(z3 == a, "stats.zero-left", w); }
    ctx.check((a == b) == (x == y), "stats.equal", w); ctx.check((a == c) == (x == z), "stats.equal", w);
    // equality notices a difference in any single entry
    std::vector<J::json_pointer> lv; leaves(x, J::json_pointer(), lv); for (int i = 0; i < 12; ++i) { auto& p = g.pick(lv); J m = x; m[p] = m[p].get<uint64_t>() + 1; SimulationStats d = m.get<SimulationStats>(); ctx.check(!(d == a) && !(a == d), "stats.equality-misses-entry", w + " " + p.to_string()); sameJ(ctx, ind(d), m, "stats.json-read", w); }
    if (!a.bank.empty()) { auto d = a; d.bank.pop_back(); ctx.check(!(d == a) && !(a == d), "stats.equality-misses-length", w); } if (!a.rank_total.empty()) { auto d = a; d.rank_total.pop_back(); ctx.check(!(d == a) && !(a == d), "stats.equality-misses-length", w); }
    auto r = rcyc(g, cap(g)), q = rcyc(g, cap(g)); std::stringstream s; r.serialize(s); q.deserialize(s); sameJ(ctx, ind(q), ind(r), "stats.snapshot", w); ctx.check(q == r, "stats.snapshot-equal", w);
    ctx.fp(vh::hashStr(x.dump())); ctx.count("stat_records"); if (ctx.caseIdx < 4) ctx.sample(w);
}
struct F { const char* name; double DP::energy_info_t::* p; bool total; };
static const F FS[] = {{"ACT", &DP::energy_info_t::E_act, true}, {"PRE", &DP::energy_info_t::E_pre, true}, {"BG_ACT", &DP::energy_info_t::E_bg_act, true}, {"BG_PRE", &DP::energy_info_t::E_bg_pre, true}, {"RD", &DP::energy_info_t::E_RD, true}, {"WR", &DP::energy_info_t::E_WR, true}, {"RDA", &DP::energy_info_t::E_RDA, true}, {"WRA", &DP::energy_info_t::E_WRA, true},
    {"PRE_RDA", &DP::energy_info_t::E_pre_RDA, false}, {"PRE_WRA", &DP::energy_info_t::E_pre_WRA, false}, {"REF_AB", &DP::energy_info_t::E_ref_AB, true}, {"REF_PB", &DP::energy_info_t::E_ref_PB, true}, {"REF_SB", &DP::energy_info_t::E_ref_SB, true}, {"REF_2B", &DP::energy_info_t::E_ref_2B, true}, {"REF_DB", &DP::energy_info_t::E_ref_DB, true}};
VH_PART(energy_records, 3) {
    auto& g = ctx.rng; size_t n = g.range(0, 9); DP::energy_t e(n); std::string w = "energy record of " + std::to_string(n) + " banks"; uint64_t h = n;
    auto val = [&] { double v = g.chance(1, 8) ? 0.0 : double(g.range(1, 1u << 20)) * (g.chance(1, 20) ? 1024.0 : 1.0); h = vh::mix(h, uint64_t(v)); return v; }; // integers: sums are exact
    for (auto& b : e.bank_energy) for (auto& f : FS) b.*(f.p) = val();
    { DP::energy_info_t f0; DP::energy_t e0(3); DP::interface_energy_info_t i0; for (auto& f : FS) { ctx.eq(f0.*(f.p), 0.0, "energy.fresh-record-not-zero", f.name); for (auto& b : e0.bank_energy) ctx.eq(b.*(f.p), 0.0, "energy.fresh-record-not-zero", f.name); } ctx.eq(e0.total(), 0.0, "energy.fresh-record-not-zero", "total"); ctx.eq(i0.total(), 0.0, "interface.fresh-record-not-zero", "total"); }
    double DP::energy_t::* R[] = {&DP::energy_t::E_bg_act_shared, &DP::energy_t::E_PDNA, &DP::energy_t::E_PDNP, &DP::energy_t::E_sref, &DP::energy_t::E_dsm, &DP::energy_t::E_refab}; const char* RN[] = {"E_bg_act_shared", "E_PDNA", "E_PDNP", "E_sref", "E_dsm", "E_refab"};
    ctx.check(e.bank_energy.size() == n, "energy.size", w); J want; double tot = 0; for (int i = 0; i < 6; ++i) { e.*(R[i]) = val(); want[RN[i]] = e.*(R[i]); tot += e.*(R[i]); }
    want["BankEnergy"] = J::array(); DP::energy_info_t acc; double accv[15] = {};
    for (auto& b : e.bank_energy) { J x; double t = 0; int k = 0; for (auto& f : FS) { x[f.name] = b.*(f.p); if (f.total) t += b.*(f.p); accv[k++] += b.*(f.p); } want["BankEnergy"].push_back(x); J bj; b.to_json(bj); sameJ(ctx, bj, x, "energy.bank-json", w); ctx.eq(b.total(), t, "energy.bank-total", w); tot += t; acc += b; }
    sameJ(ctx, js(e), want, "energy.json", w); ctx.eq(e.total(), tot, "energy.total", w); ctx.check(std::string(e.get_Bank_energy_keyword()) == "BankEnergy", "energy.keyword", w);
    auto ag = e.aggregated_bank_energy(); for (int k = 0; k < 15; ++k) { ctx.eq(acc.*(FS[k].p), accv[k], "energy.add", w + FS[k].name); ctx.eq(ag.*(FS[k].p), accv[k] + (FS[k].p == &DP::energy_info_t::E_bg_act ? e.E_bg_act_shared : 0), "energy.aggregated", w + FS[k].name); }
    DP::interface_energy_info_t i, j2; for (auto p : {&i, &j2}) { p->controller.dynamicEnergy = val(); p->controller.staticEnergy = val(); p->dram.dynamicEnergy = val(); p->dram.staticEnergy = val(); }
    auto ij = [](const DP::interface_energy_info_t& x) { J j; j["controller"]["dynamicEnergy"] = x.controller.dynamicEnergy; j["controller"]["staticEnergy"] = x.controller.staticEnergy; j["dram"]["dynamicEnergy"] = x.dram.dynamicEnergy; j["dram"]["staticEnergy"] = x.dram.staticEnergy; return j; };
    sameJ(ctx, js(i), ij(i), "interface.json", w); ctx.eq(i.total(), i.controller.dynamicEnergy + i.controller.staticEnergy + i.dram.dynamicEnergy + i.dram.staticEnergy, "interface.total", w);
    auto s = i + j2; auto s2 = i; s2 += j2; auto s3 = j2 + i; for (auto p : {&s, &s2, &s3}) { ctx.eq(p->controller.dynamicEnergy, i.controller.dynamicEnergy + j2.controller.dynamicEnergy, "interface.add", w); ctx.eq(p->controller.staticEnergy, i.controller.staticEnergy + j2.controller.staticEnergy, "interface.add", w); ctx.eq(p->dram.dynamicEnergy, i.dram.dynamicEnergy + j2.dram.dynamicEnergy, "interface.add", w); ctx.eq(p->dram.staticEnergy, i.dram.staticEnergy + j2.dram.staticEnergy, "interface.add", w); }
    auto c = i.controller + j2.dram; ctx.eq(c.dynamicEnergy, i.controller.dynamicEnergy + j2.dram.dynamicEnergy, "interface.part-add", w); ctx.eq(c.staticEnergy, i.controller.staticEnergy + j2.dram.staticEnergy, "interface.part-add", w);
    ctx.fp(h); ctx.count("energy_records"); if (ctx.caseIdx < 8) ctx.sample(w);
}
// records of consecutive windows of real simulations: adding energies of added records is additive because the model is linear in the activity
VH_PART(linear, 1) {
    auto& g = ctx.rng; auto std = Std(g.below(NSTD)); Spec s = randomSpec(g, std); auto d = makeDev(s); auto a = randomRecord(g, s), b = randomRecord(g, s), c = a; c += b; std::string w = describe(s);
    auto x = d->coreE(a), y = d->coreE(b), z = d->coreE(c); ctx.near(z.total(), x.total() + y.total(), "core-energy-not-additive", w, 1e-8, 1e-9 * (std::abs(x.total()) + std::abs(y.total())));
    auto i = d->ifE(a), j = d->ifE(b), k = d->ifE(c); ctx.near(k.total(), i.total() + j.total(), "interface-energy-not-additive", w, 1e-8); ctx.fp(hashStats(c)); ctx.count("additivity");
}
