// Endurance: a short legal block of commands is repeated very many times. Whatever it adds to the statistics the second time it adds every time,
// so the totals after N blocks are known in closed form: narrow counters, wrapping times, and state that creeps from block to block all show.
#include "sim/session.h"
using namespace sim;
using DRAMPower::CmdType;

// commands of one block, bringing every rank back to precharged and idle at its end
static std::vector<Cmd> block(vh::Rng& g, const Spec& s, GenOpt o, uint64_t& period) {
    Gen gen(g, s, o); std::vector<Cmd> b; size_t n = g.range(3, 16);
    for (size_t i = 0; i < n; ++i) { Cmd c; if (!gen.next(c)) break; b.push_back(c); }
    uint64_t t = gen.busIdleAt() + 200000;
    for (size_t r = 0; r < s.ranks; ++r) {
        for (int round = 0; round < 3; ++round) for (auto ty : {CmdType::DSMEX, CmdType::PDXA, CmdType::PDXP, CmdType::SREFEX}) {
            Cmd c; c.t = t; c.type = ty; c.rank = r; if (s.std != LPDDR5 && ty == CmdType::DSMEX) continue;
            if (gen.rc.legal(c)) { gen.rc.apply(c); b.push_back(c); t += 20000; }
        }
        Cmd c; c.t = t; c.type = CmdType::PREA; c.rank = r; if (gen.rc.legal(c)) { gen.rc.apply(c); b.push_back(c); t += 20000; }
    }
    gen.rc.at(t + 200000); period = (t + 200000) / 8 * 8; return b; // whole cycles of every clock
}
static void run(vh::Ctx& ctx, Mode m, int toggling, bool readsOnly, const char* only = "", bool dbi = false) {
    auto& g = ctx.rng; Std std = dbi ? g.pick({DDR4, LPDDR4, LPDDR5, LPDDR6}) : Std(g.below(5)); SessionOpt so; so.toggling = toggling; so.switches = false; so.spec.small = true; so.gen.huge = false; Session S(g, std, so);
    GenOpt o; o.huge = false; o.coreOnly = m == CORE; o.power = !readsOnly; o.mixPayload = toggling == 1; uint64_t period = 0; auto b = block(g, S.s, o, period);
    auto dev = S.make(); if (m != CORE && toggling == 0 && (dbi || g.chance(2, 3))) dev->setDBI(0, true);
    uint64_t R = ctx.thorough ? 150 : 33, N = 2 + 2000 * R; // more than 2^16 repetitions
    std::vector<SimulationStats> st; std::string where = describe(S.s) + " | block: " + str(b, 20) + " period " + std::to_string(period);
    // the payloads stay where they are; only the times move
    for (uint64_t k = 0; k < N; ++k) {
        for (auto& c : b) { auto cmd = toCommand(c, c.data.empty() ? nullptr : c.data.data()); cmd.timestamp = k * period + c.t; if (m == CORE) dev->core(cmd); else if (m == IFACE) dev->iface(cmd); else dev->both(cmd); }
        if (k == 1 || k == 2001 || k + 1 == N) st.push_back(dev->window((k + 1) * period));
    }
    auto f2 = flat(st[0]), f3 = flat(st[1]), fN = flat(st[2]);
    for (size_t i = 0; i < f2.size(); ++i) {
        if (f2[i].first.find(only) == std::string::npos) continue;
        ctx.eval(); double want = f2[i].second + double(R) * (f3[i].second - f2[i].second);
        double tol = toggling == 1 ? 4.0 * double(R * S.s.width * S.s.devices) + 1e-9 * std::fabs(want) : 0; // integral totals below 2^53 are exact; the rates round once per line and query
        if (!(std::fabs(fN[i].second - want) <= tol)) { std::string k = f2[i].first; std::string kk; for (char c : k) if (!isdigit((unsigned char)c)) kk += c; ctx.fail("endurance" + kk, where + ": " + k + " after " + std::to_string(N) + " blocks is " + std::to_string(fN[i].second) + ", 2000 blocks add " + std::to_string(f3[i].second - f2[i].second) + ", expected " + std::to_string(want)); if (ctx.fails.size() > 20) break; }
    }
    ctx.count("blocks", N); ctx.count("commands", N * b.size()); ctx.count(std::string("runs.") + stdName(std)); ctx.fp(vh::mix(S.fp, hashStats(st[2]))); ctx.sample(where);
}
// the same long history watched after every block and never watched: the final answers agree
static void watched(vh::Ctx& ctx) {
    auto& g = ctx.rng; Std std = Std(g.below(5)); SessionOpt so; so.switches = false; so.spec.small = true; so.gen.huge = false; so.toggling = g.chance(1, 3); Session S(g, std, so);
    GenOpt o; o.huge = false; o.mixPayload = so.toggling == 1; uint64_t period = 0; auto b = block(g, S.s, o, period); auto a = S.make(), w = S.make(); uint64_t N = ctx.thorough ? 300000 : 66002;
    if (g.coin()) { a->setDBI(0, true); w->setDBI(0, true); }
    for (uint64_t k = 0; k < N; ++k) {
        for (auto& c : b) { auto cmd = toCommand(c, c.data.empty() ? nullptr : c.data.data()); cmd.timestamp = k * period + c.t; a->both(cmd); w->both(cmd); }
        w->window((k + 1) * period); ctx.count("queries");
    }
    sameAt(ctx, *a, *w, N * period + 5, "endurance-observed", describe(S.s) + " | block: " + str(b, 20)); ctx.count("blocks", N); ctx.fp(vh::mix(S.fp, period));
}
VH_PART(observed, 1) { watched(ctx); }
VH_PART(core, 1) { run(ctx, CORE, 0, false); }
VH_PART(command, 1) { run(ctx, IFACE, 0, false, "ommandBus"); }
VH_PART(data, 1) { run(ctx, IFACE, 0, true); }
VH_PART(toggling, 1) { run(ctx, IFACE, 1, true); }
VH_PART(inversion, 1) { run(ctx, IFACE, 0, true, "DBI", true); }
VH_PART(both, 1) { run(ctx, BOTH, 0, false); }
