// P06: data bus, strobe and clock activity equals the transferred data beat by beat (inversion off).
#include "props/ifcommon.h"
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    SessionOpt so; so.toggling = 0; so.dbi = 0;
    driveIf(ctx, std, so, [&](Dev& d, RefIf& r, uint64_t q, Session& S) {
        ctx.eq(d.powered(), S.powered, "interface-power-reported", S.where()); auto st = d.window(q); auto w = r.at(q); std::string at = S.where() + " at " + std::to_string(q), n = std::string(stdName(std)) + "."; ref::Stats none;
        sameBus(ctx, st.readBus, w.rd, n + "read-bus", at); sameBus(ctx, st.writeBus, w.wr, n + "write-bus", at); sameBus(ctx, st.clockStats, w.clk, n + "clock", at); sameBus(ctx, st.wClockStats, w.wck, n + "write-clock", at);
        sameBus(ctx, st.readDQSStats, w.rdqs, n + "read-strobe", at); sameBus(ctx, st.writeDQSStats, w.wdqs, n + "write-strobe", at);
        sameBus(ctx, st.togglingStats.read, none, n + "toggling-read", at); sameBus(ctx, st.togglingStats.write, none, n + "toggling-write", at);
        for (size_t k = 0; k < w.seamless.size(); ++k) { ctx.eq(uint64_t(st.rank_total[k].prepos.readSeamless), w.seamless[k].first, (n + "seamless-read").c_str(), at); ctx.eq(uint64_t(st.rank_total[k].prepos.writeSeamless), w.seamless[k].second, (n + "seamless-write").c_str(), at); ctx.count("seamless_accesses_seen", w.seamless[k].first + w.seamless[k].second); }
    });
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
