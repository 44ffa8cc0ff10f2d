// P05: command bus activity equals the command truth tables driven bit by bit.
#include "props/ifcommon.h"
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    driveIf(ctx, std, {}, [&](Dev& d, RefIf& r, uint64_t q, Session& S) {
        auto st = d.window(q); sameBus(ctx, st.commandBus, r.at(q).cmd, std::string(stdName(std)) + ".command-bus", S.where() + " at " + std::to_string(q));
        ctx.eq(d.parity(), r.par, "parity-mode-reported", S.where()); if (r.par) ctx.count("queries_with_parity");
    });
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
