// P20 (sanitizer job): random mixes of every public operation under ASan + UBSan + libstdc++ assertions.
#include "props/apimix.h"
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    auto r = apiMix(vh::Rng(ctx.rng.next()), std, ctx.thorough, 45, [] {});
    for (auto& [k, v] : r.n) ctx.count(k, v); ctx.eval(r.obs); ctx.fp(r.digest); if (ctx.caseIdx < 5) ctx.sample(r.where);
    // the energies and counters observed have to be numbers
    for (auto& t : r.tail) ctx.check(t.find("null") == std::string::npos && t.find("nan") == std::string::npos && t.find("inf") == std::string::npos, "not-a-number", r.where + " " + t.substr(0, 300));
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
