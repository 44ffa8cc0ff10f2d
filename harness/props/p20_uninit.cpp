// P20 (poisoning job): the same mix is run twice with different garbage in fresh heap and stack memory; every observable result has to be the same.
// The same binary also runs under valgrind memcheck (job p20_memcheck).
#include "props/apimix.h"
#include <cstdlib>
#include <new>
static unsigned char g_fill = 0; static bool g_poison = true;
static void* poisoned(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (g_poison) std::memset(p, g_fill, n); return p; }
void* operator new(std::size_t n) { return poisoned(n); }
void* operator new[](std::size_t n) { return poisoned(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
__attribute__((noinline)) static void smearStack() { volatile unsigned char b[24576]; for (size_t i = 0; i < sizeof b; ++i) b[i] = g_fill; }
using namespace sim;
static void run(vh::Ctx& ctx, Std std) {
    uint64_t seed = ctx.rng.next(); g_poison = std::getenv("VH_MEMCHECK") == nullptr; MixResult a, b; size_t ops = g_poison ? 30 : 14;
    if (!g_poison) { a = apiMix(vh::Rng(seed), std, false, ops, [] {}); }
    else {
        g_fill = 0x00; a = apiMix(vh::Rng(seed), std, ctx.thorough, ops, smearStack); g_fill = ctx.rng.pick({uint8_t(0xff), uint8_t(0xa5), uint8_t(0x01), uint8_t(0x5a)}); b = apiMix(vh::Rng(seed), std, ctx.thorough, ops, smearStack);
        if (a.digest != b.digest) for (size_t i = 0; i < std::min(a.tail.size(), b.tail.size()); ++i) if (a.tail[i] != b.tail[i]) {
            size_t k = 0; while (k < std::min(a.tail[i].size(), b.tail[i].size()) && a.tail[i][k] == b.tail[i][k]) ++k; size_t f = k > 60 ? k - 60 : 0;
            ctx.fail("depends-on-uninitialised-memory:" + a.tail[i].substr(0, a.tail[i].find('=')), a.where + ": observation differs with the content of fresh memory: ..." + a.tail[i].substr(f, 160) + " vs ..." + b.tail[i].substr(f, 160)); break; }
        ctx.check(a.digest == b.digest, "depends-on-uninitialised-memory", a.where);
    }
    for (auto& [k, v] : a.n) ctx.count(k, v); ctx.eval(a.obs); ctx.fp(a.digest); if (ctx.caseIdx < 5) ctx.sample(a.where);
}
VH_PART(ddr4, 1) { run(ctx, DDR4); }
VH_PART(ddr5, 1) { run(ctx, DDR5); }
VH_PART(lpddr4, 1) { run(ctx, LPDDR4); }
VH_PART(lpddr5, 1) { run(ctx, LPDDR5); }
VH_PART(lpddr6, 1) { run(ctx, LPDDR6); }
