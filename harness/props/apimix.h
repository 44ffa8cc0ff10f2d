// A random mix of everything a user can do with one simulator; returns a transcript of every observable result.
#pragma once
#include "sim/session.h"
#include <sstream>
namespace sim {
struct MixResult { uint64_t digest = 7; size_t obs = 0; std::vector<std::string> tail; std::string where; std::map<std::string, uint64_t> n; };
template <class Smear> MixResult apiMix(vh::Rng g, Std std, bool thorough, size_t maxOps, Smear&& smear, const Spec* fixed = nullptr, bool energiesOnly = false) {
    MixResult R; SessionOpt so; so.spec.maxRanks = g.chance(1, 5) ? 8 : 3; so.gen.huge = g.chance(1, 3);
    auto S = fixed ? std::make_unique<Session>(g, *fixed, so) : std::make_unique<Session>(g, std, so);
    auto note = [&](const char* what, const std::string& x) { R.digest = vh::mix(R.digest, vh::hashStr(x)); ++R.obs; ++R.n[what]; R.tail.push_back(std::string(what) + "=" + x); if (R.tail.size() > 400) R.tail.erase(R.tail.begin()); };
    Mode m = g.pick({BOTH, BOTH, BOTH, CORE, IFACE}); unsigned den = g.pick({1u, 3u, 9u});
    smear(); auto d = S->make(); smear(); size_t n = g.range(1, thorough ? maxOps * 3 : maxOps); (void)energiesOnly;
    auto query = [&](uint64_t q) {
        smear(); auto st = d->window(q); note("stats", js(st).dump()); smear();
        if (m != IFACE) { note("core-energy", js(d->coreE(st)).dump()); }
        smear(); if (m != CORE) { note("interface-energy", js(d->ifE(st)).dump()); }
        S->queried(q);
    };
    for (size_t i = 0; i < n; ++i) {
        Op o; if (!S->next(o)) break; smear(); note("switch-outcome", apply(*d, o, m) ? "1" : "0"); ++R.n[std::string("op.") + (o.k == Op::CMD ? DP::CmdTypeUtil::to_string(o.c.type) : std::string("switch"))];
        if (!g.chance(1, den)) continue;
        switch (g.below(11)) {
            case 0: case 1: query(S->queryTime()); break;
            case 2: { uint64_t q = S->queryTime(); smear(); note("total", nlohmann::json(d->total(q)).dump()); S->queried(q); break; }
            case 3: { uint64_t q = S->queryTime(); smear(); note("core-at", js(d->coreAt(q)).dump()); smear(); note("interface-at", js(d->ifAt(q)).dump()); S->queried(q); break; }
            case 4: { smear(); auto e = d->copy(); smear(); if (g.coin()) std::swap(d, e); e.reset(); ++R.n["copy"]; break; }
            case 5: { smear(); auto e = d->moved(); d = std::move(e); ++R.n["move"]; break; }
            case 6: { smear(); auto e = S->make(); e->assign(*d); smear(); if (g.coin()) d = std::move(e); ++R.n["assign"]; break; }
            case 7: { smear(); auto e = S->make(); e->moveAssign(*d); d = std::move(e); ++R.n["move-assign"]; break; }
            case 8: case 9: { bool ok = d->serializable(); note("serializable", ok ? "1" : "0"); if (!ok) break; smear(); std::stringstream s; d->ser(s); note("snapshot-size", std::to_string(s.str().size())); // its bytes include padding
                smear(); auto e = S->make(); e->deser(s); smear(); if (g.coin()) d = std::move(e); ++R.n["restore"]; break; }
            default: { auto a = d->arch(); note("architecture", std::to_string(a.deviceCount) + "/" + std::to_string(a.rankCount) + "/" + std::to_string(a.bankCount)); note("switches", std::to_string(d->dbi()) + std::to_string(d->meta().first) + std::to_string(d->meta().second) + std::to_string(d->hasDBI())); note("last", std::to_string(d->last())); }
        }
    }
    query(S->queryTime() + g.below(500)); smear(); d.reset(); R.where = S->where(10); return R;
}
} // namespace sim
