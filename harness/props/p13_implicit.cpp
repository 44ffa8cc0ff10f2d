// P13: delayed (implicit) effects take place exactly once, in time order (insertion order among equal times), never
// before the simulation reached their time, and the reported last event time follows them.
#include <common/vh.h>
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <memory>
#include <numeric>
using namespace DRAMPower;
using namespace vh;

struct Entry { timestamp_t t; uint64_t seq; int id; };
// reference queue: plain unordered list, selected by (time, sequence)
struct RefQ {
    std::vector<Entry> q; uint64_t seq = 0;
    void add(timestamp_t t, int id) { q.push_back({t, seq++, id}); }
    std::vector<Entry> due(timestamp_t t) {
        std::vector<Entry> d, k; for (auto& e : q) (e.t <= t ? d : k).push_back(e);
        std::stable_sort(d.begin(), d.end(), [](auto& a, auto& b) { return a.t < b.t; }); q = k; return d;
    }
};
static uint64_t rndT(Rng& g, uint64_t now) {
    switch (g.below(6)) { case 0: return now; case 1: return now + 1; case 2: return now + g.below(4); case 3: return now > 5 ? now - g.below(5) : now; case 4: return g.chance(1, 20) ? ~0ull - g.below(3) : now + g.below(200); default: return now + g.below(30); }
}
template <class H, class Add, class Run>
static void drive(Ctx& ctx, Add add, Run run) {
    auto& g = ctx.rng; auto h = std::make_unique<H>(); RefQ r; std::vector<int> log; timestamp_t now = 0, last = 0, rlast = 0; int id = 0; uint64_t fp = 0;
    std::ostringstream W; int steps = int(g.range(1, 30)); bool big = false;
    for (int s = 0; s < steps; ++s) {
        unsigned op = unsigned(g.below(10));
        if (op < 6) {
            bool crowd = !big && g.chance(1, 9000); int n = int(g.range(1, g.chance(1, 10) ? 40 : 4)); if (crowd) { n = int(g.range(300, 3000)); big = true; ctx.count("crowded_queues"); }
            size_t noted = 0;
            for (int k = 0; k < n; ++k) { auto t = rndT(g, now); int i = id++; add(*h, t, i, log); r.add(t, i); if (++noted < 60) W << " +" << i << "@" << t; fp = mix(fp, t - now); ctx.count("queued"); }
        } else if (op < 9) {
            now = std::max<timestamp_t>(now, rndT(g, now)); if (now > (1ull << 60)) now = 1ull << 60;
            log.clear(); auto due = r.due(now); bool quiet = due.empty();
            run(*h, now, last, log); W << " run@" << now; ctx.count("executed", due.size()); if (quiet) ctx.count("empty_runs");
            std::vector<int> want; for (auto& e : due) { want.push_back(e.id); rlast = e.t; }
            ctx.check(log == want, "implicit.order", W.str()); ctx.eq(last, rlast, "implicit.last_time", W.str()); fp = mix(fp, want.size());
            for (size_t k = 1; k < due.size(); ++k) if (due[k].t == due[k - 1].t) ctx.count("ties");
        } else if (g.coin()) { auto c = std::make_unique<H>(*h); *h = H{}; h = std::move(c); W << " copy"; }
        else { H c = std::move(*h); *h = std::move(c); W << " move"; }
        ctx.eq(h->implicitCommandCount(), r.q.size(), "implicit.count", W.str());
    }
    log.clear(); auto due = r.due(~0ull); run(*h, ~0ull, last, log); std::vector<int> want; for (auto& e : due) want.push_back(e.id);
    ctx.check(log == want, "implicit.order", W.str() + " final"); ctx.eq(h->implicitCommandCount(), size_t(0), "implicit.count", W.str());
    ctx.fp(mix(fp, id)); if (g.chance(1, 1000)) ctx.sample(W.str());
}
struct State { std::vector<int>* log; int sum = 0; };
VH_PART(with_context, 1) {
    using H = ImplicitCommandHandler<State>;
    drive<H>(ctx, [](H& h, timestamp_t t, int i, std::vector<int>&) { h.addImplicitCommand(t, [i](State& s) { s.log->push_back(i); s.sum += i; }); },
             [&](H& h, timestamp_t t, timestamp_t& last, std::vector<int>& log) { State s{&log}; h.processImplicitCommandQueue(s, t, last); ctx.eq(s.sum, std::accumulate(log.begin(), log.end(), 0), "implicit.context", "context handed to the effects"); });
}
VH_PART(without_context, 1) {
    using H = ImplicitCommandHandler<void>;
    drive<H>(ctx, [](H& h, timestamp_t t, int i, std::vector<int>& log) { auto f = [i, &log] { log.push_back(i); }; if (i & 1) h.addImplicitCommand(t, f); else h.addImplicitCommand(t, std::move(f)); },
             [](H& h, timestamp_t t, timestamp_t& last, std::vector<int>&) { h.processImplicitCommandQueue(t, last); });
}
