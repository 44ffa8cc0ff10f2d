// Shared harness: case runner, seeded RNG, coverage counters, violation recording.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <initializer_list>

namespace vh {

struct Rng {
    uint64_t s[2];
    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() & 1; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + unit() * (hi - lo); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

struct Fail { uint64_t caseIdx; std::string key, msg; };

struct Ctx {
    Rng rng{1};
    uint64_t caseIdx = 0;
    uint64_t seed = 1;
    bool thorough = false;
    bool verbose = false;
    std::string scratch;                 // scratch directory of this shard
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> fps;
    std::vector<std::string> samples;
    std::vector<Fail> fails;
    uint64_t evals = 0;
    void fail(const std::string& key, const std::string& msg);
    void count(const char* name, uint64_t n = 1) { counters[name] += n; }
    void count(const std::string& name, uint64_t n = 1) { counters[name] += n; }
    void eval(uint64_t n = 1) { evals += n; }
    void fp(uint64_t h) { if (fps.size() < 400000) fps.insert(h); }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 700)); }
    // generic equality monitor
    template <class A, class B>
    bool eq(const A& got, const B& want, const char* key, const std::string& where) {
        ++evals;
        if (got == want) return true;
        std::ostringstream o; o.precision(17);
        o << where << ": got " << got << " expected " << want;
        fail(key, o.str());
        return false;
    }
    bool check(bool ok, const char* key, const std::string& where) {
        ++evals;
        if (!ok) fail(key, where);
        return ok;
    }
    bool near(double got, double want, const char* key, const std::string& where, double rel = 1e-9, double absTol = 0);
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdULL;
}
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

using CaseFn = void (*)(Ctx&);
struct Part { const char* name; CaseFn fn; unsigned weight; };
std::vector<Part>& parts();
struct RegisterPart { RegisterPart(const char* n, CaseFn f, unsigned w) { parts().push_back({n, f, w}); } };
// A "part" is one workload of a property; cases are dealt to parts by weight.
#define VH_PART(name, weight) \
    static void name(vh::Ctx&); \
    static vh::RegisterPart reg_##name(#name, &name, weight); \
    static void name([[maybe_unused]] vh::Ctx& ctx)

} // namespace vh
