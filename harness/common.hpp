// Common parts of the monitoring harness: PRNG, reporting, worker main loop.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

inline std::uint64_t mix64(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(mix64(seed ^ 0x5851f42d4c957f2dull)) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    // uniform integer in [a,b]
    long long range(long long a, long long b)
    { return a + (long long)(next() % (std::uint64_t)(b - a + 1)); }
    int i(int a, int b) { return (int)range(a, b); }
    double u() { return (double)(next() >> 11) * 0x1.0p-53; }       // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double ea, double eb) { return std::pow(10.0, u(ea, eb)); }
    bool p(double pr) { return u() < pr; }
    template <class V> auto& pick(V& v) { return v[(std::size_t)range(0, (long long)std::size(v) - 1)]; }
    template <class V> void shuffle(V& v)
    { for (std::size_t k = v.size(); k > 1; --k) { std::swap(v[k - 1], v[(std::size_t)range(0, (long long)k - 1)]); } }
};

// order-sensitive 64-bit digest
struct Digest {
    std::uint64_t h = 0xcbf29ce484222325ull;
    void u64(std::uint64_t x) { h = mix64(h ^ x) + 0x632be59bd9b4e019ull * x; }
    void d(double x) { std::uint64_t b; std::memcpy(&b, &x, 8); u64(b); }
    void i(long long x) { u64((std::uint64_t)x); }
    void s(const std::string& x) { u64(x.size()); for (unsigned char c : x) u64(c); }
    template <class M> void map(const M& m) { u64(m.size()); for (const auto& e : m) { i(e.first); d(e.second); } }
};

inline bool sameBits(double a, double b)
{ std::uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }

inline std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

template <class... A> std::string cat(A&&... a)
{ std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{ ((o << a), 0)... }; return o.str(); }

struct Ctx {
    std::string prop;
    std::uint64_t seed = 1;
    long long idx = 0;
    bool thorough = false;
    bool verbose = false;
    std::function<void()> tick = [] {};  // tells the watchdog that a long case gets on

    struct Violation { long long idx; std::string key, msg; };
    std::vector<Violation> violations;
    std::map<std::string, std::uint64_t> stats;
    std::vector<std::string> samples;
    std::set<std::uint64_t> distinct;
    bool caseFailed = false;
    Digest dig;                     // digest of all results of this case (C31)

    void fail(const std::string& key, const std::string& msg)
    {
        if (caseFailed) return;     // first violation of a case only
        caseFailed = true;
        violations.push_back({ idx, key, msg });
        std::fprintf(stderr, "VIOLATED case %lld [%s] %s\n", idx, key.c_str(), msg.c_str());
    }
    void count(const std::string& k, std::uint64_t n = 1) { stats[k] += n; }
    void nontrivial(std::uint64_t h) { distinct.insert(h); }
    template <class F> void sample(F&& f)
    { if (samples.size() < 2) samples.push_back(f()); }
    std::uint64_t caseSeed() const
    {
        std::uint64_t h = mix64(seed);
        for (char c : prop) h = mix64(h ^ (unsigned char)c);
        return mix64(h ^ (std::uint64_t)idx);
    }
};

using CaseFn = std::function<void(Ctx&, Rng&)>;
// property -> case runner
std::map<std::string, CaseFn>& registry();
struct Reg { Reg(const char* p, CaseFn f) { registry()[p] = std::move(f); } };

} // namespace vf
