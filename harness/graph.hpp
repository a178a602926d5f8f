// Directed graphs: generator and reference components.
#pragma once
#include "common.hpp"
#include <opm/utility/graph/tarjan.h>
#include <algorithm>
#include <memory>

namespace vf {

struct Digraph {
    int n = 0;
    std::vector<std::pair<int, int>> e;
    std::string name;
    // exact-size arrays, so that any access beyond them is seen by the sanitizer
    std::unique_ptr<std::size_t[]> ia; std::unique_ptr<int[]> ja;
    void finish(Rng& r, bool mixRows)
    {
        ia.reset(new std::size_t[(std::size_t)n + 1]); ja.reset(new int[e.size()]);
        if (mixRows) r.shuffle(e);
        for (int i = 0; i <= n; ++i) ia[i] = 0;
        for (auto& q : e) ++ia[q.first + 1];
        for (int i = 0; i < n; ++i) ia[i + 1] += ia[i];
        std::vector<std::size_t> pos(ia.get(), ia.get() + n + 1);
        for (auto& q : e) ja[pos[q.first]++] = q.second;
    }
    std::uint64_t hash() const { Digest d; d.i(n); for (auto& q : e) { d.i(q.first); d.i(q.second); } return d.h; }
    std::string text() const
    {
        std::ostringstream o; o << name << " n=" << n << " m=" << e.size();
        if (e.size() <= 60) { o << " edges:"; for (auto& q : e) o << " " << q.first << ">" << q.second; }
        return o.str();
    }
};

constexpr long long EX3 = 1 + 2 + 16 + 512, EX4 = 4096, EX4S = 65536, EX5 = 1 << 20;

// All graphs of up to three vertices (with self loops), four without; thorough: four with, five without.
inline bool exhaustive(long long k, bool thorough, Digraph& g)
{
    auto full = [&](int n, long long bits, bool self) {
        g.n = n; g.name = "exhaustive"; int b = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j && !self) continue; if (bits >> b++ & 1) g.e.emplace_back(i, j); }
    };
    if (k < 1) { g.n = 0; g.name = "empty"; return true; } k -= 1;
    if (k < 2) { full(1, k, true); return true; } k -= 2;
    if (k < 16) { full(2, k, true); return true; } k -= 16;
    if (k < 512) { full(3, k, true); return true; } k -= 512;
    if (k < EX4) { full(4, k, false); return true; } k -= EX4;
    if (!thorough) return false;
    if (k < EX4S) { full(4, k, true); return true; } k -= EX4S;
    if (k < EX5) { full(5, k, false); return true; }
    return false;
}
inline long long numExhaustive(bool thorough) { return EX3 + EX4 + (thorough ? EX4S + EX5 : 0); }

inline void randomGraph(Rng& r, Digraph& g, int hugeN = 0, int kind = -1)
{
    int n;
    const double q = r.u();
    if (q < 0.55) n = r.i(1, 9); else if (q < 0.85) n = r.i(10, 60); else if (q < 0.985) n = r.i(61, 400); else n = r.i(1000, 4200);
    if (hugeN) n = hugeN;
    auto add = [&](int a, int b) { g.e.emplace_back(a, b); };
    std::vector<int> num;
    switch (kind >= 0 ? kind : r.i(0, 13)) {
    case 0: g.name = "path"; for (int i = 1; i < n; ++i) add(i - 1, i); break;
    case 1: g.name = "backpath"; for (int i = 1; i < n; ++i) add(i, i - 1); break;
    case 2: g.name = "ring"; for (int i = 0; i < n; ++i) add(i, (i + 1) % n); break;
    case 3: g.name = "backring"; for (int i = 0; i < n; ++i) add((i + 1) % n, i); break;
    case 4: { g.name = "star"; const int h = r.i(0, n - 1); const int mode = r.i(0, 2); for (int i = 0; i < n; ++i) if (i != h) { if (mode != 1) add(h, i); if (mode != 0) add(i, h); } break; }
    case 5: { g.name = "complete"; n = std::min(n, 60); const bool dag = r.p(0.5); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i < j || (i > j && !dag)) add(i, j); break; }
    case 6: { g.name = "dag"; const int m = (int)(n * r.u(0.5, 4)); for (int k = 0; k < m; ++k) { int a = r.i(0, n - 1), b = r.i(0, n - 1); if (a != b) add(std::min(a, b), std::max(a, b)); } break; }
    case 7: case 8: { g.name = "random"; const int m = (int)(n * r.u(0.2, 3)); for (int k = 0; k < m; ++k) add(r.i(0, n - 1), r.i(0, n - 1)); break; }
    case 9: { g.name = "rings chained"; int a = 0; int prev = -1; while (a < n) { const int len = std::min(n - a, r.i(1, 7)); for (int i = 0; i < len; ++i) if (len > 1) add(a + i, a + (i + 1) % len); if (prev >= 0 && r.p(0.9)) { const bool f = r.p(0.9); const int u = r.i(prev, a - 1), v = r.i(a, a + len - 1); if (f) add(u, v); else add(v, u); } prev = a; a += len; } break; }
    case 10: { g.name = "grid"; const int nx = std::max(1, (int)std::sqrt((double)n)); n = nx * std::max(1, n / nx); for (int i = 0; i < n; ++i) { if ((i + 1) % nx && i + 1 < n) { if (r.p(0.5)) add(i, i + 1); else add(i + 1, i); } if (i + nx < n) { if (r.p(0.5)) add(i, i + nx); else add(i + nx, i); } } break; }
    case 11: { g.name = "big ring and tail"; if (!hugeN && n > 60) n = std::max(n, r.i(1023, 1100)); const int m = r.p(0.5) ? std::min(n, r.i(1023, 1026)) : r.i(1, n); for (int i = 0; i < m; ++i) add(i, (i + 1) % m); for (int i = m; i < n; ++i) add(r.p(0.5) ? i : r.i(0, i - 1), r.p(0.5) ? i : r.i(0, i - 1)); break; }
    case 12: { g.name = "bidirectional tree"; for (int i = 1; i < n; ++i) { const int p = r.i(std::max(0, i - 3), i - 1); const int mode = r.i(0, 4); if (mode != 0) add(p, i); if (mode != 1) add(i, p); } break; }
    default: { g.name = "two halves"; const int h = n / 2; for (int i = 1; i < h; ++i) { add(i - 1, i); if (r.p(0.3)) add(i, r.i(0, i)); } for (int i = h + 1; i < n; ++i) { add(i, i - 1); if (r.p(0.3)) add(r.i(h, i), i); } if (h > 0 && h < n && r.p(0.7)) add(r.i(0, h - 1), r.i(h, n - 1)); if (h > 0 && h < n && r.p(0.2)) add(r.i(h, n - 1), r.i(0, h - 1)); }
    }
    g.n = n;
    if (n > 0) {
        if (r.p(0.25)) { const int m = r.i(1, 1 + n / 3); for (int k = 0; k < m; ++k) { const int v = r.i(0, n - 1); add(v, v); } }
        if (r.p(0.25) && !g.e.empty()) { const int m = r.i(1, 1 + n / 3); for (int k = 0; k < m; ++k) { auto z = r.pick(g.e); g.e.push_back(z); } }
        if (r.p(0.15)) { const int m = r.i(1, 3); g.n += m; }                    // isolated vertices at the end
        if (r.p(0.5)) { std::vector<int> p(g.n); for (int i = 0; i < g.n; ++i) p[i] = i; r.shuffle(p); for (auto& z : g.e) { z.first = p[z.first]; z.second = p[z.second]; } }
    }
}

struct RefScc {
    std::vector<int> comp;       // component of vertex
    std::vector<std::vector<int>> adj;
    int nc = 0;
    explicit RefScc(const Digraph& g) : comp(g.n, -1), adj(g.n)
    {
        std::vector<std::vector<int>> radj(g.n);
        for (auto& q : g.e) { adj[q.first].push_back(q.second); radj[q.second].push_back(q.first); }
        std::vector<char> seen(g.n, 0); std::vector<int> order; std::vector<std::pair<int, std::size_t>> st;
        for (int s = 0; s < g.n; ++s) {
            if (seen[s]) continue; seen[s] = 1; st.emplace_back(s, 0);
            while (!st.empty()) {
                const int v = st.back().first;
                if (st.back().second < adj[v].size()) { const int w = adj[v][st.back().second++]; if (!seen[w]) { seen[w] = 1; st.emplace_back(w, 0); } }
                else { order.push_back(v); st.pop_back(); }
            }
        }
        std::vector<int> q;
        for (int k = g.n - 1; k >= 0; --k) {
            const int s = order[k]; if (comp[s] >= 0) continue;
            q.assign(1, s); comp[s] = nc;
            while (!q.empty()) { const int v = q.back(); q.pop_back(); for (int w : radj[v]) if (comp[w] < 0) { comp[w] = nc; q.push_back(w); } }
            ++nc;
        }
    }
    std::vector<char> reach(const std::vector<int>& start) const
    {
        std::vector<char> r(adj.size(), 0); std::vector<int> q;
        for (int s : start) if (!r[s]) { r[s] = 1; q.push_back(s); }
        while (!q.empty()) { const int v = q.back(); q.pop_back(); for (int w : adj[v]) if (!r[w]) { r[w] = 1; q.push_back(w); } }
        return r;
    }
};

using Comps = std::vector<std::vector<int>>;
inline Comps readComps(const TarjanSCCResult* s)
{
    Comps c; const std::size_t nc = tarjan_get_numcomponents(s);
    for (std::size_t k = 0; k < nc; ++k) { const auto q = tarjan_get_strongcomponent(s, k); c.emplace_back(q.vertex, q.vertex + q.size); }
    return c;
}

// Components against the reference.  Empty string: correct.
inline std::string checkComps(const Digraph& g, const RefScc& R, const std::vector<char>* only, const Comps& c)
{
    std::vector<int> idx(g.n, -1);
    std::vector<int> sizeOf(R.nc, 0); for (int v = 0; v < g.n; ++v) ++sizeOf[R.comp[v]];
    std::size_t expect = 0; if (only) { for (char q : *only) expect += q; } else expect = (std::size_t)g.n;
    std::size_t total = 0;
    for (std::size_t k = 0; k < c.size(); ++k) {
        if (c[k].empty()) return cat("component ", k, " is empty");
        for (int v : c[k]) {
            if (v < 0 || v >= g.n) return cat("component ", k, " lists ", v, " which is no vertex");
            if (only && !(*only)[v]) return cat("vertex ", v, " is listed but not reachable");
            if (idx[v] >= 0) return cat("vertex ", v, " is listed twice");
            idx[v] = (int)k; ++total;
            if (R.comp[v] != R.comp[c[k][0]]) return cat("vertices ", c[k][0], " and ", v, " are in one component but not mutually reachable");
        }
        if ((int)c[k].size() != sizeOf[R.comp[c[k][0]]]) return cat("component of vertex ", c[k][0], " has ", c[k].size(), " vertices instead of ", sizeOf[R.comp[c[k][0]]]);
    }
    if (total != expect) return cat(total, " vertices listed, expected ", expect);
    for (auto& q : g.e) if (idx[q.first] >= 0 && idx[q.second] > idx[q.first]) return cat("edge ", q.first, ">", q.second, " leads to a component listed later");
    return {};
}

// Independent second opinion for small graphs: transitive closure.
inline std::string checkClosure(const Digraph& g, const Comps& c)
{
    if (g.n > 64) return {};
    std::vector<std::uint64_t> m(g.n, 0);
    for (int i = 0; i < g.n; ++i) m[i] |= 1ull << i;
    for (auto& q : g.e) m[q.first] |= 1ull << q.second;
    for (int k = 0; k < g.n; ++k) for (int i = 0; i < g.n; ++i) if (m[i] >> k & 1) m[i] |= m[k];
    std::vector<int> idx(g.n, -1); for (std::size_t k = 0; k < c.size(); ++k) for (int v : c[k]) idx[v] = (int)k;
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) {
        if (idx[i] < 0 || idx[j] < 0) continue;
        const bool mutual = (m[i] >> j & 1) && (m[j] >> i & 1);
        if (mutual != (idx[i] == idx[j])) return cat("vertices ", i, " and ", j, mutual ? " are mutually reachable but in different components" : " are in one component but not mutually reachable");
        if ((m[i] >> j & 1) && idx[j] > idx[i]) return cat("vertex ", j, " is downstream of ", i, " but listed later");
    }
    return {};
}

} // namespace vf
