// Flow cases: generator, reference solution with error bounds, calls into the real library.
#pragma once
#include "common.hpp"
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <algorithm>
#include <limits>
#include <memory>

namespace vf {

using namespace Opm::FlowDiagnostics;
constexpr double CAP = 200.0 * 365.0 * 24.0 * 60.0 * 60.0;   // 200 years in seconds
constexpr double TOL_C = 1e-9;                                // specified accuracy in loops
constexpr double TOL_T = CAP / 1e12;

using Wells = std::map<std::string, std::map<int, double>>;

struct FlowCase {
    int n = 0;
    std::vector<int> conn;          // 2*E
    int np = 1;
    std::vector<double> flux;       // E*np
    std::vector<double> pv;
    Wells wells;
    std::string family;
    bool conserving = false;
    std::size_t E() const { return conn.size() / 2; }
    double total(std::size_t e) const
    { double t = 0.0; for (int p = 0; p < np; ++p) t += flux[e * np + p]; return t; }
};

inline std::string describe(const FlowCase& c)
{
    std::ostringstream o; o.precision(17);
    o << c.family << " n=" << c.n << " E=" << c.E() << " np=" << c.np;
    if (c.n <= 12 && c.E() <= 24) {
        o << " conn=[";
        for (std::size_t e = 0; e < c.E(); ++e) {
            o << (e ? " " : "") << c.conn[2*e] << ">" << c.conn[2*e+1] << ":";
            for (int p = 0; p < c.np; ++p) o << (p ? "," : "") << c.flux[e*c.np+p];
        }
        o << "] pv=["; for (double v : c.pv) o << v << " ";
        o << "] wells={";
        for (const auto& w : c.wells) { o << "'" << w.first << "':"; for (const auto& x : w.second) o << "(" << x.first << "," << x.second << ")"; o << " "; }
        o << "}";
    } else o << " wells=" << c.wells.size();
    return o.str();
}

inline std::uint64_t hashCase(const FlowCase& c)
{
    Digest d; d.i(c.n); for (int x : c.conn) d.i(x); for (double x : c.flux) d.d(x); for (double x : c.pv) d.d(x);
    for (const auto& w : c.wells) { d.s(w.first); d.map(w.second); }
    return d.h;
}

// ---------------------------------------------------------------- generator

struct GenOpt {
    bool acyclic = false;       // no loops
    bool loops = false;         // prefer loops
    bool conserve = false;      // mass-conserving only
    bool noCap = false;         // all travel times far below the cap
    bool wide = false;          // widely different magnitudes
    int  maxN = 1 << 30;
    bool big = false;           // one large case
    bool huge = false;          // more than 2^15 or 2^16 cells, no loops
};

inline std::string wellName(Rng& r, int k)
{
    static const char* base[] = { "I-1", "P-1", "I", "P1", "P10", "P 1", "INJ", "inj", "W\xC3\x98LL", "B-2H" };
    switch (r.i(0, 6)) {
    case 0: return base[r.i(0, 9)];
    case 1: return std::string(base[r.i(0, 9)]) + std::to_string(k);
    case 2: return std::string((std::size_t)r.i(14, 60), (char)('A' + r.i(0, 2))) + std::to_string(r.i(0, 3));
    case 3: { std::string s = "A"; s += '\0'; s += (char)('A' + r.i(0, 3)); return s; }
    case 4: return r.p(0.3) ? std::string() : std::string((std::size_t)r.i(1, 3), 'Z');
    case 5: return std::string("WELL_") + (char)(0x80 + r.i(0, 100));
    default: return (r.p(0.5) ? "I" : "P") + std::to_string(r.i(0, 20));
    }
}

inline std::vector<std::string> wellNames(Rng& r, int nw)
{
    std::set<std::string> s; std::vector<std::string> v;
    while ((int)v.size() < nw) { auto w = wellName(r, (int)v.size()); if (s.insert(w).second) v.push_back(w); }
    return v;
}

using Pairs = std::vector<std::pair<int, int>>;

inline Pairs topology(Rng& r, int& n, std::string& name)
{
    Pairs c;
    auto add = [&](int a, int b) { if (a != b) c.emplace_back(a, b); };
    switch (r.i(0, 9)) {
    case 0: name = "chain"; for (int i = 1; i < n; ++i) add(i - 1, i); break;
    case 1: case 2: {
        name = "grid2d";
        const int nx = std::max(1, (int)std::lround(std::sqrt((double)n) * r.u(0.5, 2.0))), ny = std::max(1, n / nx);
        n = std::max(2, nx * ny);
        if (nx * ny < 2) { add(0, 1); break; }
        for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
            const int k = j * nx + i; if (i + 1 < nx) add(k, k + 1); if (j + 1 < ny) add(k, k + nx);
        }
        break; }
    case 3: {
        name = "grid3d";
        const int nx = std::max(1, (int)std::lround(std::cbrt((double)n))), ny = std::max(1, nx - r.i(0, 1)), nz = std::max(1, n / (nx * ny));
        n = std::max(2, nx * ny * nz);
        if (nx * ny * nz < 2) { add(0, 1); break; }
        for (int l = 0; l < nz; ++l) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
            const int k = (l * ny + j) * nx + i;
            if (i + 1 < nx) add(k, k + 1); if (j + 1 < ny) add(k, k + nx); if (l + 1 < nz) add(k, k + nx * ny);
        }
        break; }
    case 4: case 5: {
        name = "random";
        const int E = r.i(1, std::max(1, (int)(n * r.u(0.7, 3.0))));
        for (int e = 0; e < E; ++e) add(r.i(0, n - 1), r.i(0, n - 1));
        if (c.empty()) add(0, 1);
        break; }
    case 6: name = "star"; { const int h = r.i(0, n - 1); for (int i = 0; i < n; ++i) add(h, i); } break;
    case 7: name = "tree"; for (int i = 1; i < n; ++i) add(r.i(std::max(0, i - 4), i - 1), i); break;
    case 8: name = "ring"; for (int i = 0; i < n; ++i) add(i, (i + 1) % n); if (n == 2) c.resize(1); break;
    default:
        if (n <= 12) { name = "complete"; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) add(i, j); }
        else { name = "islands"; for (int i = 1; i < n; ++i) if (i % 5) add(i - 1, i); if (n > 9) for (int k = 0; k < n / 8; ++k) { const int a = r.i(0, n - 1); add(a, std::min(n - 1, a + r.i(1, 3))); } }
    }
    // Non-neighbouring and repeated connections.
    if (r.p(0.3)) { const int m = r.i(1, 1 + n / 4); for (int k = 0; k < m; ++k) add(r.i(0, n - 1), r.i(0, n - 1)); }
    if (r.p(0.3)) { const int m = r.i(1, 1 + n / 4); for (int k = 0; k < m; ++k) { auto q = r.pick(c); if (r.p(0.5)) std::swap(q.first, q.second); c.push_back(q); } }
    if (c.empty()) add(0, 1);
    return c;
}

inline int pickSize(Rng& r, const GenOpt& o)
{
    int n;
    const double q = r.u();
    if (q < 0.60) n = r.i(2, 8);
    else if (q < 0.90) n = r.i(9, 40);
    else if (q < 0.985) n = r.i(41, 160);
    else n = r.i(161, 700);
    if (o.big) n = r.i(1100, 2600);
    if (o.huge) n = r.p(0.5) ? r.i(32700, 36000) : r.i(65500, 70000);
    return std::min(n, o.maxN);
}

struct Mag {
    int mode; double base;
    double operator()(Rng& r) const
    {
        switch (mode) {
        case 0: return base;
        case 1: return base * r.u(0.05, 1.0);
        case 2: return base * r.i(1, 4);
        case 3: return base * r.logu(-3, 3);
        case 4: return base * r.logu(-1, 1);
        case 6: return base * r.logu(-12, 12);
        default: return base * (double)r.i(1, 1 << 20) * 0x1.0p-20;
        }
    }
};

// Spread a total flux over phases such that sums in any order are exact.
inline void spread(Rng& r, double& t, int np, double* out)
{
    if (np == 1) { out[0] = t; return; }
    int ex = 0; double q = 1.0;
    if (t != 0.0) { std::frexp(t, &ex); q = std::ldexp(1.0, ex - 24); }
    long long m = std::llround(t / q);
    t = (double)m * q;
    const long long span = std::max<long long>(4, std::llabs(m));
    long long rest = m;
    for (int p = 0; p + 1 < np; ++p) {
        long long x;
        switch (r.i(0, 3)) { case 0: x = 0; break; case 1: x = r.range(-2 * span, 2 * span); break; default: x = m / np + r.range(-span / 8, span / 8); }
        out[p] = (double)x * q; rest -= x;
    }
    out[np - 1] = (double)rest * q;
    if (np > 1 && r.p(0.5)) std::swap(out[0], out[np - 1]);
}

inline FlowCase genFlow(Rng& r, GenOpt o = {})
{
    FlowCase c;
    int n = pickSize(r, o);
    std::string tname;
    Pairs P = topology(r, n, tname);
    c.n = n;
    const std::size_t E = P.size();
    std::vector<double> tot(E, 0.0);
    int fx;                               // flux family
    if (o.huge) fx = r.p(0.5) ? 0 : 4;
    else if (o.conserve) fx = 2;
    else if (o.acyclic) fx = r.p(0.5) ? 0 : 4;
    else if (o.loops) fx = r.p(0.5) ? 1 : (r.p(0.6) ? 3 : 2);
    else fx = r.i(0, 4);
    Mag mag;
    mag.mode = r.i(0, 5);
    mag.base = r.p(0.3) ? 1.0 : r.p(0.5) ? r.logu(-8, -1) : r.logu(-3, 4);
    if (o.wide || (fx == 4 && r.p(0.1) && n <= 12)) mag.mode = 6;
    const bool many = !o.huge && r.p(0.025);      // many wells or many perforations
    const int nw = o.huge ? r.i(1, 3) : r.p(0.04) ? 0 : many ? (n <= 60 && r.p(0.2) ? r.i(41, 300) : r.i(9, n > 100 ? 20 : 40)) : r.i(1, r.p(0.15) ? 8 : 4);
    auto names = wellNames(r, nw + 2);
    c.np = r.p(0.5) ? 1 : r.i(2, 4); if (r.p(0.02)) c.np = r.p(0.7) ? 8 : r.i(5, 40); if (o.huge && c.np > 2) c.np = 2;
    bool conserving = false;
    if (fx == 0 || fx == 4) {
        // loop-free: flow follows a potential
        std::vector<double> pot(n);
        if (r.p(0.3)) { for (int i = 0; i < n; ++i) pot[i] = -i; if (r.p(0.5)) for (auto& x : pot) x = -x; }
        else for (auto& x : pot) x = r.u(-1, 1);
        for (std::size_t e = 0; e < E; ++e) {
            const double d = pot[P[e].first] - pot[P[e].second];
            const double m = fx == 0 ? mag.base * std::fabs(d) * r.u(0.1, 1.0) : mag(r);
            tot[e] = d > 0 ? m : d < 0 ? -m : 0.0;
        }
        c.family = tname + (fx == 0 ? "/potential" : "/ordered");
    } else if (fx == 1) {
        for (auto& t : tot) t = (r.p(0.5) ? 1 : -1) * mag(r);
        c.family = tname + "/random";
    } else {
        // integer flows along paths from injection to production cells, and around loops: conserves mass exactly
        std::vector<std::vector<std::pair<int, int>>> adj(n);
        for (std::size_t e = 0; e < E; ++e) { adj[P[e].first].emplace_back(P[e].second, (int)e); adj[P[e].second].emplace_back(P[e].first, -(int)e - 1); }
        const double q = std::ldexp(1.0, r.p(0.4) ? 0 : r.i(-30, 6));
        auto push = [&](int a, int signedEdge, double rate) { (void)a; if (signedEdge >= 0) tot[signedEdge] += rate; else tot[-signedEdge - 1] -= rate; };
        const int npaths = (int)std::min<long long>(200, r.i(1, 4 + n / 3));
        std::map<std::string, int> dir;
        for (auto& w : names) dir[w] = r.i(0, 2);
        for (int k = 0; k < npaths; ++k) {
            const int a = r.i(0, n - 1);
            // random walk with loop erasure
            std::vector<std::pair<int, int>> path; std::vector<int> pos(n, -1); pos[a] = 0; int cur = a;
            const int steps = r.i(0, 2 * n + 2);
            for (int s = 0; s < steps && s < 400 && !adj[cur].empty(); ++s) {
                auto nx = r.pick(adj[cur]);
                if (pos[nx.first] >= 0) {
                    if (fx == 3 && r.p(0.5)) { // keep the loop as circulation
                        const double rate = q * r.i(1, r.p(0.3) ? 400 : 12);
                        for (std::size_t z = (std::size_t)pos[nx.first]; z < path.size(); ++z) push(0, path[z].second, rate);
                        push(cur, nx.second, rate);
                    }
                    while ((int)path.size() > pos[nx.first]) { pos[path.back().first] = -1; path.pop_back(); }
                    pos[nx.first] = (int)path.size(); cur = nx.first;
                } else { path.emplace_back(nx.first, nx.second); pos[nx.first] = (int)path.size(); cur = nx.first; }
            }
            const double rate = q * (r.p(0.2) ? r.i(1, 1 << 20) : r.i(1, 16));
            for (const auto& z : path) push(0, z.second, rate);
            std::string wi, wp;
            for (int t = 0; t < 20; ++t) { wi = r.pick(names); if (dir[wi] != 1) break; }
            for (int t = 0; t < 20; ++t) { wp = r.pick(names); if (dir[wp] != 0 && wp != wi) break; }
            c.wells[wi][a] += rate; c.wells[wp][cur] -= rate;
        }
        conserving = true;
        c.family = tname + (fx == 2 ? "/paths" : "/vortex");
        mag.base = q * 4;
    }
    if (conserving) {
        // Optionally break conservation by changing a few fluxes (compressible flow).
        if (!o.conserve && r.p(0.3)) { for (auto& t : tot) if (r.p(0.1)) t *= 2; conserving = false; }
    } else {
        if (r.p(0.15)) for (auto& t : tot) if (r.p(0.3)) t = 0.0;
        if (r.p(0.01)) for (auto& t : tot) t = 0.0;
        std::vector<int> special;
        { // cells without inflow are natural well cells
            std::vector<char> in(n, 0), out(n, 0);
            for (std::size_t e = 0; e < E; ++e) if (tot[e] != 0) { const bool f = tot[e] > 0; in[f ? P[e].second : P[e].first] = 1; out[f ? P[e].first : P[e].second] = 1; }
            for (int i = 0; i < n; ++i) if (!in[i] || !out[i]) special.push_back(i);
        }
        for (int w = 0; w < nw; ++w) {
            auto& W = c.wells[names[w]];
            const int np = many && r.p(0.3) ? r.i(7, 80) : o.huge && r.p(0.5) ? r.i(1, 3000) : r.i(1, r.p(0.2) ? 6 : 3), sgn = r.i(0, 2);
            for (int k = 0; k < np; ++k) {
                const int cell = (!special.empty() && r.p(0.6)) ? r.pick(special) : r.p(0.3) && n > 2 ? r.i(0, 1) : r.i(0, n - 1);
                double v = mag(r); if (r.p(0.05)) v = 0.0;
                if (sgn == 1 || (sgn == 2 && r.p(0.5))) v = -v;
                W[cell] = v;
            }
        }
        if (nw > 0 && r.p(0.35)) { // supply all cells without inflow, drain all without outflow
            std::vector<char> in(n, 0), out(n, 0);
            for (std::size_t e = 0; e < E; ++e) if (tot[e] != 0) { const bool f = tot[e] > 0; in[f ? P[e].second : P[e].first] = 1; out[f ? P[e].first : P[e].second] = 1; }
            for (int i = 0; i < n; ++i) { if (!in[i]) c.wells[names[r.i(0, nw - 1)]][i] = mag(r); else if (!out[i]) c.wells[names[r.i(0, nw - 1)]][i] = -mag(r); }
        }
    }
    c.conserving = conserving;
    // pore volumes: time scale of a cell
    const int tm = o.noCap ? r.i(0, 2) : r.i(0, 5);
    double ts; // typical cell residence time
    switch (tm) { case 0: ts = 1.0; break; case 1: ts = r.logu(-2, 3); break; case 2: ts = r.logu(3, 6.5); break;
                  case 3: ts = r.logu(6, 8); break; case 4: ts = r.logu(8, 10.5); break; default: ts = r.logu(0, 5); }
    const int pm = r.i(0, 3);
    c.pv.resize(n);
    const double zero = r.p(0.1) ? 0.15 : 0.0;
    for (auto& v : c.pv) {
        v = ts * mag.base;
        if (pm == 1) v *= r.u(0.2, 2.0); else if (pm == 2) v *= r.logu(-2, 2); else if (pm == 3) v *= r.i(1, 5);
        if (r.p(zero)) v = 0.0;
        if (!o.noCap && tm == 5 && r.p(0.1)) v *= 1e10;
    }
    // renumber, reorient, spread over phases
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
    if (r.p(0.5)) r.shuffle(perm);
    if (r.p(0.3)) for (std::size_t k = E; k > 1; --k) { const std::size_t z = (std::size_t)r.range(0, (long long)k - 1); std::swap(P[k-1], P[z]); std::swap(tot[k-1], tot[z]); }
    const bool flip = r.p(0.6);
    std::vector<double> pv2(n); for (int i = 0; i < n; ++i) pv2[perm[i]] = c.pv[i];
    c.pv.swap(pv2);
    Wells W2; for (auto& w : c.wells) for (auto& x : w.second) W2[w.first][perm[x.first]] = x.second;
    c.wells.swap(W2);
    c.flux.assign(E * c.np, 0.0);
    for (std::size_t e = 0; e < E; ++e) {
        auto q = P[e]; double t = tot[e];
        if (flip && r.p(0.5)) { std::swap(q.first, q.second); t = -t; }
        c.conn.push_back(perm[q.first]); c.conn.push_back(perm[q.second]);
        if (conserving && c.np > 1) { // integers times a power of two: exact as they are
            const double a = t * r.i(-2, 3); c.flux[e * c.np] = a; c.flux[e * c.np + 1] = t - a;
        } else spread(r, t, c.np, &c.flux[e * c.np]);
    }
    return c;
}

// ---------------------------------------------------------------- reference

struct Edge { int other; double f; };

struct RefFlow {
    int n = 0;
    std::vector<std::vector<Edge>> out, in;
    std::vector<double> Q, S, pv;
    std::vector<int> comp;                       // component of cell
    std::vector<std::vector<int>> comps;         // topological order (upstream first)
    bool loops = false, ambiguous = false, selfloop = false;

    RefFlow(const FlowCase& c, bool forward) : n(c.n), out(c.n), in(c.n), Q(c.n, 0.0), S(c.n, 0.0), pv(c.pv)
    {
        for (std::size_t e = 0; e < c.E(); ++e) {
            double t = c.total(e);
            if (t == 0.0) continue;
            int a = c.conn[2*e], b = c.conn[2*e+1];
            if (!forward) t = -t;
            if (t < 0) { std::swap(a, b); t = -t; }
            if (a == b) selfloop = true;
            out[a].push_back({ b, t }); in[b].push_back({ a, t });
        }
        for (const auto& w : c.wells) for (const auto& x : w.second) {
            const double v = forward ? x.second : -x.second;
            if (v > 0) S[x.first] += v;
        }
        for (int i = 0; i < n; ++i) {
            long double q = S[i];
            for (const auto& e : in[i]) q += e.f;
            Q[i] = (double)q;
            if (pv[i] > 0 && std::fabs(Q[i] * CAP / pv[i] - 1.0) < 1e-9) ambiguous = true;
        }
        kosaraju();
        for (const auto& k : comps) if (k.size() > 1) loops = true;
    }

    void kosaraju()
    {
        std::vector<int> order; order.reserve(n);
        std::vector<char> seen(n, 0);
        std::vector<std::pair<int, std::size_t>> st;
        for (int s = 0; s < n; ++s) {
            if (seen[s]) continue;
            seen[s] = 1; st.emplace_back(s, 0);
            while (!st.empty()) {
                const int v = st.back().first;
                if (st.back().second < out[v].size()) {
                    const int w = out[v][st.back().second++].other;
                    if (!seen[w]) { seen[w] = 1; st.emplace_back(w, 0); }
                } else { order.push_back(v); st.pop_back(); }
            }
        }
        comp.assign(n, -1);
        std::vector<int> q;
        for (int k = n - 1; k >= 0; --k) {
            const int s = order[k];
            if (comp[s] >= 0) continue;
            const int id = (int)comps.size(); comps.emplace_back();
            q.assign(1, s); comp[s] = id;
            while (!q.empty()) {
                const int v = q.back(); q.pop_back(); comps[id].push_back(v);
                for (const auto& e : in[v]) if (comp[e.other] < 0) { comp[e.other] = id; q.push_back(e.other); }
            }
        }
    }

    std::vector<char> reachable(const std::vector<double>& src) const
    {
        std::vector<char> r(n, 0); std::vector<int> q;
        for (int i = 0; i < n; ++i) if (src[i] > 0) { r[i] = 1; q.push_back(i); }
        while (!q.empty()) { const int v = q.back(); q.pop_back(); for (const auto& e : out[v]) if (!r[e.other]) { r[e.other] = 1; q.push_back(e.other); } }
        return r;
    }

    // Cells all of whose fluid comes from the sources.
    std::vector<char> supplied() const
    {
        std::vector<char> ok(n, 0);
        for (const auto& k : comps) {
            bool good = true, any = false;
            for (int v : k) {
                if (S[v] > 0) any = true;
                for (const auto& e : in[v]) if (comp[e.other] != comp[v]) { any = true; if (!ok[e.other]) good = false; }
            }
            for (int v : k) ok[v] = good && any;
        }
        return ok;
    }
};

struct RefSol {
    std::vector<char> reach;
    std::vector<long double> c, y, t;         // t: not limited to the cap, except cells that fill slowly
    std::vector<double> eC, eY, eT;           // bounds on the deviation of correct code
    double N = 1;                             // largest mean number of recirculation steps
    bool ok = true;                           // false: badly conditioned or underflow, do not use
    double sweeps = 1;                        // bound on the number of passes (C30)
    double workBound = 0;
    double T(int i) const { return (double)std::min<long double>(t[i], CAP); }
    bool exactCap(int i) const { return slow[i] || !reach[i]; }
    std::vector<char> slow;
};

// Solve A x = b for several right hand sides; dense LU with pivoting, long double.
inline bool denseSolve(std::vector<long double> A, int m, std::vector<std::vector<long double>*> bs)
{
    std::vector<int> p(m);
    for (int k = 0; k < m; ++k) {
        int best = k;
        for (int i = k + 1; i < m; ++i) if (std::fabs((double)A[i*m+k]) > std::fabs((double)A[best*m+k])) best = i;
        if (A[best*m+k] == 0) return false;
        if (best != k) { for (int j = 0; j < m; ++j) std::swap(A[k*m+j], A[best*m+j]); for (auto* b : bs) std::swap((*b)[k], (*b)[best]); }
        for (int i = k + 1; i < m; ++i) {
            const long double l = A[i*m+k] / A[k*m+k];
            if (l == 0) continue;
            for (int j = k; j < m; ++j) A[i*m+j] -= l * A[k*m+j];
            for (auto* b : bs) (*b)[i] -= l * (*b)[k];
        }
    }
    for (auto* b : bs) for (int k = m - 1; k >= 0; --k) {
        long double s = (*b)[k];
        for (int j = k + 1; j < m; ++j) s -= A[k*m+j] * (*b)[j];
        (*b)[k] = s / A[k*m+k];
    }
    return true;
}

inline RefSol refSolve(const RefFlow& F, const std::vector<double>& src, double maxWork = 3e7)
{
    RefSol R;
    const int n = F.n;
    const double eps = std::numeric_limits<double>::epsilon();
    R.reach = F.reachable(src);
    R.c.assign(n, 0); R.y.assign(n, 0); R.t.assign(n, CAP);
    R.eC.assign(n, 0); R.eY.assign(n, 0); R.eT.assign(n, 0); R.slow.assign(n, 0);
    for (int i = 0; i < n; ++i) R.slow[i] = F.Q[i] < F.pv[i] / CAP;
    std::vector<int> loc(n, -1);
    for (const auto& K : F.comps) {
        if (!R.reach[K[0]]) continue;
        const int m = (int)K.size();
        for (int a = 0; a < m; ++a) loc[K[a]] = a;
        struct In { int j; long double w; };
        std::vector<std::vector<In>> inner(m);
        std::vector<long double> bc(m), rel(m), ext_eC(m, 0), ext_y(m, 0), ext_eY(m, 0), wsum(m, 0);
        for (int a = 0; a < m; ++a) {
            const int v = K[a];
            const long double Q = F.Q[v];
            rel[a] = 4.0 * eps * (F.in[v].size() + 6.0);
            long double s = src[v];
            for (const auto& e : F.in[v]) {
                const long double w = (long double)e.f / Q;
                if (loc[e.other] >= 0 && F.comp[e.other] == F.comp[v]) { inner[a].push_back({ loc[e.other], w }); wsum[a] += w; }
                else { s += (long double)e.f * R.c[e.other]; ext_eC[a] += w * R.eC[e.other]; ext_y[a] += w * R.y[e.other]; ext_eY[a] += w * R.eY[e.other]; }
            }
            bc[a] = s / Q;
        }
        auto solveSys = [&](std::vector<std::vector<long double>*> rhs, const std::vector<char>* dirichlet) -> bool {
            if (m == 1 && inner[0].empty()) return true;
            if (m <= 110) {
                std::vector<long double> A((std::size_t)m * m, 0);
                for (int a = 0; a < m; ++a) { A[(std::size_t)a*m+a] = 1; if (dirichlet && (*dirichlet)[a]) continue; for (const auto& e : inner[a]) A[(std::size_t)a*m+e.j] -= e.w; }
                return denseSolve(std::move(A), m, rhs);
            }
            double size = m; for (const auto& q : inner) size += (double)q.size();
            const int most = (int)std::min(60000.0, 2e8 / size);
            for (auto* b : rhs) { // Gauss-Seidel from zero, to the last bit
                std::vector<long double> x(m, 0);
                bool conv = false;
                for (int it = 0; it < most && !conv; ++it) {
                    conv = true;
                    for (int aa = 0; aa < m; ++aa) {
                        const int a = (it & 1) ? m - 1 - aa : aa;
                        long double s = (*b)[a];
                        if (!(dirichlet && (*dirichlet)[a])) for (const auto& e : inner[a]) s += e.w * x[e.j];
                        if (std::fabs((double)(s - x[a])) > 1e-17 * std::fabs((double)s)) conv = false;
                        x[a] = s;
                    }
                }
                if (!conv) return false;
                b->swap(x);
            }
            return true;
        };
        std::vector<long double> C = bc, One(m, 1.0L);
        if (!solveSys({ &C, &One }, nullptr)) { R.ok = false; return R; }
        double N = 1; for (auto x : One) N = std::max(N, (double)x);
        R.N = std::max(R.N, N);
        for (int a = 0; a < m; ++a) if (!(C[a] > 1e-250L)) { R.ok = false; return R; }
        double work = 0; double sw = 1;
        if (m > 1) {
            long double cmin = 1; for (auto x : C) cmin = std::min(cmin, x);
            // age system: weights w_ij c_j / c_i
            std::vector<long double> g(m); for (int a = 0; a < m; ++a) g[a] = C[a];
            std::vector<char> none(m, 0);
            if (!solveSys({ &g }, nullptr)) { R.ok = false; return R; }
            double N2 = 1; for (int a = 0; a < m; ++a) N2 = std::max(N2, (double)(g[a] / C[a]));
            double edges = 0; for (const auto& q : inner) edges += (double)q.size();
            sw = m + 60.0 * (N + N2) + 100;
            work = sw * (m + edges);
            R.N = std::max(R.N, N2);
            if (!(work < maxWork)) { R.ok = false; return R; }
        }
        R.sweeps = std::max(R.sweeps, sw); R.workBound += work;
        std::vector<long double> eC(m);
        for (int a = 0; a < m; ++a) eC[a] = ext_eC[a] + (m > 1 ? 1.02L * TOL_C * wsum[a] : 0.0L) + rel[a] * C[a];
        if (!solveSys({ &eC }, nullptr)) { R.ok = false; return R; }
        std::vector<long double> Y(m), eY(m); std::vector<char> dir(m);
        for (int a = 0; a < m; ++a) {
            const int v = K[a]; dir[a] = R.slow[v];
            Y[a] = dir[a] ? C[a] * (long double)CAP : (long double)F.pv[v] * C[a] / F.Q[v] + ext_y[a];
        }
        if (!solveSys({ &Y }, &dir)) { R.ok = false; return R; }
        for (int a = 0; a < m; ++a) {
            const int v = K[a];
            if (dir[a]) { eY[a] = eC[a] * (long double)CAP; continue; }
            long double s = (long double)F.pv[v] * eC[a] / F.Q[v] + ext_eY[a] + rel[a] * Y[a];
            if (m > 1) for (const auto& e : inner[a]) s += 1.02L * e.w * (C[e.j] * TOL_T + (Y[e.j] / C[e.j]) * TOL_C);
            eY[a] = s;
        }
        if (!solveSys({ &eY }, &dir)) { R.ok = false; return R; }
        for (int a = 0; a < m; ++a) {
            const int v = K[a];
            R.c[v] = C[a]; R.y[v] = Y[a]; R.eC[v] = (double)eC[a]; R.eY[v] = (double)eY[a];
            const long double t = Y[a] / C[a];
            R.t[v] = dir[a] ? (long double)CAP : t;
            const long double den = C[a] - eC[a];
            R.eT[v] = den > 0.5L * C[a] ? (double)((eY[a] + t * eC[a]) / den + rel[a] * t) : std::numeric_limits<double>::infinity();
            if (dir[a]) R.eT[v] = 0;
        }
        for (int a = 0; a < m; ++a) loc[K[a]] = -1;
    }
    return R;
}

inline std::vector<double> wellSource(const FlowCase& c, const std::string& id, bool forward)
{
    std::vector<double> s(c.n, 0.0);
    const auto it = c.wells.find(id);
    if (it != c.wells.end()) for (const auto& x : it->second) { const double v = forward ? x.second : -x.second; if (v > 0) s[x.first] = v; }
    return s;
}

// ---------------------------------------------------------------- the real library

inline ConnectivityGraph libGraph(const FlowCase& c) { return ConnectivityGraph(c.n, c.conn); }
inline ConnectionValues libFlux(const FlowCase& c)
{
    ConnectionValues f(ConnectionValues::NumConnections{ c.E() }, ConnectionValues::NumPhases{ (std::size_t)c.np });
    for (std::size_t e = 0; e < c.E(); ++e) for (int p = 0; p < c.np; ++p)
        f(ConnectionValues::ConnID{ e }, ConnectionValues::PhaseID{ (std::size_t)p }) = c.flux[e * c.np + p];
    return f;
}
inline std::map<CellSetID, CellSetValues> libWells(const FlowCase& c)
{
    std::map<CellSetID, CellSetValues> w;
    for (const auto& x : c.wells) w[CellSetID(x.first)] = CellSetValues(x.second.begin(), x.second.end());
    return w;
}
inline void assignAll(Toolbox& t, const FlowCase& c)
{ t.assignPoreVolume(c.pv); t.assignConnectionFlux(libFlux(c)); t.assignInflowFlux(libWells(c)); }

// IDs with at least one rate of the direction's sign.
inline std::vector<std::string> activeWells(const FlowCase& c, bool forward)
{
    std::vector<std::string> v;
    for (const auto& w : c.wells) for (const auto& x : w.second) if (forward ? x.second > 0 : x.second < 0) { v.push_back(w.first); break; }
    return v;
}
inline CellSet startSet(const FlowCase& c, const std::string& id, bool forward)
{
    CellSet s{ CellSetID(id) };
    for (const auto& x : c.wells.at(id)) if (forward ? x.second > 0 : x.second < 0) s.insert(x.first);
    return s;
}
inline std::vector<CellSet> startSets(const FlowCase& c, const std::vector<std::string>& ids, bool forward)
{ std::vector<CellSet> v; for (const auto& i : ids) v.push_back(startSet(c, i, forward)); return v; }

struct LibOut {
    std::vector<double> g;
    std::vector<std::string> ids;
    std::map<std::string, CellSetValues> conc, tof;
};

inline LibOut grab(const Solution& s, const std::vector<std::string>& ids)
{
    LibOut o; o.g = s.timeOfFlight();
    for (const auto& i : s.startPoints()) o.ids.push_back(i.to_string());
    for (const auto& i : ids) { o.conc[i] = s.concentration(CellSetID(i)); o.tof[i] = s.timeOfFlight(CellSetID(i)); }
    return o;
}
inline LibOut compute(Toolbox& t, const FlowCase& c, bool forward, const std::vector<std::string>& ids)
{
    if (forward) { const auto f = t.computeInjectionDiagnostics(startSets(c, ids, true)); return grab(f.fd, ids); }
    const auto r = t.computeProductionDiagnostics(startSets(c, ids, false)); return grab(r.fd, ids);
}
inline LibOut runLib(const FlowCase& c, bool forward, const std::vector<std::string>& ids)
{ Toolbox t(libGraph(c)); assignAll(t, c); return compute(t, c, forward, ids); }

inline void digest(Digest& d, const LibOut& o)
{
    for (double x : o.g) d.d(x);
    for (const auto& i : o.ids) d.s(i);
    for (const auto& m : o.conc) { d.s(m.first); d.map(m.second); }
    for (const auto& m : o.tof) { d.s(m.first); d.map(m.second); }
}
inline std::string diffBits(const LibOut& a, const LibOut& b)
{
    if (a.g.size() != b.g.size()) return "global tof sizes differ";
    for (std::size_t i = 0; i < a.g.size(); ++i) if (!sameBits(a.g[i], b.g[i])) return cat("global tof of cell ", i, ": ", a.g[i], " vs ", b.g[i]);
    if (a.ids != b.ids) return "start points differ";
    auto mm = [](const std::map<std::string, CellSetValues>& x, const std::map<std::string, CellSetValues>& y, const char* w) -> std::string {
        if (x.size() != y.size()) return cat(w, ": number of IDs differs");
        for (const auto& e : x) {
            const auto q = y.find(e.first);
            if (q == y.end()) return cat(w, ": ID missing");
            if (e.second.size() != q->second.size()) return cat(w, " of '", e.first, "': number of cells ", e.second.size(), " vs ", q->second.size());
            auto i = e.second.begin(); auto j = q->second.begin();
            for (; i != e.second.end(); ++i, ++j) if (i->first != j->first || !sameBits(i->second, j->second)) return cat(w, " of '", e.first, "' in cell ", i->first, ": ", i->second, " vs ", j->second, " (cell ", j->first, ")");
        }
        return {};
    };
    auto s = mm(a.conc, b.conc, "concentration"); if (!s.empty()) return s;
    return mm(a.tof, b.tof, "tracer tof");
}

// One usable case: draws until the reference is well conditioned for the wells wanted.
struct Solved {
    FlowCase c; bool forward = true;
    std::unique_ptr<RefFlow> F; RefSol glob; std::vector<std::string> ids; std::map<std::string, RefSol> loc;
};
inline bool solveRef(Solved& s, bool withLocal = true)
{
    s.F.reset(new RefFlow(s.c, s.forward));
    if (s.F->ambiguous || s.F->selfloop) return false;
    s.glob = refSolve(*s.F, s.F->S);
    if (!s.glob.ok) return false;
    s.ids = activeWells(s.c, s.forward);
    s.loc.clear();
    if (withLocal) for (const auto& i : s.ids) { auto r = refSolve(*s.F, wellSource(s.c, i, s.forward)); if (!r.ok) return false; s.loc[i] = std::move(r); }
    return true;
}

} // namespace vf
