// C11-C13: derived curves.  C22-C25: containers and random vectors.
#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/utility/numeric/RandomVector.hpp>
namespace vf {

// ------------------------------------------------------------------ F-Phi

struct Cells { std::vector<double> a, b, pv; double frac = 1.0; std::vector<char> cut; std::string name; bool exact = false; };

static std::string text(const Cells& c)
{
    std::ostringstream o; o.precision(17); o << c.name << " n=" << c.pv.size() << " fraction=" << c.frac;
    if (c.pv.size() <= 12) for (std::size_t i = 0; i < c.pv.size(); ++i) o << " (" << c.a[i] << "+" << c.b[i] << "," << c.pv[i] << ")";
    return o.str();
}
static std::uint64_t hash(const Cells& c) { Digest d; for (double q : c.a) d.d(q); for (double q : c.b) d.d(q); for (double q : c.pv) d.d(q); d.d(c.frac); return d.h; }

// Usable: some kept cell with volume, no cell so near the limit that rounding decides.
static bool prepare(Cells& c)
{
    long double tot = 0; for (double v : c.pv) tot += v;
    const long double lim = c.frac * tot; bool any = false; c.cut.assign(c.pv.size(), 0);
    for (std::size_t i = 0; i < c.pv.size(); ++i) {
        if (!c.exact && c.pv[i] > 0 && !(c.pv.size() == 1 && c.frac == 1.0) && std::fabs((double)(c.pv[i] / lim - 1)) < 1e-9) return false;
        c.cut[i] = c.pv[i] > lim; if (!c.cut[i] && c.pv[i] > 0) any = true;
    }
    return any;
}

static Cells genCells(Rng& r)
{
    for (;;) {
        Cells c; const int n = r.p(0.1) ? 1 : r.p(0.6) ? r.i(2, 8) : r.p(0.9) ? r.i(9, 60) : r.p(0.98) ? r.i(61, 800) : r.p(0.7) ? r.i(1000, 9000) : r.i(32000, 70000);
        const int tm = r.i(0, 6), vm = r.i(0, 4); const double ts = r.p(0.3) ? 1.0 : r.logu(-3, 9), vs = r.p(0.3) ? 1.0 : r.p(0.8) ? r.logu(-3, 6) : r.logu(-15, 15);
        std::vector<double> pool; for (int k = 0; k < 3; ++k) pool.push_back(ts * r.i(1, 8));
        for (int i = 0; i < n; ++i) {
            double t;
            switch (tm) { case 0: t = ts; break; case 1: t = r.pick(pool); break; case 2: t = ts * r.u(0.01, 1); break; case 3: t = ts * r.logu(-4, 4); break; case 4: t = ts * (i + 1); break; case 5: t = ts * (n - i); break; default: t = r.p(0.4) ? 2 * CAP : ts * r.u(0.1, 1); }
            double a; switch (r.i(0, 3)) { case 0: a = 0; break; case 1: a = t; break; case 2: a = t / 2; break; default: a = t * r.u(); }
            if (tm <= 1) a = r.p(0.5) ? t / 2 : r.p(0.5) ? t / 4 : t;          // exact sums, so that ties are ties
            c.a.push_back(a); c.b.push_back(t - a);
            double v; switch (vm) { case 0: v = vs; break; case 1: v = vs * r.u(0.1, 2); break; case 2: v = vs * r.logu(-3, 3); break; case 3: v = vs * r.i(1, 5); break; default: v = r.p(0.2) ? 0.0 : vs * r.i(1, 3); }
            c.pv.push_back(v);
        }
        if (r.p(0.3)) c.frac = r.p(0.5) ? r.u(0.02, 1) : r.u(0.9, 1.0) * (1.0 / n) * r.i(1, 3);
        if (r.p(0.05)) c.frac = r.u(1.0, 3.0);
        if (n > 1 && n < 2000 && r.p(0.12)) { // a cell at exactly the limit: all sums and products are exact
            const int sh = r.i(-20, 20); long sum = 0; std::vector<long> v(n); for (int i = 0; i + 1 < n; ++i) { v[i] = r.i(r.p(0.2) ? 0 : 1, r.p(0.5) ? 3 : 60); sum += v[i]; }
            long all = 2; while (all <= sum) all *= 2; v[n - 1] = all - sum; if (r.p(0.5)) r.shuffle(v);
            for (int i = 0; i < n; ++i) c.pv[i] = std::ldexp((double)v[i], sh);
            const long pick = r.pick(v); if (pick > 0) { c.frac = (double)pick / (double)all; c.exact = true; }
        }
        c.name = cat("times", tm, c.exact ? " exact" : "", " volumes", vm);
        if (prepare(c)) return c;
    }
}

// the curve in extended precision: sorted by time, filtered cells last
struct RefCurve { std::vector<long double> phi, F; std::vector<double> t; std::size_t kept = 0; long double V = 0, Q = 0; };
static RefCurve refCurve(const Cells& c)
{
    RefCurve R; std::vector<std::pair<double, double>> z;
    for (std::size_t i = 0; i < c.pv.size(); ++i) if (!c.cut[i]) z.emplace_back(c.a[i] + c.b[i], c.pv[i]);
    std::sort(z.begin(), z.end()); R.kept = z.size();
    R.phi.push_back(0); R.F.push_back(0); R.t.push_back(0);
    for (auto& q : z) { R.V += q.second; R.Q += (long double)q.second / q.first; R.phi.push_back(R.V); R.F.push_back(R.Q); R.t.push_back(q.first); }
    for (auto& q : R.phi) q /= R.V; for (auto& q : R.F) q /= R.Q;
    return R;
}

static Solution solutionOf(std::vector<double> t) { Solution s; s.assignGlobalToF(std::move(t)); return s; }

static void c11(Ctx& x, Rng& r)
{
    Cells c = genCells(r); const std::size_t n = c.pv.size();
    const auto a0 = c.a, b0 = c.b, p0 = c.pv;
    const bool dflt = c.frac == 1.0 && r.p(0.5);
    const auto g = dflt ? flowCapacityStorageCapacityCurve(c.a, c.b, c.pv) : flowCapacityStorageCapacityCurve(c.a, c.b, c.pv, c.frac);
    if (c.a != a0 || c.b != b0 || c.pv != p0) { x.fail("input-changed", "input changed"); return; }
    for (double q : g.first) x.dig.d(q); for (double q : g.second) x.dig.d(q);
    x.count("curves"); x.count("cells", n);
    const auto& P = g.first; const auto& F = g.second;
    if (P.size() != n + 1 || F.size() != n + 1) { x.fail("size", cat("curve has ", P.size(), "/", F.size(), " points for ", n, " cells; ", text(c))); return; }
    if (P[0] != 0 || F[0] != 0 || !(std::fabs(P[n] - 1) <= 5e-16) || !(std::fabs(F[n] - 1) <= 5e-16)) { x.fail("ends", cat("curve runs from (", P[0], ",", F[0], ") to (", P[n], ",", F[n], "); ", text(c))); return; }
    for (std::size_t k = 0; k < n; ++k) if (!(P[k + 1] >= P[k]) || !(F[k + 1] >= F[k])) { x.fail("monotone", cat("curve decreases at point ", k + 1, "; ", text(c))); return; }
    const auto R = refCurve(c); const double tol = 4e-16 * ((double)n + 8);
    if (R.kept < n) x.count("curves_with_filtered_cells");
    // values at the ends of groups of equal travel time; in between the order of equal times is free,
    // but the points lie on the same straight line
    std::size_t g0 = 0; bool ties = false;
    for (std::size_t k = 1; k <= R.kept; ++k) {
        if (k < R.kept && R.t[k + 1] == R.t[k]) { ties = true; continue; }
        if (std::fabs((double)(P[k] - R.phi[k])) > tol || std::fabs((double)(F[k] - R.F[k])) > tol)
            { x.fail("value", cat("point ", k, " is (", P[k], ",", F[k], "), expected (", (double)R.phi[k], ",", (double)R.F[k], "); ", text(c))); return; }
        const long double dp = R.phi[k] - R.phi[g0], df = R.F[k] - R.F[g0];
        for (std::size_t z = g0 + 1; z < k; ++z) {
            const double off = (double)(((long double)P[z] - R.phi[g0]) * df - ((long double)F[z] - R.F[g0]) * dp);
            if (std::fabs(off) > tol * (double)(dp + df)) { x.fail("tie", cat("point ", z, " among equal travel times is off the straight line; ", text(c))); return; }
        }
        g0 = k;
    }
    for (std::size_t k = R.kept; k <= n; ++k) if (std::fabs(P[k] - 1) > tol || std::fabs(F[k] - 1) > tol) { x.fail("filtered", cat("point ", k, " of the filtered cells is (", P[k], ",", F[k], "); ", text(c))); return; }
    if (ties) x.count("curves_with_ties");
    if (n > 1) x.nontrivial(hash(c));
    x.sample([&] { return text(c); });
    { // order of cells
        Cells d = c; std::vector<int> p(n); for (std::size_t i = 0; i < n; ++i) p[i] = (int)i; r.shuffle(p);
        for (std::size_t i = 0; i < n; ++i) { d.a[i] = c.a[p[i]]; d.b[i] = c.b[p[i]]; d.pv[i] = c.pv[p[i]]; }
        const auto h = flowCapacityStorageCapacityCurve(d.a, d.b, d.pv, d.frac); x.count("permutations");
        for (std::size_t k = 0; k <= n; ++k) if (!(std::fabs(h.first[k] - P[k]) <= tol && std::fabs(h.second[k] - F[k]) <= tol)) { x.fail("cell-order", cat("point ", k, " depends on the order of the cells; ", text(c))); return; }
    }
    { // overload taking solutions
        const Toolbox::Forward fw{ solutionOf(c.a) }; const Toolbox::Reverse rv{ solutionOf(c.b) };
        const auto h = dflt ? flowCapacityStorageCapacityCurve(fw, rv, c.pv) : flowCapacityStorageCapacityCurve(fw, rv, c.pv, c.frac); x.count("overloads");
        if (h != g) { x.fail("overload", cat("the two overloads differ; ", text(c))); return; }
        for (int k = 0; k < 3; ++k) { // different sizes
            auto a = c.a, b = c.b, v = c.pv; auto& w = k == 0 ? a : k == 1 ? b : v; if (r.p(0.5)) w.push_back(1.0); else w.pop_back();
            int thrown = 0; try { (void)flowCapacityStorageCapacityCurve(a, b, v, c.frac); } catch (const std::runtime_error&) { ++thrown; }
            const Toolbox::Forward f2{ solutionOf(a) }; const Toolbox::Reverse r2{ solutionOf(b) };
            try { (void)flowCapacityStorageCapacityCurve(f2, r2, v, c.frac); } catch (const std::runtime_error&) { ++thrown; }
            x.count("rejections", 2);
            if (thrown != 2) { x.fail("reject", cat("fields of different sizes were accepted; ", text(c))); return; }
        }
    }
}
static Reg r11("C11", c11);

static Graph curveOf(const Cells& c) { return flowCapacityStorageCapacityCurve(c.a, c.b, c.pv, c.frac); }

// A curve not made by the library: from (0,0) to (1,1), neither coordinate decreasing
static Graph anyCurve(Rng& r)
{
    const int n = r.i(1, r.p(0.8) ? 8 : r.p(0.99) ? 200 : 70000); std::vector<double> p(n + 1), f(n + 1);
    for (int k = 1; k < n; ++k) { p[k] = r.p(0.2) ? r.i(0, 8) / 8.0 : r.u(); f[k] = r.p(0.2) ? r.i(0, 8) / 8.0 : r.u(); }
    p[0] = f[0] = 0; p[n] = f[n] = 1; std::sort(p.begin(), p.end()); std::sort(f.begin(), f.end());
    return { p, f };
}
static std::string text(const Graph& g)
{ std::ostringstream o; o.precision(17); o << g.first.size() << " points"; if (g.first.size() <= 12 && g.second.size() == g.first.size()) for (std::size_t k = 0; k < g.first.size(); ++k) o << " (" << g.first[k] << "," << g.second[k] << ")"; return o.str(); }

// Twice the area between the piecewise linear curve and the diagonal: sum of signed triangles (shoelace),
// which for curves on one side of the diagonal is the area.
static double refLorenz(const Graph& g)
{
    long double s = 0;
    for (std::size_t k = 0; k + 1 < g.first.size(); ++k) s += (long double)g.first[k + 1] * g.second[k] - (long double)g.first[k] * g.second[k + 1];
    return (double)s;
}

static void c12(Ctx& x, Rng& r)
{
    const bool own = r.p(0.7); Cells c; Graph g;
    if (own) { c = genCells(r); g = curveOf(c); }
    else { g = anyCurve(r); if (r.p(0.7)) for (std::size_t k = 0; k < g.first.size(); ++k) if (g.first[k] > g.second[k]) std::swap(g.first[k], g.second[k]); }
    const auto g0 = g;
    const double L = lorenzCoefficient(g); x.dig.d(L);
    x.count(own ? "curves_from_cells" : "curves_given"); x.count("points", g.first.size());
    if (g != g0) { x.fail("input-changed", "input changed"); return; }
    const double tol = 1e-15 * (double)(g.first.size() + 8), e = refLorenz(g);
    { Digest h; for (double q : g.first) h.d(q); for (double q : g.second) h.d(q); if (g.first.size() > 2) x.nontrivial(h.h); }
    x.sample([&] { return cat("L=", L, " ", text(g)); });
    if (!(std::fabs(L - e) <= tol)) { x.fail("area", cat("coefficient ", L, ", twice the area is ", e, "; ", text(g))); return; }
    if (own) {
        if (!(L >= -tol && L <= 1 + tol)) { x.fail("range", cat("coefficient ", L, "; ", text(c))); return; }
        bool equal = true; double t0 = -1; for (std::size_t i = 0; i < c.pv.size(); ++i) { if (c.cut[i] || c.pv[i] == 0) continue; const double t = c.a[i] + c.b[i]; if (t0 < 0) t0 = t; else if (t != t0) equal = false; }
        if (equal) { x.count("equal_times"); if (std::fabs(L) > tol) { x.fail("homogeneous", cat("coefficient ", L, " for equal travel times; ", text(c))); return; } }
        { Cells d = c; const double s = std::ldexp(1.0, r.i(-20, 20)), v = std::ldexp(1.0, r.i(-20, 20)); for (auto& q : d.a) q *= s; for (auto& q : d.b) q *= s; for (auto& q : d.pv) q *= v;
          const double M = lorenzCoefficient(curveOf(d)); x.count("scalings"); if (std::fabs(M - L) > 2 * tol) { x.fail("scaling", cat("coefficient ", L, " becomes ", M, " when scaled; ", text(c))); return; } }
        if (c.frac >= 1.0) { // without a limit on volumes, splitting cells changes nothing
            Cells d; d.frac = c.frac; for (std::size_t i = 0; i < c.pv.size(); ++i) { const int m = r.p(0.5) ? 1 : r.p(0.5) ? 2 : 4; for (int k = 0; k < m; ++k) { d.a.push_back(c.a[i]); d.b.push_back(c.b[i]); d.pv.push_back(c.pv[i] / m); } }
            if (d.pv.size() > 1 || d.frac != 1.0) { const double M = lorenzCoefficient(curveOf(d)); x.count("splittings"); if (std::fabs(M - L) > 3 * tol + 1e-15 * (double)d.pv.size()) { x.fail("splitting", cat("coefficient ", L, " becomes ", M, " when cells are split; ", text(c))); return; } }
        }
    }
    Graph b = g; auto& w = r.p(0.5) ? b.first : b.second; if (r.p(0.5)) w.pop_back(); else w.push_back(1.0); if (r.p(0.1)) w.clear();
    bool thrown = false; try { (void)lorenzCoefficient(b); } catch (const std::runtime_error&) { thrown = true; }
    x.count("rejections"); if (!thrown) x.fail("reject", "curve of inconsistent sizes was accepted");
}
static Reg r12("C12", c12);

static void c13(Ctx& x, Rng& r)
{
    const bool own = r.p(0.7); Cells c; Graph g;
    if (own) { c = genCells(r); g = curveOf(c); } else g = anyCurve(r);
    const auto g0 = g; const auto s = sweepEfficiency(g);
    for (double q : s.first) x.dig.d(q); for (double q : s.second) x.dig.d(q);
    x.count(own ? "curves_from_cells" : "curves_given");
    if (g != g0) { x.fail("input-changed", "input changed"); return; }
    if (s.first.size() != s.second.size() || s.first.empty()) { x.fail("size", "time and efficiency have different sizes"); return; }
    if (s.first[0] != 0 || s.second[0] != 0) { x.fail("start", "curve does not start at (0,0)"); return; }
    std::size_t k = 1; const double U = 2.3e-16;
    double tPrev = 0, ePrev = 0, tolPrev = 0, tolTPrev = 0; bool any = false;
    for (std::size_t i = 1; i < g.first.size(); ++i) {
        const double fd = g.second[i] - g.second[i - 1], sd = g.first[i] - g.first[i - 1];
        if (!(g.second[i] > g.second[i - 1])) { if (sd > 0) x.count("steps_without_flow"); continue; }
        if (k >= s.first.size()) { x.fail("size", cat("only ", s.first.size() - 1, " points; ", text(g))); return; }
        const double t = s.first[k], e = s.second[k]; const double tr = sd / fd; // differences of close doubles are exact or rounded once
        const double te = g.first[i] + (1 - g.second[i]) * tr; x.count("steps"); any = true;
        if (!(std::fabs(t - tr) <= 4 * U * tr) || !(std::fabs(e - te) <= 6 * U * (te + 1 + tr))) { x.fail("value", cat("step ", i, " gives (", t, ",", e, "), expected (", tr, ",", te, "); ", text(g))); return; }
        if (own) {
            // rounding of the curve itself: differences of numbers of size one
            const double n = (double)g.first.size(), rt = (n + 8) * 2 * U * (1 / fd) * (1 + tr), re = rt * (1 - g.second[i]) + (n + 8) * 2 * U * (1 + tr);
            if (rt < 1e-4 * tr + 1e-300) { // below that, the step itself is rounding
                x.count("steps_with_known_slope");
                if (t < tPrev - rt - tolTPrev) { x.fail("time-decreases", cat("time decreases from ", tPrev, " to ", t, " at step ", i, "; ", text(c))); return; }
                if (e < ePrev - re - tolPrev) { x.fail("efficiency-decreases", cat("efficiency decreases from ", ePrev, " to ", e, " at step ", i, "; ", text(c))); return; }
                if (e > 1 + re) { x.fail("efficiency-above-one", cat("efficiency ", e, " at step ", i, "; ", text(c))); return; }
                if (e > t + re + rt) { x.fail("efficiency-above-time", cat("efficiency ", e, " above time ", t, " at step ", i, "; ", text(c))); return; }
                tPrev = t; ePrev = e; tolPrev = re; tolTPrev = rt;
            }
        }
        ++k;
    }
    if (k != s.first.size()) { x.fail("size", cat(s.first.size(), " points, expected ", k, "; ", text(g))); return; }
    { Digest h; for (double q : g.first) h.d(q); for (double q : g.second) h.d(q); if (any && g.first.size() > 2) x.nontrivial(h.h); }
    x.sample([&] { return text(g); });
    Graph b = g; auto& w = r.p(0.5) ? b.first : b.second; if (r.p(0.5)) w.pop_back(); else w.push_back(1.0);
    bool thrown = false; try { (void)sweepEfficiency(b); } catch (const std::runtime_error&) { thrown = true; }
    x.count("rejections"); if (!thrown) x.fail("reject", "curve of inconsistent sizes was accepted");
}
static Reg r13("C13", c13);

// ------------------------------------------------------------------ Solution

struct MSol { std::map<std::string, std::map<int, double>> c, t; std::vector<double> g; bool moved = false; };

static double anyDouble(Rng& r)
{
    switch (r.i(0, 7)) { case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity(); case 3: return std::numeric_limits<double>::denorm_min();
    case 4: { std::uint64_t b = r.next(); double d; std::memcpy(&d, &b, 8); return d == d ? d : 1.0; } case 5: return CAP; default: return r.u(-1, 1) * r.logu(-9, 9); }
}
static bool same(const CellSetValues& a, const std::map<int, double>& m)
{
    if (a.size() != m.size()) return false;
    for (const auto& q : m) { const auto i = a.find(q.first); if (i == a.end() || !sameBits(i->second, q.second)) return false; }
    return true;
}
static std::string compare(const Solution& s, const MSol& m, const std::vector<std::string>& names)
{
    if (s.timeOfFlight().size() != m.g.size()) return "global field has wrong size";
    for (std::size_t i = 0; i < m.g.size(); ++i) if (!sameBits(s.timeOfFlight()[i], m.g[i])) return "global field differs";
    const auto sp = s.startPoints(); if (sp.size() != m.c.size()) return cat(sp.size(), " start points, expected ", m.c.size());
    auto it = m.c.begin(); for (const auto& q : sp) { if (q.to_string() != it->first) return cat("start point '", q.to_string(), "', expected '", it->first, "'"); ++it; }
    static const std::map<int, double> none;
    for (const auto& n : names) {
        const auto a = m.c.find(n), b = m.t.find(n);
        if (!same(s.concentration(CellSetID(n)), a == m.c.end() ? none : a->second)) return cat("concentration of '", n, "' differs");
        if (!same(s.timeOfFlight(CellSetID(n)), b == m.t.end() ? none : b->second)) return cat("time-of-flight of '", n, "' differs");
    }
    return {};
}

static void c22(Ctx& x, Rng& r)
{
    const bool large = r.p(0.004); const auto names = wellNames(r, large && r.p(0.5) ? r.i(7, 60) : r.i(2, 6));
    std::vector<std::unique_ptr<Solution>> S; std::vector<MSol> M; S.emplace_back(new Solution); M.emplace_back();
    std::string tr; Digest h; const int ops = r.i(3, large ? 12 : 25);
    auto vals = [&] { std::map<int, double> m; const int n = r.p(0.1) ? 0 : large && r.p(0.2) ? (r.p(0.05) ? r.i(66000, 140000) : r.i(1000, 5000)) : r.i(1, 12), top = large ? 1000000 : 40; for (int i = 0; i < n; ++i) m[r.p(0.05) ? (r.p(0.5) ? INT32_MAX : 0) : r.i(0, top)] = anyDouble(r); return m; };
    for (int k = 0; k < ops; ++k) {
        const int z = r.i(0, (int)S.size() - 1); const auto id = r.pick(names);
        switch (r.i(0, 8)) {
        case 0: case 1: { auto m = vals(); Solution::TracerConcentration c; c.data = CellSetValues(m.begin(), m.end()); S[z]->assign(CellSetID(id), std::move(c)); M[z].c[id] = m; tr += cat(" conc", z, ";"); x.count("assign_concentration"); break; }
        case 2: case 3: { auto m = vals(); Solution::TimeOfFlight c; c.data = CellSetValues(m.begin(), m.end()); S[z]->assign(CellSetID(id), std::move(c)); M[z].t[id] = m; tr += cat(" tof", z, ";"); x.count("assign_tof"); break; }
        case 4: { std::vector<double> g((std::size_t)r.i(0, large && r.p(0.3) ? 70000 : 20)); for (auto& q : g) q = anyDouble(r); M[z].g = g; S[z]->assignGlobalToF(std::move(g)); tr += cat(" global", z, ";"); x.count("assign_global"); break; }
        case 5: case 6: if (S.size() < 5) { S.emplace_back(new Solution(*S[z])); M.push_back(M[z]); tr += cat(" copy", z, ";"); x.count("copies"); } break;
        case 7: { std::unique_ptr<Solution> n(new Solution(std::move(*S[z]))); S[z] = std::move(n); tr += cat(" move", z, ";"); x.count("moves"); break; }
        default: if (S.size() > 1) { S.erase(S.begin() + z); M.erase(M.begin() + z); tr += cat(" destroy", z, ";"); x.count("destroyed"); }
        }
        for (std::size_t q = 0; q < S.size(); ++q) { x.count("comparisons"); const auto e = compare(*S[q], M[q], names); if (!e.empty()) { x.fail("solution", cat("object ", q, ": ", e, " after", tr)); return; } }
    }
    h.s(tr); for (auto& n : names) h.s(n); x.dig.u64(h.h); x.nontrivial(h.h); x.sample([&] { return tr; });
}
static Reg r22("C22", c22);

// ------------------------------------------------------------------ cell sets

static std::string anyText(Rng& r)
{
    std::string s; const int n = r.p(0.1) ? 0 : r.p(0.7) ? r.i(1, 4) : r.p(0.995) ? r.i(5, 80) : r.i(200, 5000); const int mode = r.i(0, 2);
    for (int i = 0; i < n; ++i) s += mode == 0 ? (char)('A' + r.i(0, 1)) : mode == 1 ? (char)r.i(0, 255) : (r.p(0.2) ? '\0' : (char)('a' + r.i(0, 2)));
    return s;
}

static void c23(Ctx& x, Rng& r)
{
    std::vector<std::string> t; const int n = r.i(2, 9); for (int i = 0; i < n; ++i) t.push_back(i > 0 && r.p(0.2) ? r.pick(t) : i > 0 && r.p(0.2) ? r.pick(t) + anyText(r) : anyText(r));
    std::vector<CellSetID> id; for (auto& s : t) id.emplace_back(s);
    if (!CellSetID().to_string().empty()) { x.fail("default-id", "the default ID is not empty"); return; }
    Digest h;
    for (int i = 0; i < n; ++i) {
        h.s(t[i]);
        if (id[i].to_string() != t[i]) { x.fail("id-text", cat("ID returns '", id[i].to_string(), "' for '", t[i], "'")); return; }
        for (int j = 0; j < n; ++j) { x.count("orders_compared"); if ((id[i] < id[j]) != (t[i] < t[j])) { x.fail("id-order", cat("order of '", t[i], "' and '", t[j], "' is wrong")); return; } }
    }
    { std::map<CellSetID, int> m; std::set<std::string> u(t.begin(), t.end()); for (int i = 0; i < n; ++i) m[id[i]] = i; if (m.size() != u.size()) { x.fail("id-equivalence", "different texts share a map entry or equal texts do not"); return; } auto it = u.begin(); for (auto& q : m) if (q.first.to_string() != *it++) { x.fail("id-order", "map is not in text order"); return; } }
    { CellSetID cp = id[0], as; as = id[1]; id[0] = CellSetID("changed"); if (cp.to_string() != t[0] || as.to_string() != t[1]) { x.fail("id-copy", "copy of an ID changed"); return; } id[0] = cp; }
    // sets
    std::vector<std::unique_ptr<CellSet>> S; std::vector<std::set<int>> M; std::vector<std::string> I; std::string tr;
    auto cell = [&] { return r.p(0.05) ? (r.p(0.5) ? INT32_MAX : INT32_MIN) : r.p(0.8) ? r.i(0, 12) : r.i(-3, 1000000); };
    const int ops = r.i(1, 30);
    for (int k = 0; k < ops; ++k) {
        const int z = S.empty() ? 0 : r.i(0, (int)S.size() - 1);
        const int op = S.empty() ? 0 : r.i(0, 9);
        if (op <= 1) {
            const auto& name = r.pick(t); std::vector<int> v((std::size_t)(r.p(0.2) ? 0 : r.i(1, r.p(0.9) ? 10 : r.p(0.99) ? 300 : 20000))); for (auto& q : v) q = cell();
            if (v.empty() && r.p(0.5)) S.emplace_back(new CellSet(CellSetID(name))); else { const auto v0 = v; S.emplace_back(new CellSet(CellSetID(name), v)); if (v != v0) { x.fail("input-changed", "input changed"); return; } }
            M.emplace_back(v.begin(), v.end()); I.push_back(name); tr += " new"; x.count("constructed");
        } else if (op == 2 && S.size() < 6) { S.emplace_back(new CellSet(*S[z])); M.push_back(M[z]); I.push_back(I[z]); tr += " copy"; x.count("copied"); }
        else if (op == 3 && S.size() > 1) { const int q = r.i(0, (int)S.size() - 1); *S[q] = *S[z]; M[q] = M[z]; I[q] = I[z]; tr += " assign"; x.count("assigned"); }
        else if (r.p(0.0005)) { const int m = r.i(1000, 70000), a = r.i(-50, 50); for (int q = 0; q < m; ++q) { S[z]->insert(a + q); M[z].insert(a + q); } tr += " insert-many"; x.count("inserted", m); }
        else { const int c = cell(); S[z]->insert(c); M[z].insert(c); tr += " insert"; x.count("inserted"); }
    }
    for (std::size_t q = 0; q < S.size(); ++q) {
        std::multiset<int> got; for (int c : *S[q]) got.insert(c);
        x.count("sets_compared");
        if (got != std::multiset<int>(M[q].begin(), M[q].end())) { x.fail("set", cat("set has ", got.size(), " cells, expected ", M[q].size(), " after", tr)); return; }
        if (S[q]->id().to_string() != I[q]) { x.fail("set-id", "set has another ID"); return; }
        for (int c : got) { h.i(c); }
    }
    x.dig.u64(h.h); x.nontrivial(h.h); x.sample([&] { return cat("IDs '", t[0], "', '", t[1], "'; ", tr); });
}
static Reg r23("C23", c23);

// ------------------------------------------------------------------ tables and values

static void c24(Ctx& x, Rng& r)
{
    Digest h;
    { // graph
        const bool large = r.p(0.002); const int n = r.p(0.1) ? 0 : large ? r.i(30000, 5000000) : r.i(1, r.p(0.8) ? 9 : 2000); const std::size_t E = n == 0 || r.p(0.1) ? 0 : (std::size_t)r.i(1, large ? (r.p(0.3) ? 200000 : 70000) : r.p(0.8) ? 12 : 500);
        std::vector<int> t; for (std::size_t k = 0; k < 2 * E; ++k) t.push_back(r.p(0.2) ? (r.p(0.5) ? n - 1 : 0) : r.i(0, n - 1));
        const auto t0 = t; h.i(n); for (int q : t) h.i(q);
        const ConnectivityGraph g = r.p(0.5) ? ConnectivityGraph(n, t) : ConnectivityGraph(n, std::vector<int>(t0));
        std::fill(t.begin(), t.end(), -7);
        auto good = [&](const ConnectivityGraph& q) { if (q.numCells() != (std::size_t)n || q.numConnections() != E) return false; for (std::size_t e = 0; e < E; ++e) { const auto c = q.connection(e); if (c.first != t0[2*e] || c.second != t0[2*e+1]) return false; } return true; };
        x.count("graphs"); if (!good(g)) { x.fail("graph", cat("graph of ", n, " cells and ", E, " connections is not as given")); return; }
        const ConnectivityGraph cp = g; ConnectivityGraph as(1, {}); as = cp; if (!good(cp) || !good(as)) { x.fail("graph-copy", "copy differs"); return; }
        for (int k = 0; k < 3; ++k) {
            auto b = t0; int m = n; std::string what;
            switch (r.i(0, 3)) {
            case 0: b.insert(b.begin() + r.i(0, (int)b.size()), n > 0 ? r.i(0, n - 1) : 0); what = "odd length"; break;
            case 1: if (b.empty()) { b = { n, n }; } b[(std::size_t)r.i(0, (int)b.size() - 1)] = r.p(0.6) ? n : r.p(0.5) ? INT32_MAX : n + r.i(0, 1000); what = "cell not below the number of cells"; break;
            case 2: if (b.empty()) { b = { 0, 0 }; } b[(std::size_t)r.i(0, (int)b.size() - 1)] = r.p(0.6) ? -1 : r.p(0.5) ? INT32_MIN : -r.i(1, 1000); what = "negative cell"; break;
            default: m = r.p(0.5) ? -1 : r.p(0.5) ? INT32_MIN : -r.i(1, 1000); if (r.p(0.5)) b.clear(); what = "negative number of cells";
            }
            bool ok = false; try { ConnectivityGraph q(m, b); } catch (const std::logic_error&) { ok = true; }
            x.count("graph_rejections: " + what); if (!ok) { x.fail("graph-reject", cat(what, " was accepted (", m, " cells, ", b.size(), " entries)")); return; }
        }
    }
    { // values
        const bool large = r.p(0.002); const std::size_t E = (std::size_t)(r.p(0.1) ? 0 : large ? r.i(10, r.p(0.3) ? 200000 : 70000) : r.i(1, 9)), P = (std::size_t)(r.p(0.05) ? 0 : r.p(0.02) ? r.i(5, 70) : large && r.p(0.2) ? r.i(1, 9) : r.i(1, 4));
        ConnectionValues v(ConnectionValues::NumConnections{ E }, ConnectionValues::NumPhases{ P });
        std::vector<double> m(E * P, 0.0);
        auto good = [&](const ConnectionValues& q) { if (q.numConnections() != E || q.numPhases() != P) return false; for (std::size_t e = 0; e < E; ++e) for (std::size_t p = 0; p < P; ++p) if (!sameBits(q(ConnectionValues::ConnID{ e }, ConnectionValues::PhaseID{ p }), m[e * P + p])) return false; return true; };
        if (!good(v)) { x.fail("values-initial", "values do not start at zero or sizes are wrong"); return; }
        const int ops = r.i(1, large ? 5 : 25);
        for (int k = 0; k < ops; ++k) {
            if (E && P && r.p(0.6)) { const std::size_t e = (std::size_t)r.i(0, (int)E - 1), p = (std::size_t)r.i(0, (int)P - 1); const double d = anyDouble(r); v({ e }, { p }) = d; m[e * P + p] = d; h.d(d); x.count("writes"); }
            else { // out of range
                std::size_t e = E ? (std::size_t)r.i(0, (int)E - 1) : 0, p = P ? (std::size_t)r.i(0, (int)P - 1) : 0;
                const std::size_t big[] = { 0, 1, 1000, SIZE_MAX - 40, SIZE_MAX / 2 }; const int w = r.i(0, 2);
                if (w != 1) { e = E + big[r.i(0, 4)]; if (e < E) e = SIZE_MAX; } if (w != 0) { p = P + big[r.i(0, 4)]; if (p < P) p = SIZE_MAX; }
                // products that wrap around to a valid position
                if (w == 0 && P && r.p(0.3)) e = SIZE_MAX / P + 1; 
                int thrown = 0; const ConnectionValues& cv = v;
                if (e < E && p < P) continue;
                try { (void)cv({ e }, { p }); } catch (const std::logic_error&) { ++thrown; }
                try { v({ e }, { p }) = 123.0; } catch (const std::logic_error&) { ++thrown; }
                x.count("out_of_range", 2); if (thrown != 2) { x.fail("values-range", cat("access to connection ", e, " phase ", p, " of ", E, "x", P, " was accepted")); return; }
            }
            if (!good(v)) { x.fail("values", cat("values of ", E, "x", P, " are not as written")); return; }
        }
        ConnectionValues cp = v; ConnectionValues as(ConnectionValues::NumConnections{ 1 }, ConnectionValues::NumPhases{ 1 }); as = v;
        if (E && P) v({ 0 }, { 0 }) = 77.0;
        if (!good(cp) || !good(as)) { x.fail("values-copy", "copy changed with the original"); return; }
    }
    { // sizes too large
        const std::size_t a[] = { SIZE_MAX, SIZE_MAX / 2 + 1, SIZE_MAX / 8, (std::size_t)1 << 32, (std::size_t)1 << 61, ((std::size_t)1 << 62) + 1, (std::size_t)1 << 63 }; const std::size_t b[] = { SIZE_MAX, SIZE_MAX / 2, (std::size_t)1 << 32, 2, 4, 8, 16, ((std::size_t)1 << 62) + 1 };
        std::size_t e = a[r.i(0, 6)], p = b[r.i(0, 7)]; if (r.p(0.5)) std::swap(e, p);
        if ((long double)e * (long double)p > 1.2e18L) {
            bool thrown = false; try { ConnectionValues v(ConnectionValues::NumConnections{ e }, ConnectionValues::NumPhases{ p }); } catch (const std::exception&) { thrown = true; }
            x.count("too_large"); if (!thrown) { x.fail("values-overflow", cat("size ", e, "x", p, " was accepted")); return; }
        }
    }
    x.dig.u64(h.h); x.nontrivial(h.h); x.sample([&] { return cat("case digest ", h.h); });
}
static Reg r24("C24", c24);

// ------------------------------------------------------------------ random vectors

// Whether some run of w consecutive values occurs twice.
template <class T> static bool repeatedRun(const std::vector<T>& a, std::size_t w)
{
    if (a.size() <= w) return false;
    std::vector<std::size_t> o(a.size() - w + 1); for (std::size_t i = 0; i < o.size(); ++i) o[i] = i;
    auto less = [&](std::size_t p, std::size_t q) { for (std::size_t k = 0; k < w; ++k) { if (a[p + k] < a[q + k]) return true; if (a[q + k] < a[p + k]) return false; } return false; };
    std::sort(o.begin(), o.end(), less);
    for (std::size_t i = 1; i < o.size(); ++i) if (!less(o[i - 1], o[i])) return true;
    return false;
}
static void c25(Ctx& x, Rng& r)
{
    Opm::RandomVector A, B; std::string tr; Digest h;
    std::vector<double> lastN; std::vector<int> lastI;
    // histories
    const int ops = r.i(1, 12); std::uint64_t nz = 0;
    for (int k = 0; k < ops; ++k) {
        const std::size_t n = (std::size_t)(r.p(0.1) ? 0 : r.p(0.8) ? r.i(1, 40) : r.p(0.99) ? r.i(1, 2000) : r.i(30000, r.p(0.3) ? 400000 : 140000));
        if (r.p(0.5)) {
            const bool d = r.p(0.3); const double mu = d ? 0.0 : r.p(0.3) ? 0.0 : r.u(-1, 1) * r.logu(-3, 6), sd = d ? 1.0 : r.p(0.3) ? 1.0 : r.logu(-3, 6);
            const auto a = d ? A.normal(n) : A.normal(n, mu, sd), b = B.normal(n, mu, sd); tr += cat(" normal(", n, ",", mu, ",", sd, ");"); x.count("normal_values", n);
            if (a.size() != n) { x.fail("size", cat(a.size(), " values instead of ", n)); return; }
            for (std::size_t i = 0; i < n; ++i) { if (!sameBits(a[i], b[i])) { x.fail("reproducible", cat("two new generators differ after", tr)); return; } if (!std::isfinite(a[i]) || std::fabs(a[i] - mu) > 40 * sd) { x.fail("normal-range", cat("value ", a[i], " after", tr)); return; } x.dig.d(a[i]); }
            if (n >= 3) {
                const auto c = A.normal(n, mu, sd); if (c == a) { x.fail("repeats", cat("the same values again after", tr)); return; } (void)B.normal(n, mu, sd);
                if (r.p(0.2) || n > 2000) { auto z = a; z.insert(z.end(), c.begin(), c.end()); x.count("searched_for_repeated_runs"); if (repeatedRun(z, 4)) { x.fail("repeats", cat("the same run of values again after", tr)); return; } }
            }
            nz += n;
        } else {
            const int mx = r.p(0.1) ? 0 : r.p(0.05) ? INT32_MAX : r.p(0.5) ? r.i(1, 6) : r.i(1, 100000);
            const auto a = A.index(n, mx), b = B.index(n, mx); tr += cat(" index(", n, ",", mx, ");"); x.count("indices", n);
            if (a.size() != n) { x.fail("size", cat(a.size(), " indices instead of ", n)); return; }
            if (a != b) { x.fail("reproducible", cat("two new generators differ after", tr)); return; }
            for (int q : a) { if (q < 0 || q > mx) { x.fail("index-range", cat("index ", q, " not in [0,", mx, "]")); return; } x.dig.i(q); }
            if (n >= 30 && mx >= 3) {
                const auto c = A.index(n, mx); if (c == a) { x.fail("repeats", cat("the same indices again after", tr)); return; } (void)B.index(n, mx);
                if (r.p(0.2) || n > 2000) { auto z = a; z.insert(z.end(), c.begin(), c.end()); x.count("searched_for_repeated_runs"); if (repeatedRun(z, (std::size_t)std::ceil(100 / std::log2(mx + 1.0)))) { x.fail("repeats", cat("the same run of indices again after", tr)); return; } }
            }
            nz += n;
        }
    }
    // statistics of one long sample, after a prefix of the stream that depends on the case
    const std::size_t N = 20000;
    if (x.idx % 4 == 0) {
        // every index of a small range, equal parts of a large one; in one or several requests
        const int mx = r.p(0.1) ? 0 : r.p(0.4) ? r.i(1, 40) : r.p(0.1) ? INT32_MAX - r.i(0, 2) : (int)std::min(2147483646.0, r.logu(1.5, 9.33)); std::vector<int> a;
        const std::size_t chunk = r.p(0.5) ? N : (std::size_t)r.i(1, 4000); while (a.size() < N) { const auto q = A.index(std::min(chunk, N - a.size()), mx); if (q.empty()) { x.fail("size", "no indices"); return; } a.insert(a.end(), q.begin(), q.end()); }
        const int nb = (int)std::min<long long>((long long)mx + 1, 41); std::vector<double> cnt(nb, 0), size(nb, 0); auto bin = [&](long long q) { return (int)(q * nb / ((long long)mx + 1)); };
        { long long from = 0; for (int k = 0; k < nb; ++k) { long long to = ((long long)mx + 1) * (k + 1) / nb; while (to <= mx && bin(to) <= k) ++to; while (to > from && bin(to - 1) > k) --to; size[k] = (double)(to - from); from = to; } }
        for (int q : a) { if (q < 0 || q > mx) { x.fail("index-range", cat("index ", q, " not in [0,", mx, "]")); return; } cnt[bin(q)] += 1; }
        x.count("uniformity_tests"); if (mx > 40) x.count("uniformity_tests_of_large_ranges");
        for (int q = 0; q < nb; ++q) { const double p = size[q] / ((double)mx + 1), s = std::sqrt(N * p * (1 - p)); if (std::fabs(cnt[q] - N * p) > 8 * s + 1e-9) { x.fail("uniform", cat("part ", q, " of ", nb, " of [0,", mx, "] occurs ", cnt[q], " times in ", N)); return; } }
        // serial correlation
        if (mx > 0) { double m = mx / 2.0, v = (((double)mx + 1) * ((double)mx + 1) - 1) / 12, c = 0; for (std::size_t i = 0; i + 1 < N; ++i) c += (a[i] - m) * (a[i + 1] - m); c /= v * N; if (std::fabs(c) > 8 / std::sqrt((double)N)) { x.fail("uniform-correlated", cat("serial correlation ", c)); return; } }
    } else if (x.idx % 4 == 1) {
        const bool d = r.p(0.2), unit = r.p(0.2); const double ms = unit || r.p(0.7) ? r.logu(-2, 3) : r.logu(-100, 100), mu = d ? 0.0 : r.u(-1, 1) * ms, sd = d || unit ? 1.0 : ms * r.logu(-3, 3); std::vector<double> a;
        const std::size_t chunk = r.p(0.5) ? N : (std::size_t)(2 * r.i(1, 2000) - r.i(0, 1)); while (a.size() < N) { const std::size_t m = std::min(chunk, N - a.size()); const auto q = d ? A.normal(m) : unit ? A.normal(m, mu) : A.normal(m, mu, sd); if (q.empty()) { x.fail("size", "no values"); return; } a.insert(a.end(), q.begin(), q.end()); }
        long double s1 = 0, s2 = 0, s3 = 0, s4 = 0, c = 0; std::size_t in1 = 0, above = 0;
        for (std::size_t i = 0; i < N; ++i) { const long double z = (a[i] - mu) / sd; s1 += z; s2 += z * z; s3 += z * z * z; s4 += z * z * z * z; if (std::fabs((double)z) < 1) ++in1; if (z > 0) ++above; if (i) c += z * (a[i - 1] - mu) / sd; }
        const double n = N, q = std::sqrt(n); x.count("normality_tests");
        if (std::fabs((double)(s1 / n)) > 8 / q) { x.fail("normal-mean", cat("mean is off by ", (double)(s1 / n), " standard deviations")); return; }
        if (std::fabs((double)(s2 / n) - 1) > 8 * std::sqrt(2.0) / q) { x.fail("normal-stdev", cat("variance ratio ", (double)(s2 / n))); return; }
        if (std::fabs((double)(s3 / n)) > 8 * std::sqrt(15.0) / q) { x.fail("normal-skew", cat("third moment ", (double)(s3 / n))); return; }
        if (std::fabs((double)(s4 / n) - 3) > 8 * std::sqrt(96.0) / q) { x.fail("normal-kurtosis", cat("fourth moment ", (double)(s4 / n))); return; }
        if (std::fabs(in1 / n - 0.6826894921370859) > 8 * 0.47 / q) { x.fail("normal-shape", cat("share within one standard deviation ", in1 / n)); return; }
        if (std::fabs(above / n - 0.5) > 4 / q) { x.fail("normal-shape", cat("share above the mean ", above / n)); return; }
        if (std::fabs((double)(c / n)) > 8 / q) { x.fail("normal-correlated", cat("serial correlation ", (double)(c / n))); return; }
    }
    h.s(tr); if (nz > 0) x.nontrivial(h.h); x.sample([&] { return tr; });
}
static Reg r25("C25", c25);

} // namespace vf
