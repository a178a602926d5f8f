// C01-C04: equations and conservation.
#include "flow.hpp"
namespace vf {

static GenOpt mixOpt(Ctx& x, Rng& r)
{
    GenOpt o;
    if (x.idx % 199 == 5) { o.big = true; if (r.p(0.3)) o.acyclic = true; return o; }
    if (x.idx % 1999 == 1234) { o.huge = true; return o; }
    const int k = r.i(0, 9);
    if (k <= 1) o.acyclic = true;
    else if (k <= 4) o.loops = true;
    else if (k == 5) o.conserve = true;
    else if (k == 6) { o.wide = true; o.acyclic = true; o.maxN = 9; }
    return o;
}

// Large strong components: ring with chords and enough sources to be well conditioned.
FlowCase bigLoop(Rng& r)
{
    FlowCase c; const int m = r.p(0.5) ? r.i(1020, 1030) : r.i(1100, 2600), tail = r.i(0, 40); c.n = m + tail; c.family = "bigring";
    auto edge = [&](int a, int b, double f) { if (r.p(0.5)) { std::swap(a, b); f = -f; } c.conn.push_back(a); c.conn.push_back(b); c.flux.push_back(f); };
    std::vector<int> num(c.n); for (int i = 0; i < c.n; ++i) num[i] = i;
    if (r.p(0.5)) r.shuffle(num);
    for (int i = 0; i < m; ++i) edge(num[i], num[(i + 1) % m], r.u(1, 2));
    for (int k = 0; k < m / 10; ++k) { const int a = r.i(0, m - 1), b = r.i(0, m - 1); if (a != b) edge(num[a], num[b], r.u(0.1, 1)); }
    for (int i = m; i < c.n; ++i) edge(num[r.i(0, i - 1)], num[i], r.u(0.5, 1));
    const int period = r.i(4, 16);
    for (int i = 0; i < m; i += period) { c.wells[r.p(0.5) ? "I1" : "I2"][num[i]] = r.u(0.5, 2); c.wells[r.p(0.5) ? "P1" : "P2"][num[(i + 1) % m]] = -r.u(0.5, 2); }
    c.pv.assign(c.n, 1.0); const double ts = r.logu(0, 7); for (auto& v : c.pv) v = ts * r.u(0.5, 1.5);
    return c;
}

// Draw cases until the reference solution is usable.
bool drawSolved(Ctx& x, Rng& r, Solved& s, GenOpt o, bool local)
{
    for (int t = 0; t < 20; ++t) {
        if (o.big && r.p(0.6)) s.c = bigLoop(r); else s.c = genFlow(r, o);
        s.forward = r.p(0.6);
        if (!o.big && !o.huge && !o.conserve && !o.noCap && r.p(0.06)) { const double q = std::ldexp(1.0, -r.i(3, 28)); for (auto& w : s.c.wells) for (auto& z : w.second) z.second *= q; x.count("diluted_cases"); }
        if (solveRef(s, local)) { if (s.c.n > 30000) x.count("cases_above_30000_cells"); if (s.ids.size() > 8) x.count("cases_of_more_than_8_wells"); return true; }
        x.count("redrawn_ill_conditioned");
        if (o.big) o.big = false;
        if (o.huge && t > 2) o.huge = false;
    }
    return false;
}

static void common(Ctx& x, const Solved& s)
{
    x.count("cells", s.c.n);
    x.count(s.F->loops ? "cases_with_loops" : "cases_without_loops");
    x.count("wells", s.ids.size());
    if (!s.ids.empty() && s.c.n > 1) x.nontrivial(hashCase(s.c) ^ (std::uint64_t)s.forward);
    x.sample([&] { return (s.forward ? "forward " : "reverse ") + describe(s.c); });
}

static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }

static void checkTof(Ctx& x, const Solved& s, const RefSol& R, int i, double v, const std::string& what)
{
    if (!(v >= 0.0 && v <= CAP)) { x.fail("tof-range", cat(what, " in cell ", i, " = ", v, " is not in [0,200 years]; ", describe(s.c))); return; }
    if (R.exactCap(i)) {
        x.count("capped_exactly");
        if (v != CAP) x.fail("tof-cap", cat(what, " in cell ", i, " = ", v, ", expected exactly 200 years (", R.slow[i] ? "fills too slowly" : "not reached", "); ", s.forward ? "forward " : "reverse ", describe(s.c)));
        return;
    }
    const double tol = R.eT[i];
    if (!std::isfinite(tol)) { x.count("skipped_loose"); return; }
    x.count("tof_checked");
    if (R.t[i] > CAP) x.count("capped_accumulated");
    if (!near(v, R.T(i), tol + 1e-12 * R.T(i)))
        x.fail("tof-value", cat(what, " in cell ", i, " = ", v, ", expected ", R.T(i), " +- ", tol, "; ", s.forward ? "forward " : "reverse ", describe(s.c)));
}

static void c01(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mixOpt(x, r), false)) return;
    common(x, s);
    std::vector<std::string> ids;                     // global result must not need start sets
    if (r.p(0.3)) for (const auto& i : s.ids) if (r.p(0.5)) ids.push_back(i);
    for (const auto& i : ids) if (!refSolve(*s.F, wellSource(s.c, i, s.forward)).ok) { ids.clear(); break; }
    const auto o = runLib(s.c, s.forward, ids);
    digest(x.dig, o);
    if ((int)o.g.size() != s.c.n) { x.fail("size", "global tof has wrong size"); return; }
    for (int i = 0; i < s.c.n; ++i) checkTof(x, s, s.glob, i, o.g[i], "global tof");
}
static Reg r01("C01", c01);

static void support(Ctx& x, const Solved& s, const RefSol& R, const CellSetValues& m, const std::string& what)
{
    std::size_t k = 0; for (char q : R.reach) k += q;
    for (const auto& e : m) if (e.first < 0 || e.first >= s.c.n || !R.reach[e.first]) { x.fail("support", cat(what, " reported in cell ", e.first, " which is not downstream; ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
    if (m.size() != k) x.fail("support", cat(what, " reported in ", m.size(), " cells, ", k, " are reachable; ", s.forward ? "forward " : "reverse ", describe(s.c)));
}

static void c02(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mixOpt(x, r), true)) return;
    common(x, s);
    const auto o = runLib(s.c, s.forward, s.ids);
    digest(x.dig, o);
    for (const auto& id : s.ids) {
        const auto& R = s.loc.at(id); const auto& m = o.conc.at(id);
        support(x, s, R, m, "concentration");
        if (x.caseFailed) return;
        const auto src = wellSource(s.c, id, s.forward);
        for (const auto& e : m) {
            const int i = e.first; const double v = e.second;
            x.count("conc_checked");
            if (!(v > 0.0 && v <= 1.0 + 1e-12 + R.eC[i])) { x.fail("conc-range", cat("concentration of '", id, "' in cell ", i, " = ", v, "; ", describe(s.c))); return; }
            if (!near(v, (double)R.c[i], R.eC[i] + 1e-13 * v)) { x.fail("conc-value", cat("concentration of '", id, "' in cell ", i, " = ", v, ", expected ", (double)R.c[i], " +- ", R.eC[i], "; ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
            // residual on returned values
            long double sum = src[i]; double mag = src[i], inner = 0;
            for (const auto& q : s.F->in[i]) { const auto it = m.find(q.other); if (it != m.end()) sum += (long double)q.f * it->second; if (s.F->comp[q.other] == s.F->comp[i]) inner += q.f; }
            mag = (double)sum;
            const double res = std::fabs((double)((long double)s.F->Q[i] * v - sum)) / s.F->Q[i];
            if (res > 1.02 * TOL_C * inner / s.F->Q[i] + 1e-15 * (s.F->in[i].size() + 8.0) * mag / s.F->Q[i])
                { x.fail("conc-residual", cat("tracer equation of '", id, "' in cell ", i, " has residual ", res, "; ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
        }
    }
}
static Reg r02("C02", c02);

static void c03(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mixOpt(x, r), true)) return;
    common(x, s);
    const auto o = runLib(s.c, s.forward, s.ids);
    digest(x.dig, o);
    for (const auto& id : s.ids) {
        const auto& R = s.loc.at(id); const auto& m = o.tof.at(id); const auto& cc = o.conc.at(id);
        support(x, s, R, m, "tracer tof");
        if (x.caseFailed) return;
        if (m.size() != cc.size()) { x.fail("support", "tof and concentration of an ID are reported for different cells"); return; }
        for (auto a = m.begin(), b = cc.begin(); a != m.end(); ++a, ++b) if (a->first != b->first) { x.fail("support", "tof and concentration of an ID are reported for different cells"); return; }
        for (const auto& e : m) {
            checkTof(x, s, R, e.first, e.second, cat("tracer tof of '", id, "'"));
            if (x.caseFailed) return;
            const int i = e.first;
            if (R.exactCap(i)) continue;
            // residual of the age equation on returned values, where no value is limited
            bool lim = e.second >= CAP; long double sum = (long double)s.F->pv[i] * cc.at(i), tol = 0;
            for (const auto& q : s.F->in[i]) {
                const auto t = m.find(q.other); if (t == m.end()) continue;
                if (t->second >= CAP) { if (!R.slow[q.other]) lim = true; }
                const double cu = cc.at(q.other); sum += (long double)q.f * cu * t->second;
                if (s.F->comp[q.other] == s.F->comp[i]) tol += (long double)q.f * 1.05L * (cu * (long double)TOL_T + t->second * (long double)TOL_C);
            }
            if (lim) continue;
            const double qc = s.F->Q[i] * cc.at(i);
            // the returned concentration itself may deviate from the one the tof was computed with (same sweep): exact
            const double res = std::fabs((double)((long double)qc * e.second - sum)) / qc;
            x.count("tof_residuals");
            if (res > (double)(tol / qc) + 1e-15 * (s.F->in[i].size() + 8.0) * (double)sum / qc)
                { x.fail("tof-residual", cat("age equation of '", id, "' in cell ", i, " has residual ", res, " (allowed ", (double)(tol / qc), "); ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
        }
    }
}
static Reg r03("C03", c03);

static void c04(Ctx& x, Rng& r)
{
    GenOpt o = mixOpt(x, r); if (!o.big && !o.huge && r.p(0.4)) { o = GenOpt{}; o.conserve = true; }
    if (r.p(0.4)) o.noCap = true;
    Solved s; if (!drawSolved(x, r, s, o, true)) return;
    if (s.ids.empty()) { x.count("no_wells"); return; }
    common(x, s);
    const auto L = runLib(s.c, s.forward, s.ids);
    digest(x.dig, L);
    const auto sup = s.F->supplied();
    for (int i = 0; i < s.c.n; ++i) {
        long double sum = 0, ct = 0; double e = 0, eY = 0; bool lim = false; int k = 0;
        for (const auto& id : s.ids) {
            const auto a = L.conc.at(id).find(i); if (a == L.conc.at(id).end()) continue;
            const auto b = L.tof.at(id).find(i); if (b == L.tof.at(id).end()) { x.fail("support", "concentration without tof"); return; }
            ++k; sum += a->second; ct += (long double)a->second * b->second; e += s.loc.at(id).eC[i]; eY += s.loc.at(id).eY[i] + s.loc.at(id).eC[i] * b->second;
            if (b->second >= CAP) lim = true;
        }
        if (L.g[i] >= CAP) lim = true;
        if (sum > 1.0L + e + 1e-12L) { x.fail("sum-above-one", cat("concentrations in cell ", i, " sum to ", (double)sum, "; ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
        if (sup[i]) {
            x.count("supplied_cells"); if (k > 1) x.count("mixed_cells");
            if (std::fabs((double)(sum - 1.0L)) > e + 1e-12) { x.fail("sum-not-one", cat("concentrations in cell ", i, " sum to ", (double)sum, " though all its fluid comes from the wells; ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
            // ages superpose unless something upstream (possibly not visible here) is limited
            if (!lim) {
                const double tol = eY + s.glob.eT[i] + 1e-11 * L.g[i];
                x.count("superposed_ages");
                if (std::fabs((double)(ct - (long double)L.g[i])) > tol) { x.fail("superposition", cat("mean of tracer ages in cell ", i, " is ", (double)ct, ", global tof ", L.g[i], " (tolerance ", tol, "); ", s.forward ? "forward " : "reverse ", describe(s.c))); return; }
            }
        }
    }
}
static Reg r04("C04", c04);

} // namespace vf
