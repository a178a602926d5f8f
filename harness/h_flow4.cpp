// C32-C34, C36: linearity in the sources and the pore volumes, domain of dependence, refinement.
#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
namespace vf {
bool drawSolved(Ctx&, Rng&, Solved&, GenOpt, bool);

static GenOpt mix(Ctx& x, Rng& r, bool uncapped)
{
    GenOpt o;
    if (x.idx % 299 == 7) { o.big = true; if (r.p(0.3)) o.acyclic = true; o.noCap = uncapped; return o; }
    if (x.idx % 2999 == 1777) { o.huge = true; o.noCap = uncapped; return o; }
    const int k = r.i(0, 9);
    if (k <= 2) o.acyclic = true; else if (k <= 5) o.loops = true; else if (k <= 6) o.conserve = true;
    o.noCap = uncapped || r.p(0.4);
    return o;
}
static const char* way(bool f) { return f ? "forward " : "reverse "; }

// The given case with rates of the other sign left out.
static FlowCase oneSign(const FlowCase& c, bool forward)
{
    FlowCase d = c; d.wells.clear();
    for (const auto& w : c.wells) for (const auto& q : w.second) if (forward ? q.second > 0 : q.second < 0) d.wells[w.first][q.first] = q.second;
    return d;
}

static void merge(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mix(x, r, false), true)) return;
    if (s.ids.empty()) { x.count("no_wells"); return; }
    const auto a = runLib(s.c, s.forward, s.ids); digest(x.dig, a);
    FlowCase d = oneSign(s.c, s.forward), one = d; d.wells.clear();
    const int ng = r.i(1, std::max(1, (int)s.ids.size() - 1)); std::map<std::string, std::vector<std::string>> members;
    for (const auto& i : s.ids) { const auto g = cat("group ", r.i(1, ng)); members[g].push_back(i); for (const auto& q : one.wells.at(i)) d.wells[g][q.first] += q.second; }
    std::vector<std::string> ids; std::map<std::string, RefSol> loc; RefFlow F(d, s.forward);
    for (const auto& m : members) { ids.push_back(m.first); loc[m.first] = refSolve(F, wellSource(d, m.first, s.forward)); if (!loc[m.first].ok) { x.count("redrawn_ill_conditioned"); return; } }
    const auto b = runLib(d, s.forward, ids); digest(x.dig, b);
    x.count("groups", ids.size()); x.count("wells", s.ids.size());
    Digest h; h.u64(hashCase(s.c)); h.u64(hashCase(d)); if (s.c.n > 1 && s.ids.size() > ids.size()) x.nontrivial(h.h);
    x.sample([&] { return cat(s.ids.size(), " wells in ", ids.size(), " groups; ", describe(s.c)); });
    auto bad = [&](const std::string& m) { x.fail("superposition", cat(m, "; ", way(s.forward), describe(s.c), " merged to ", describe(d))); };
    for (int i = 0; i < s.c.n; ++i) { if (!std::isfinite(s.glob.eT[i])) continue; if (!(std::fabs(a.g[i] - b.g[i]) <= 2.1 * s.glob.eT[i] + 1e-12 * a.g[i])) return bad(cat("global tof of cell ", i, " is ", b.g[i], " instead of ", a.g[i])); }
    for (const auto& m : members) {
        const auto& R = loc.at(m.first); const auto& C = b.conc.at(m.first); const auto& T = b.tof.at(m.first);
        std::map<int, long double> sum, age; std::map<int, double> e, eY; std::set<int> lim;
        for (const auto& i : m.second) {
            const auto& L = s.loc.at(i); const auto& ct = a.tof.at(i);
            for (const auto& q : a.conc.at(i)) { const double t = ct.at(q.first); sum[q.first] += q.second; age[q.first] += (long double)q.second * t; e[q.first] += L.eC[q.first]; eY[q.first] += L.eY[q.first] + L.eC[q.first] * t + L.eT[q.first] * q.second; if ((t >= CAP && !L.slow[q.first]) || L.t[q.first] > CAP) lim.insert(q.first); }
        }
        if (sum.size() != C.size()) return bad(cat("'", m.first, "' is reported in ", C.size(), " cells, its wells in ", sum.size()));
        for (const auto& q : C) {
            const int i = q.first; const auto z = sum.find(i);
            if (z == sum.end()) return bad(cat("'", m.first, "' is reported in cell ", i, ", but none of its wells"));
            x.count("cells_compared");
            if (!(std::fabs((double)(z->second - (long double)q.second)) <= e[i] + R.eC[i] + 1e-12 * q.second)) return bad(cat("concentration of '", m.first, "' in cell ", i, " is ", q.second, ", its wells sum to ", (double)z->second));
            const double t = T.at(i);
            if (lim.count(i) || (t >= CAP && !R.slow[i]) || R.t[i] > CAP || !std::isfinite(R.eT[i]) || !std::isfinite(eY[i])) continue;
            x.count("ages_compared");
            const double tol = eY[i] + R.eY[i] + R.eC[i] * t + R.eT[i] * q.second + 1e-11 * q.second * t;
            if (!(std::fabs((double)(age[i] - (long double)q.second * t)) <= tol)) return bad(cat("tof of '", m.first, "' in cell ", i, " is ", t, ", its wells give ", (double)(age[i] / (long double)q.second)));
        }
    }
    // pairs
    if (!r.p(0.5)) return;
    const auto opp = activeWells(s.c, !s.forward); RefFlow G(s.c, !s.forward); double eOpp = 0;
    for (const auto& i : opp) { const auto q = refSolve(G, wellSource(s.c, i, !s.forward)); if (!q.ok) return; for (double z : q.eC) eOpp = std::max(eOpp, z); }
    Toolbox t1(libGraph(s.c)), t2(libGraph(s.c)), t3(libGraph(s.c)); assignAll(t1, s.c); assignAll(t2, s.c); assignAll(t3, d);
    const FlowCase& fc = s.forward ? d : s.c; const FlowCase& rc = s.forward ? s.c : d;      // the merged wells are injectors or producers
    const auto F1 = t1.computeInjectionDiagnostics(startSets(s.c, s.forward ? s.ids : opp, true)); const auto R1 = t2.computeProductionDiagnostics(startSets(s.c, s.forward ? opp : s.ids, false));
    Toolbox& tf = s.forward ? t3 : t1; Toolbox& tr = s.forward ? t2 : t3;
    const auto F2 = tf.computeInjectionDiagnostics(startSets(fc, s.forward ? ids : opp, true)); const auto R2 = tr.computeProductionDiagnostics(startSets(rc, s.forward ? opp : ids, false));
    auto W = libWells(s.c); for (const auto& w : libWells(d)) W[w.first] = w.second;
    double eOwn = 0; for (const auto& q : s.loc) for (double z : q.second.eC) eOwn += z > eOwn ? z : 0; for (const auto& q : loc) for (double z : q.second.eC) eOwn = std::max(eOwn, z);
    double pvs = 0; for (double v : s.c.pv) pvs += v; const double tol0 = 1e-12 + 2.1 * (double)(s.ids.size() + 1) * (eOwn + eOpp);
    for (const auto& m : members) for (const auto& o : opp) {
        long double v = 0, f1 = 0, f2 = 0; double rate = 0, orate = 0;
        for (const auto& i : m.second) {
            const CellSetID inj(s.forward ? i : o), prod(s.forward ? o : i); v += injectorProducerPairVolume(F1, R1, s.c.pv, inj, prod);
            std::map<CellSetID, CellSetValues> w1; w1[inj] = libWells(s.forward ? one : s.c).at(inj); w1[prod] = libWells(s.forward ? s.c : one).at(prod); if (inj < prod || prod < inj) { const auto q = injectorProducerPairFlux(F1, R1, inj, prod, w1); f1 += q.first; f2 += q.second; } else f1 = NAN;
        }
        const CellSetID inj(s.forward ? m.first : o), prod(s.forward ? o : m.first); const double V = injectorProducerPairVolume(F2, R2, s.c.pv, inj, prod); const auto q = injectorProducerPairFlux(F2, R2, inj, prod, W);
        for (const auto& z : d.wells.at(m.first)) rate += std::fabs(z.second); for (const auto& z : s.c.wells.at(o)) orate += std::fabs(z.second);
        x.count("pairs_compared");
        if (!(std::fabs((double)(v - (long double)V)) <= tol0 * pvs + 1e-12 * V)) return bad(cat("volume of pair '", m.first, "', '", o, "' is ", V, ", its wells sum to ", (double)v));
        if (!std::isnan((double)f1) && !(std::fabs((double)(f1 - (long double)q.first)) <= tol0 * (rate + orate) && std::fabs((double)(f2 - (long double)q.second)) <= tol0 * (rate + orate))) return bad(cat("fluxes of pair '", m.first, "', '", o, "' are ", q.first, ", ", q.second, ", its wells sum to ", (double)f1, ", ", (double)f2));
    }
}

// The solver class with arbitrary start rates (at most the sources).
static void rates(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mix(x, r, r.p(0.5)), false)) return;
    const RefFlow& F = *s.F; std::vector<int> cells; for (int i = 0; i < s.c.n; ++i) if (F.S[i] > 0) cells.push_back(i);
    if (cells.empty()) { x.count("no_wells"); return; }
    Opm::AssembledConnections dn, up; for (int i = 0; i < F.n; ++i) for (const auto& e : F.out[i]) { dn.addConnection(i, e.other, e.f); up.addConnection(e.other, i, e.f); } dn.compress((std::size_t)F.n); up.compress((std::size_t)F.n);
    CellSetValues src; for (int i : cells) src[i] = F.S[i];
    TracerTofSolver solver(dn, up, s.c.pv, src);
    if (r.p(0.3)) { const auto g = solver.solveGlobal(); for (int i = 0; i < F.n; ++i) { x.dig.d(g[i]); if (std::isfinite(s.glob.eT[i]) && !(std::fabs(g[i] - s.glob.T(i)) <= s.glob.eT[i] + 1e-12 * g[i])) { x.fail("solver", cat("global tof of cell ", i, " is ", g[i], ", expected ", s.glob.T(i), "; ", describe(s.c))); return; } } }
    const int rounds = r.i(1, 4); Digest h; h.u64(hashCase(s.c));
    for (int k = 0; k < rounds; ++k) {
        CellSetValues st; const int m = r.p(0.2) ? (int)cells.size() : r.i(1, std::min<int>((int)cells.size(), 6)); const double common = std::ldexp(1.0, -r.i(0, 20)); const bool same = r.p(0.5);
        auto pool = cells; r.shuffle(pool); for (int z = 0; z < m; ++z) st[pool[(std::size_t)z]] = F.S[pool[(std::size_t)z]] * (same ? common : r.p(0.3) ? 1.0 : r.u(0.01, 1.0));
        std::vector<double> rs(F.n, 0.0); for (const auto& q : st) rs[q.first] = q.second; h.map(st);
        const auto R = refSolve(F, rs); if (!R.ok) { x.count("redrawn_ill_conditioned"); continue; }
        const auto l = solver.solveLocal(st); x.dig.map(l.tof); x.dig.map(l.concentration); x.count("local_solves");
        std::size_t n = 0; for (char q : R.reach) n += q;
        auto bad = [&](const std::string& w) { x.fail("start-rates", cat(w, "; ", m, " start cells; ", describe(s.c))); };
        if (l.concentration.size() != n || l.tof.size() != n) return bad(cat("reported in ", l.concentration.size(), " and ", l.tof.size(), " cells instead of ", n));
        for (const auto& q : l.concentration) {
            const int i = q.first; const auto t = l.tof.find(i); if (!R.reach[i] || t == l.tof.end()) return bad(cat("wrong cell ", i));
            x.count("cells_compared");
            if (!(std::fabs(q.second - (double)R.c[i]) <= R.eC[i] + 1e-13 * q.second)) return bad(cat("concentration in cell ", i, " is ", q.second, ", expected ", (double)R.c[i]));
            if (std::isfinite(R.eT[i]) && !(std::fabs(t->second - R.T(i)) <= R.eT[i] + 1e-12 * R.T(i))) return bad(cat("tof in cell ", i, " is ", t->second, ", expected ", R.T(i)));
        }
        if (same && common < 1 && !F.loops) { // exactly the scaled concentrations, the same times
            auto full = st; for (auto& q : full) q.second /= common; const auto f = solver.solveLocal(full);
            for (const auto& q : l.concentration) { if (q.second < 1e-290) continue; x.count("scaled_exactly"); if (!(std::fabs(f.concentration.at(q.first) * common - q.second) <= 1e-14 * q.second) || !(std::fabs(f.tof.at(q.first) - l.tof.at(q.first)) <= 1e-13 * l.tof.at(q.first))) return bad(cat("cell ", q.first, " does not scale with the rates")); }
        }
    }
    if (s.c.n > 1) x.nontrivial(h.h);
}
static void c32(Ctx& x, Rng& r) { if (x.idx % 3 == 2) rates(x, r); else merge(x, r); }
static Reg r32("C32", c32);

// ------------------------------------------------------------------ C33

static void c33(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mix(x, r, false), true)) return;
    const RefFlow& F = *s.F; const int n = s.c.n;
    // U: some cells and all that is upstream of them
    std::vector<char> U(n, 0); std::vector<int> q; const int nt = r.p(0.6) ? 1 : r.i(1, 4);
    for (int k = 0; k < nt; ++k) { const int i = r.i(0, n - 1); if (!U[i]) { U[i] = 1; q.push_back(i); } }
    while (!q.empty()) { const int v = q.back(); q.pop_back(); for (const auto& e : F.in[v]) if (!U[e.other]) { U[e.other] = 1; q.push_back(e.other); } }
    int inU = 0; for (char u : U) inU += u;
    FlowCase d; std::vector<std::string> ids; bool ok = false; std::string ops; std::map<std::string, RefSol> loc; RefSol glob;
    for (int attempt = 0; attempt < 4 && !ok; ++attempt) {
        d = s.c; ops.clear();
        const double sc = r.p(0.5) ? 1.0 : r.logu(-3, 3); const double sg = s.forward ? 1.0 : -1.0;
        if (r.p(0.7)) { ops += "volumes "; for (int i = 0; i < n; ++i) if (!U[i] && r.p(0.6)) d.pv[i] = r.p(0.1) ? 0.0 : d.pv[i] * r.logu(-2, 2); }
        if (r.p(0.7)) { ops += "fluxes "; for (std::size_t e = 0; e < d.E(); ++e) {
            const int a = d.conn[2*e], b = d.conn[2*e+1]; if (U[a] && U[b]) continue; if (!r.p(0.6)) continue;
            // only between U and the rest, away from U; or among the rest
            double f = r.p(0.15) ? 0.0 : sc * r.u(0.1, 2.0); if (!U[a] && !U[b]) { const double t = std::fabs(d.total(e)); if (t > 0 && r.p(0.7)) f *= t / sc; if (r.p(0.5)) f = -f; } else { const double t = std::fabs(d.total(e)); if (t > 0) f *= t / sc; f *= sg; if (U[b]) f = -f; }
            for (int p = 0; p < d.np; ++p) d.flux[e * d.np + p] = 0.0; d.flux[e * d.np + (std::size_t)r.i(0, d.np - 1)] = f; } }
        if (r.p(0.7)) { ops += "wells "; for (auto& w : d.wells) { for (auto it = w.second.begin(); it != w.second.end();) {
                const bool own = (s.forward ? it->second > 0 : it->second < 0);
                if (U[it->first] && own) { ++it; continue; }
                const int m = r.i(0, 3); if (m == 0) { it = w.second.erase(it); continue; } if (m == 1) it->second *= r.u(0.2, 3.0); if (m == 2 && !U[it->first]) it->second = -it->second; ++it; }
            if (r.p(0.3)) { const int i = r.i(0, n - 1); const auto z = w.second.find(i); const double v = sc * r.u(0.1, 2.0); if (!U[i]) w.second[i] = r.p(0.5) ? v : -v; else if (z == w.second.end()) w.second[i] = -sg * v; } }
            if (r.p(0.3)) { int i = r.i(0, n - 1); if (!U[i]) d.wells["new well"][i] = sg * sc; } }
        if (r.p(0.3)) { ops += "cells "; const int m = r.i(1, 5); for (int k = 0; k < m; ++k) { d.pv.push_back(sc); const int a = r.i(0, d.n - 1), b = d.n++; const bool fl = r.p(0.5); d.conn.push_back(fl ? b : a); d.conn.push_back(fl ? a : b); for (int p = 0; p < d.np; ++p) d.flux.push_back(0.0); double f = (fl ? -1 : 1) * sg * sc; if (a < n && !U[a] && r.p(0.3)) f = -f; d.flux[d.flux.size() - 1 - (std::size_t)r.i(0, d.np - 1)] = f; } }
        Solved z; z.c = d; z.forward = s.forward; ok = solveRef(z); if (ok) { ids = z.ids; glob = std::move(z.glob); loc = std::move(z.loc); }
    }
    if (!ok) { x.count("redrawn_ill_conditioned"); return; }
    Toolbox t(libGraph(s.c)); assignAll(t, s.c); const auto a = compute(t, s.c, s.forward, s.ids); digest(x.dig, a);
    LibOut b; if (d.n == n && d.E() == s.c.E() && r.p(0.5)) { assignAll(t, d); b = compute(t, d, s.forward, ids); x.count("same_toolbox"); } else b = runLib(d, s.forward, ids); digest(x.dig, b);
    x.count("upstream_cells", inU); x.count("other_cells", d.n - inU); { std::istringstream w(ops); std::string o; while (w >> o) x.count("changed_" + o); }
    Digest h; h.u64(hashCase(s.c)); h.u64(hashCase(d)); if (inU < d.n && inU > 0 && !ops.empty()) x.nontrivial(h.h);
    x.sample([&] { return cat(inU, " of ", n, " cells kept, changed: ", ops, "; ", describe(s.c)); });
    auto bad = [&](const std::string& m) { x.fail("domain", cat(m, " after changing ", ops, "where it does not flow from; ", way(s.forward), describe(s.c), " -> ", describe(d))); };
    static const CellSetValues none;
    for (int i = 0; i < n; ++i) {
        if (!U[i] || !std::isfinite(s.glob.eT[i])) continue; x.count("values_compared");
        if (!(std::fabs(a.g[i] - b.g[i]) <= s.glob.eT[i] + glob.eT[i] + 1e-12 * a.g[i])) return bad(cat("global tof of cell ", i, ": ", a.g[i], " vs ", b.g[i]));
    }
    std::set<std::string> all(s.ids.begin(), s.ids.end()); all.insert(ids.begin(), ids.end());
    for (const auto& id : all) {
        auto get = [&](const std::map<std::string, CellSetValues>& m) -> const CellSetValues& { const auto it = m.find(id); return it == m.end() ? none : it->second; };
        const auto &ca = get(a.conc), &cb = get(b.conc), &ta = get(a.tof), &tb = get(b.tof);
        for (int i = 0; i < n; ++i) {
            if (!U[i]) continue; const auto p = ca.find(i), w = cb.find(i);
            if ((p == ca.end()) != (w == cb.end())) return bad(cat("'", id, "' in cell ", i, p == ca.end() ? " appears" : " vanishes"));
            if (p == ca.end()) continue; x.count("values_compared");
            const auto &A = s.loc.at(id), &B = loc.at(id);
            if (!(std::fabs(p->second - w->second) <= A.eC[i] + B.eC[i] + 1e-12 * p->second)) return bad(cat("concentration of '", id, "' in cell ", i, ": ", p->second, " vs ", w->second));
            if (!std::isfinite(A.eT[i]) || !std::isfinite(B.eT[i])) continue; const double u = ta.at(i), v = tb.at(i);
            if (!(std::fabs(u - v) <= A.eT[i] + B.eT[i] + 1e-12 * u)) return bad(cat("tof of '", id, "' in cell ", i, ": ", u, " vs ", v));
        }
    }
}
static Reg r33("C33", c33);

// ------------------------------------------------------------------ C34

static void c34(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mix(x, r, true), true)) return;
    const int n = s.c.n;
    // volumes divided over several models
    const int parts = r.i(2, 3); std::vector<FlowCase> P(parts, s.c); for (auto& c : P) std::fill(c.pv.begin(), c.pv.end(), 0.0);
    const int mode = r.i(0, 2);
    for (int i = 0; i < n; ++i) {
        double rest = s.c.pv[i];
        if (mode == 0) { P[(std::size_t)r.i(0, parts - 1)].pv[i] = rest; continue; }      // each cell in one of them
        if (mode == 1 && i != 0) { P[0].pv[i] = rest; continue; }                         // one cell alone
        if (mode == 1) { P[1].pv[i] = rest; continue; }
        for (int k = 0; k + 1 < parts; ++k) { const double v = rest * (r.p(0.2) ? 0.0 : r.u()); P[k].pv[i] = v; rest -= v; }
        P[parts - 1].pv[i] = rest;
    }
    const auto a = runLib(s.c, s.forward, s.ids); digest(x.dig, a);
    std::vector<LibOut> o; std::vector<Solved> Z(parts); Toolbox t(libGraph(s.c)); assignAll(t, s.c); const bool reuse = r.p(0.5);
    for (int k = 0; k < parts; ++k) {
        Z[k].c = P[k]; Z[k].forward = s.forward; if (!solveRef(Z[k])) { x.count("redrawn_ill_conditioned"); return; }
        if (reuse) { t.assignPoreVolume(P[k].pv); o.push_back(compute(t, P[k], s.forward, s.ids)); } else o.push_back(runLib(P[k], s.forward, s.ids));
        digest(x.dig, o.back());
    }
    Digest h; h.u64(hashCase(s.c)); for (auto& c : P) h.u64(hashCase(c)); if (!s.ids.empty() && n > 1) x.nontrivial(h.h);
    x.count(s.F->loops ? "with_loops" : "without_loops"); x.sample([&] { return cat(parts, " parts; ", describe(s.c)); });
    auto bad = [&](const std::string& m) { x.fail("volumes", cat(m, "; ", way(s.forward), describe(s.c))); };
    // a cell that its inflow does not fill in time acts as the limit, and limited values do not add
    std::vector<char> touched(n, 0); for (const auto& K : s.F->comps) { bool z = false; for (int v : K) { if (s.glob.slow[v]) z = true; for (const auto& e : s.F->in[v]) if (touched[e.other]) z = true; } for (int v : K) touched[v] = z; }
    for (int i = 0; i < n; ++i) {
        if (touched[i] || !s.glob.reach[i] || !(s.glob.t[i] < CAP) || a.g[i] >= CAP) continue; long double sum = 0; double tol = s.glob.eT[i];
        for (int k = 0; k < parts; ++k) { sum += o[k].g[i]; tol += Z[k].glob.eT[i]; } if (!std::isfinite(tol)) continue;
        x.count("times_compared");
        if (!(std::fabs((double)(sum - (long double)a.g[i])) <= tol + 1e-12 * a.g[i])) return bad(cat("global tof of cell ", i, " is ", a.g[i], ", the parts sum to ", (double)sum));
    }
    for (const auto& id : s.ids) {
        const auto& R = s.loc.at(id);
        for (const auto& q : a.conc.at(id)) {
            const int i = q.first; double tol = R.eT[i]; long double sum = 0; bool lim = touched[i] || !(R.t[i] < CAP);
            for (int k = 0; k < parts; ++k) {
                const auto w = o[k].conc.at(id).find(i); if (w == o[k].conc.at(id).end()) return bad(cat("'", id, "' vanishes in cell ", i, " with other volumes"));
                x.count("concentrations_compared");
                if (!(std::fabs(w->second - q.second) <= 2.1 * R.eC[i] + 1e-12 * q.second)) return bad(cat("concentration of '", id, "' in cell ", i, " is ", q.second, ", with other volumes ", w->second));
                sum += o[k].tof.at(id).at(i); tol += Z[k].loc.at(id).eT[i];
            }
            const double u = a.tof.at(id).at(i); if (lim || u >= CAP || !std::isfinite(tol)) continue;
            x.count("times_compared");
            if (!(std::fabs((double)(sum - (long double)u)) <= tol + 1e-12 * u)) return bad(cat("tof of '", id, "' in cell ", i, " is ", u, ", the parts sum to ", (double)sum));
        }
        for (int k = 0; k < parts; ++k) if (o[k].conc.at(id).size() != a.conc.at(id).size()) return bad(cat("'", id, "' is reported in other cells with other volumes"));
    }
}
static Reg r34("C34", c34);

// ------------------------------------------------------------------ C36

// Divides cells into parts with equal shares of everything, and puts cells without volume into connections.
static FlowCase refine(Rng& r, const FlowCase& c, bool forward, std::vector<int>& orig, std::string& ops)
{
    FlowCase d = c; orig.resize(c.n); for (int i = 0; i < c.n; ++i) orig[i] = i;
    if (r.p(0.7)) { // parts
        const double p = r.p(0.3) ? 1.0 : r.p(0.5) ? 0.3 : 2.0 / c.n; std::vector<std::vector<int>> part(c.n); bool any = false;
        for (int i = 0; i < c.n; ++i) { part[i] = { i }; if (c.n < 60 ? r.p(p) : r.p(std::min(p, 20.0 / c.n))) { const int k = r.p(0.7) ? 2 : r.p(0.8) ? 4 : 8; for (int z = 1; z < k; ++z) { part[i].push_back(d.n++); orig.push_back(i); d.pv.push_back(0.0); } any = true; } }
        for (int i = 0; i < c.n; ++i) for (int z : part[i]) d.pv[z] = c.pv[i] / (double)part[i].size();
        d.conn.clear(); d.flux.clear(); d.wells.clear();
        for (std::size_t e = 0; e < c.E(); ++e) { const auto &A = part[c.conn[2*e]], &B = part[c.conn[2*e+1]]; const double w = 1.0 / (double)(A.size() * B.size());
            for (int a : A) for (int b : B) { d.conn.push_back(a); d.conn.push_back(b); for (int q = 0; q < c.np; ++q) d.flux.push_back(c.flux[e * c.np + q] * w); } }
        for (const auto& w : c.wells) { auto& W = d.wells[w.first]; for (const auto& q : w.second) for (int z : part[q.first]) W[z] = q.second / (double)part[q.first].size(); }
        if (any) ops += "parts ";
    }
    if (r.p(0.6) || ops.empty()) { // cells on the way
        const std::size_t E = d.E(); const double p = r.p(0.3) && E < 300 ? 1.0 : 3.0 / (double)E;
        for (std::size_t e = 0; e < E; ++e) { const double t = d.total(e); if (t == 0 || !r.p(p)) continue;
            for (int k = r.p(0.8) ? 1 : r.i(2, 4); k > 0; --k) { // towards the second cell
                const int m = d.n++, b = d.conn[2*e+1]; d.pv.push_back(0.0); const bool up = (t > 0) == forward; // the second cell is downstream
                orig.push_back(orig[up ? d.conn[2*e] : b]); d.conn[2*e+1] = m;
                const bool fl = r.p(0.3); d.conn.push_back(fl ? b : m); d.conn.push_back(fl ? m : b); for (int q = 0; q < d.np; ++q) { const double f = d.flux[e * d.np + q]; d.flux.push_back(fl ? -f : f); } }
            ops += "between "; }
    }
    if (r.p(0.5)) { std::vector<int> pm(d.n); for (int i = 0; i < d.n; ++i) pm[i] = i; r.shuffle(pm); FlowCase z = d; auto o = orig;
        for (auto& q : z.conn) q = pm[q]; for (int i = 0; i < d.n; ++i) { z.pv[pm[i]] = d.pv[i]; o[pm[i]] = orig[i]; } for (auto& w : z.wells) { std::map<int, double> m; for (auto& q : w.second) m[pm[q.first]] = q.second; w.second.swap(m); } d = z; orig = o; }
    return d;
}
static void c36(Ctx& x, Rng& r)
{
    Solved s, z; if (!drawSolved(x, r, s, mix(x, r, r.p(0.5)), true)) return;
    std::vector<int> orig; std::string ops; z.forward = s.forward; z.c = refine(r, s.c, s.forward, orig, ops);
    if (!solveRef(z)) { x.count("redrawn_ill_conditioned"); return; }
    const auto a = runLib(s.c, s.forward, s.ids), b = runLib(z.c, s.forward, s.ids); digest(x.dig, a); digest(x.dig, b);
    x.count(s.F->loops ? "with_loops" : "without_loops"); x.count("cells_added", z.c.n - s.c.n); if (ops.find("parts") != std::string::npos) x.count("with_divided_cells"); if (ops.find("between") != std::string::npos) x.count("with_cells_on_the_way");
    Digest h; h.u64(hashCase(s.c)); h.u64(hashCase(z.c)); if (z.c.n > s.c.n && !s.ids.empty()) x.nontrivial(h.h);
    if (ops.size() > 30) { ops.resize(30); ops += ".. "; }
    x.sample([&] { return cat(ops, describe(s.c)); });
    auto bad = [&](const std::string& m) { x.fail("refinement", cat(m, "; ", ops, way(s.forward), describe(s.c), " -> ", describe(z.c))); };
    if (b.g.size() != (std::size_t)z.c.n) return bad("size of the global field is wrong");
    for (int j = 0; j < z.c.n; ++j) {
        const int i = orig[j]; const double tol = s.glob.eT[i] + z.glob.eT[j]; if (!std::isfinite(tol)) continue; x.count("values_compared");
        if (!(std::fabs(a.g[i] - b.g[j]) <= tol + 1e-12 * a.g[i])) return bad(cat("global tof of cell ", i, " is ", a.g[i], ", in cell ", j, " of the refined model ", b.g[j]));
    }
    for (const auto& id : s.ids) {
        const auto &ca = a.conc.at(id), &cb = b.conc.at(id), &ta = a.tof.at(id), &tb = b.tof.at(id); const auto &A = s.loc.at(id), &B = z.loc.at(id);
        for (int j = 0; j < z.c.n; ++j) {
            const int i = orig[j]; const auto p = ca.find(i), w = cb.find(j);
            if ((p == ca.end()) != (w == cb.end())) return bad(cat("'", id, "' in cell ", i, p == ca.end() ? " appears" : " vanishes", " in cell ", j, " of the refined model"));
            if (p == ca.end()) continue; x.count("values_compared");
            if (!(std::fabs(p->second - w->second) <= A.eC[i] + B.eC[j] + 1e-12 * p->second)) return bad(cat("concentration of '", id, "' in cell ", i, " is ", p->second, ", in cell ", j, " of the refined model ", w->second));
            const double tol = A.eT[i] + B.eT[j]; if (!std::isfinite(tol)) continue; const double u = ta.at(i), v = tb.at(j);
            if (!(std::fabs(u - v) <= tol + 1e-12 * u)) return bad(cat("tof of '", id, "' in cell ", i, " is ", u, ", in cell ", j, " of the refined model ", v));
        }
    }
}
static Reg r36("C36", c36);

} // namespace vf
