// C14, C15: injector-producer pairs.
#include "flow.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
namespace vf {

struct Both { FlowCase c; std::unique_ptr<RefFlow> F, B; RefSol gF, gB; std::vector<std::string> inj, prod; std::map<std::string, RefSol> lF, lB; };

static bool draw(Ctx& x, Rng& r, Both& b, GenOpt o)
{
    for (int t = 0; t < 20; ++t) {
        o.huge = x.idx % 1999 == 1234 && t < 3; o.big = x.idx % 199 == 3 && t < 3;
        b.c = genFlow(r, o); b.lF.clear(); b.lB.clear();
        b.F.reset(new RefFlow(b.c, true)); b.B.reset(new RefFlow(b.c, false));
        if (b.F->ambiguous || b.B->ambiguous || b.F->selfloop) continue;
        b.gF = refSolve(*b.F, b.F->S, 5e6); b.gB = refSolve(*b.B, b.B->S, 5e6);
        if (!b.gF.ok || !b.gB.ok) { x.count("redrawn"); continue; }
        b.inj = activeWells(b.c, true); b.prod = activeWells(b.c, false); bool ok = true;
        for (const auto& i : b.inj) { auto q = refSolve(*b.F, wellSource(b.c, i, true), 5e6); ok = ok && q.ok; b.lF[i] = std::move(q); if (!ok) break; }
        if (ok) for (const auto& i : b.prod) { auto q = refSolve(*b.B, wellSource(b.c, i, false), 5e6); ok = ok && q.ok; b.lB[i] = std::move(q); if (!ok) break; }
        if (ok) return true;
        x.count("redrawn");
    }
    return false;
}

static GenOpt mix(Rng& r)
{ GenOpt o; const int k = r.i(0, 5); if (k <= 2) o.conserve = true; else if (k == 3) o.loops = true; else if (k == 4) o.acyclic = true; return o; }

static void c14(Ctx& x, Rng& r)
{
    Both b; if (!draw(x, r, b, mix(r))) return;
    Toolbox t(libGraph(b.c)); assignAll(t, b.c);
    auto inj = b.inj, prod = b.prod;
    std::set<std::string> skipI, skipP;
    if (r.p(0.15) && !inj.empty()) { skipI.insert(inj.back()); inj.pop_back(); }
    if (r.p(0.15) && !prod.empty()) { skipP.insert(prod.front()); prod.erase(prod.begin()); }
    const auto f = t.computeInjectionDiagnostics(startSets(b.c, inj, true));
    const auto p = t.computeProductionDiagnostics(startSets(b.c, prod, false));
    // volumes passed to the function need not be those of the solution
    auto pv = b.c.pv; if (r.p(0.3)) for (auto& v : pv) v = r.logu(-2, 5);
    const auto supF = b.F->supplied(), supB = b.B->supplied();
    long double all = 0; bool any = false;
    auto allI = b.inj, allP = b.prod; allI.push_back("no such injector"); allP.push_back("no such producer"); if (!b.prod.empty()) allI.push_back(b.prod[0]);
    for (const auto& i : allI) for (const auto& q : allP) {
        const double v = injectorProducerPairVolume(f, p, pv, CellSetID(i), CellSetID(q));
        x.dig.d(v); x.count("pairs");
        const auto ci = f.fd.concentration(CellSetID(i)), cp = p.fd.concentration(CellSetID(q));
        long double e = 0, cap = 0; int common = 0;
        for (const auto& a : ci) { const auto z = cp.find(a.first); if (z != cp.end()) { e += (long double)pv[a.first] * a.second * z->second; cap += pv[a.first]; ++common; } }
        if (common) { any = true; x.count("overlapping_pairs"); }
        const bool isI = std::find(inj.begin(), inj.end(), i) != inj.end(), isP = std::find(prod.begin(), prod.end(), q) != prod.end();
        if ((!isI || !isP || !common) && v != 0.0) { x.fail("pair-volume-zero", cat("volume of ('", i, "','", q, "') is ", v, " without overlap; ", describe(b.c))); return; }
        if (!(std::fabs((double)(v - e)) <= 1e-12 * (double)e + 1e-300)) { x.fail("pair-volume", cat("volume of ('", i, "','", q, "') is ", v, ", expected ", (double)e, "; ", describe(b.c))); return; }
        if (!(v >= 0 && v <= (double)cap * (1 + 1e-6))) { x.fail("pair-volume-bound", cat("volume of ('", i, "','", q, "') is ", v, ", overlap ", (double)cap)); return; }
        if (i != (b.prod.empty() ? std::string("\x01") : b.prod[0]) || std::find(b.inj.begin(), b.inj.end(), i) != b.inj.end()) all += v;
        if (std::find(b.inj.begin(), b.inj.end(), i) != b.inj.end() && i == (b.prod.empty() ? std::string("\x01") : b.prod[0])) all -= v / 2; // listed twice
    }
    if (skipI.empty() && skipP.empty()) {
        // independent account: pore volume weighted with the reference concentrations
        long double tot = 0, tol = 0, full = 0; bool allFull = true;
        for (int k = 0; k < b.c.n; ++k) {
            const long double w = (long double)pv[k] * b.gF.c[k] * b.gB.c[k]; tot += w;
            double e1 = 0, e2 = 0; for (const auto& i : b.inj) e1 += b.lF[i].eC[k]; for (const auto& i : b.prod) e2 += b.lB[i].eC[k];
            tol += pv[k] * (e1 + e2) * 1.1L + 1e-11L * w;
            if (supF[k] && supB[k]) full += pv[k]; else if (b.gF.reach[k] && b.gB.reach[k]) allFull = false;
        }
        x.count("totals_checked");
        if (std::fabs((double)(all - tot)) > (double)tol) { x.fail("pair-volume-total", cat("pair volumes sum to ", (double)all, ", expected ", (double)tot, " +- ", (double)tol, "; ", describe(b.c))); return; }
        if (allFull && full > 0) { x.count("full_totals_checked"); if (std::fabs((double)(all - full)) > (double)tol + 1e-11 * (double)full) { x.fail("pair-volume-total", cat("pair volumes sum to ", (double)all, ", pore volume swept is ", (double)full, "; ", describe(b.c))); return; } }
    }
    if (any) x.nontrivial(hashCase(b.c));
    x.sample([&] { return describe(b.c); });
}
static Reg r14("C14", c14);

static void c15(Ctx& x, Rng& r)
{
    Both b; if (!draw(x, r, b, mix(r))) return;
    Toolbox t(libGraph(b.c)); assignAll(t, b.c);
    const auto f = t.computeInjectionDiagnostics(startSets(b.c, b.inj, true));
    const auto p = t.computeProductionDiagnostics(startSets(b.c, b.prod, false));
    auto W = libWells(b.c);
    // optionally other rates than those of the solution (then only the definition is checked)
    const bool other = r.p(0.2);
    if (other) for (auto& w : W) for (auto& q : w.second) q.second *= r.p(0.2) ? -r.u(0.5, 2) : r.p(0.2) ? 0.0 : r.u(0.5, 2);
    auto ids = b.inj; for (const auto& i : b.prod) if (std::find(ids.begin(), ids.end(), i) == ids.end()) ids.push_back(i);
    std::map<std::string, long double> sumI, sumP, tolI, tolP; bool any = false;
    for (const auto& i : ids) for (const auto& q : ids) {
        const auto v = injectorProducerPairFlux(f, p, CellSetID(i), CellSetID(q), W);
        x.dig.d(v.first); x.dig.d(v.second); x.count("pairs");
        const auto ci = f.fd.concentration(CellSetID(i)), cp = p.fd.concentration(CellSetID(q));
        long double a = 0, d = 0, ta = 0, td = 0;
        for (const auto& z : W.at(CellSetID(i))) if (z.second > 0 && cp.count(z.first)) { a += (long double)z.second * cp.at(z.first); ta += z.second * b.lB[q].eC[z.first]; }
        for (const auto& z : W.at(CellSetID(q))) if (z.second < 0 && ci.count(z.first)) { d += (long double)z.second * ci.at(z.first); td -= z.second * b.lF[i].eC[z.first]; }
        if (a > 0 || d < 0) { any = true; x.count("connected_pairs"); }
        if (v.first < 0 || v.second > 0) { x.fail("pair-flux-sign", cat("fluxes of ('", i, "','", q, "') are ", v.first, ", ", v.second, "; ", describe(b.c))); return; }
        if (std::fabs((double)(v.first - a)) > 1e-12 * (double)a || std::fabs((double)(v.second - d)) > 1e-12 * -(double)d) { x.fail("pair-flux", cat("fluxes of ('", i, "','", q, "') are ", v.first, ", ", v.second, ", expected ", (double)a, ", ", (double)d, "; ", describe(b.c))); return; }
        if (b.c.conserving && !other) {
            x.count("balances_checked");
            if (std::fabs(v.first + v.second) > (double)(ta + td) * 1.1 + 1e-11 * v.first + 1e-290) { x.fail("pair-flux-balance", cat("fluxes of ('", i, "','", q, "') are ", v.first, ", ", v.second, " in a mass-conserving field; ", describe(b.c))); return; }
        }
        sumI[i] += v.first; sumP[q] += v.second; tolI[i] += ta; tolP[q] += td;
    }
    if (b.c.conserving && !other) for (const auto& i : ids) {
        double qi = 0, qp = 0; for (const auto& z : b.c.wells.at(i)) (z.second > 0 ? qi : qp) += z.second;
        x.count("well_totals_checked", 2);
        if (std::fabs((double)(sumI[i] - qi)) > (double)tolI[i] * 1.1 + 1e-11 * qi) { x.fail("pair-flux-total", cat("fluxes from '", i, "' to all producers sum to ", (double)sumI[i], ", it injects ", qi, "; ", describe(b.c))); return; }
        if (std::fabs((double)(sumP[i] - qp)) > (double)tolP[i] * 1.1 - 1e-11 * qp) { x.fail("pair-flux-total", cat("fluxes from all injectors to '", i, "' sum to ", (double)sumP[i], ", it produces ", qp, "; ", describe(b.c))); return; }
    }
    // IDs without inflow data
    for (int k = 0; k < 2 && !ids.empty(); ++k) {
        bool thrown = false; const auto good = CellSetID(r.pick(ids)), bad = CellSetID("no such well");
        try { (void)(k ? injectorProducerPairFlux(f, p, good, bad, W) : injectorProducerPairFlux(f, p, bad, good, W)); }
        catch (const std::runtime_error&) { thrown = true; }
        x.count("rejections_checked");
        if (!thrown) { x.fail("pair-flux-reject", "an ID without inflow data was not rejected"); return; }
    }
    if (any) x.nontrivial(hashCase(b.c));
    x.sample([&] { return describe(b.c); });
}
static Reg r15("C15", c15);

// Arrival at the producer's cells (or, in reverse, at the injector's) against the volume of the pair.
static void c35(Ctx& x, Rng& r)
{
    GenOpt o = mix(r); o.conserve = true; o.acyclic = false; o.loops = false;
    Both b; if (!draw(x, r, b, o)) return;
    if (!b.c.conserving) { x.count("not_conserving"); return; }
    Toolbox t(libGraph(b.c)); assignAll(t, b.c);
    const auto f = t.computeInjectionDiagnostics(startSets(b.c, b.inj, true));
    const auto p = t.computeProductionDiagnostics(startSets(b.c, b.prod, false));
    auto limited = [&](const RefSol& R) { for (int k = 0; k < b.c.n; ++k) if (R.reach[k] && (R.slow[k] || !(R.t[k] < 0.999L * CAP))) return true; return false; };
    std::map<std::string, bool> limF, limB; for (const auto& i : b.inj) limF[i] = limited(b.lF[i]); for (const auto& i : b.prod) limB[i] = limited(b.lB[i]);
    auto bad = [&](const std::string& m) { x.fail("arrival", cat(m, "; ", describe(b.c))); };
    bool any = false;
    // one side: rate * concentration * time over the cells where the other well is active
    struct Sum { long double q = 0, v = 0, tq = 0, tv = 0; };
    auto arrive = [&](const CellSetValues& c, const CellSetValues& T, const RefSol& R, const std::map<int, double>& other, bool positive) {
        Sum s;
        for (const auto& z : other) { if (positive ? !(z.second > 0) : !(z.second < 0)) continue; const auto a = c.find(z.first); if (a == c.end()) continue;
            const int k = z.first; const long double w = std::fabs(z.second), u = T.at(k); s.q += w * a->second; s.v += w * a->second * u;
            s.tq += w * R.eC[k]; s.tv += w * ((long double)R.eC[k] * u + a->second * (long double)R.eT[k] + (long double)R.eC[k] * R.eT[k]); }
        return s; };
    std::map<std::string, Sum> totF, totB;
    for (const auto& i : b.inj) for (const auto& q : b.prod) {
        const auto ci = f.fd.concentration(CellSetID(i)), ti = f.fd.timeOfFlight(CellSetID(i)), cp = p.fd.concentration(CellSetID(q)), tp = p.fd.timeOfFlight(CellSetID(q));
        const RefSol &A = b.lF[i], &B = b.lB[q];
        const double v = injectorProducerPairVolume(f, p, b.c.pv, CellSetID(i), CellSetID(q)); x.dig.d(v); x.count("pairs");
        long double tol = 0; for (const auto& z : ci) { const auto w = cp.find(z.first); if (w != cp.end()) { const int k = z.first; tol += b.c.pv[k] * ((long double)z.second * B.eC[k] + (long double)w->second * A.eC[k] + (long double)A.eC[k] * B.eC[k]); } }
        const auto F = arrive(ci, ti, A, b.c.wells.at(q), false), R = arrive(cp, tp, B, b.c.wells.at(i), true);
        for (int d = 0; d < 2; ++d) {
            const Sum& S = d ? R : F; auto& T = d ? totB[q] : totF[i]; T.q += S.q; T.v += S.v; T.tq += S.tq; T.tv += S.tv;
            if (d ? limB[q] : limF[i]) { x.count("limited"); continue; } if (!std::isfinite((double)S.tv)) { x.count("unbounded"); continue; }
            x.count("arrivals_compared"); if (v > 0) any = true;
            if (!(std::fabs((double)(S.v - (long double)v)) <= 1.1 * (double)(S.tv + tol) + 1e-10 * v + 1e-290)) return bad(cat("volume of ('", i, "','", q, "') is ", v, ", rate times concentration times ", d ? "reverse" : "forward", " time is ", (double)S.v, " +- ", (double)(S.tv + tol)));
        }
    }
    // all that a well brings in leaves, and takes the volume it fills
    for (int d = 0; d < 2; ++d) for (const auto& i : d ? b.prod : b.inj) {
        const auto& T = d ? totB[i] : totF[i]; const auto& R = d ? b.lB[i] : b.lF[i]; const auto c = d ? p.fd.concentration(CellSetID(i)) : f.fd.concentration(CellSetID(i));
        long double q = 0, v = 0, tol = 0; for (const auto& z : b.c.wells.at(i)) if (d ? z.second < 0 : z.second > 0) q += std::fabs(z.second);
        for (const auto& z : c) { v += (long double)b.c.pv[z.first] * z.second; tol += b.c.pv[z.first] * R.eC[z.first]; }
        x.count("well_totals_checked");
        if (!(std::fabs((double)(T.q - q)) <= 1.1 * (double)T.tq + 1e-10 * (double)q)) return bad(cat("of the fluid of '", i, "' (rate ", (double)q, ") ", (double)T.q, " arrives"));
        if (d ? limB[i] : limF[i]) continue; if (!std::isfinite((double)T.tv)) continue;
        x.count("well_volumes_checked");
        if (!(std::fabs((double)(T.v - v)) <= 1.1 * (double)(T.tv + tol) + 1e-10 * (double)v)) return bad(cat("fluid of '", i, "' occupies ", (double)v, ", rate times time on arrival is ", (double)T.v));
    }
    if (any) x.nontrivial(hashCase(b.c));
    x.sample([&] { return describe(b.c); });
}
static Reg r35("C35", c35);

} // namespace vf
