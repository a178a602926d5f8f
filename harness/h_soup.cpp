// C26: random calls over all classes, valid and invalid arguments mixed; only the sanitizers judge.
#include "flow.hpp"
#include "graph.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/numeric/RandomVector.hpp>
#include <limits>
namespace vf {
namespace {

const int INTS[] = { 0, 1, -1, 2, 3, 7, 100, 1000000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), std::numeric_limits<int>::max() - 1, -2, 65536 };
const std::size_t SIZES[] = { 0, 1, 2, 3, 5, 100, ~(std::size_t)0, ~(std::size_t)0 / 2, ~(std::size_t)0 / 8 + 1, (std::size_t)1 << 32, (std::size_t)1 << 61, (std::size_t)1 << 63 };
const double DBL[] = { 0.0, -0.0, 1.0, -1.0, 1e100, 1e-100, 5e-324, 2.2250738585072014e-308, 6.3072e9, 0.1, 3.0, 1e10 };

template <class F> void attempt(Ctx& x, F&& f) { try { f(); x.count("calls_accepted"); } catch (const std::exception&) { x.count("calls_rejected"); } }

void graphs(Ctx& x, Rng& r)
{
    int n = r.p(0.5) ? r.i(0, 9) : r.pick(INTS); std::vector<int> c; const int m = r.i(0, 9);
    for (int k = 0; k < m; ++k) c.push_back(r.p(0.9) ? r.i(0, std::max(1, std::min(n, 20)) - 1) : r.pick(INTS));
    attempt(x, [&] { ConnectivityGraph g(n, c); for (std::size_t k = 0; k < g.numConnections(); ++k) x.dig.i(g.connection(k).second); if (g.numCells() < 1000) { ConnectivityGraph h(g); Toolbox t(h); attempt(x, [&] { (void)t.computeInjectionDiagnostics({}); }); attempt(x, [&] { t.assignPoreVolume(std::vector<double>(g.numCells(), 1.0)); (void)t.computeProductionDiagnostics({}); }); } });
}

void values(Ctx& x, Rng& r)
{
    using V = ConnectionValues; auto sz = [&]() -> std::size_t { return r.p(0.6) ? (std::size_t)r.i(0, 6) : r.pick(SIZES); };
    const std::size_t a = sz(), b = sz();
    if (a && b && a <= ((std::size_t)1 << 60) / b && a * b > 1000000) return;     // would really be allocated
    attempt(x, [&] {
        V v{ V::NumConnections{ a }, V::NumPhases{ b } }; V w(v), u(V::NumConnections{ 1 }, V::NumPhases{ 1 });
        for (int k = 0; k < 8; ++k) { const std::size_t i = sz(), j = sz(); attempt(x, [&] { v({ i }, { j }) = 1.5; }); attempt(x, [&] { x.dig.d(static_cast<const V&>(w)({ i }, { j })); }); }
        u = v; V m(std::move(u)); w = std::move(m); x.dig.u64(w.numConnections()); });
}

// A usable loop-free or looping model with hostile calls around it.
void tool(Ctx& x, Rng& r)
{
    GenOpt o; o.maxN = 10; if (r.p(0.5)) { o.acyclic = true; o.wide = r.p(0.5); }
    Solved s; s.c = genFlow(r, o); const bool fw = r.p(0.5); s.forward = fw;
    if (!o.acyclic && !solveRef(s)) return;
    FlowCase& c = s.c;
    Toolbox t(libGraph(c)); const auto ids = activeWells(c, fw); auto ss = startSets(c, ids, fw);
    for (int k = 0; k < 6; ++k) switch (r.i(0, 8)) {
        case 0: attempt(x, [&] { t.assignPoreVolume(std::vector<double>(r.p(0.5) ? (std::size_t)c.n : (std::size_t)r.i(0, 20), 1.0)); }); break;
        case 1: attempt(x, [&] { t.assignConnectionFlux(ConnectionValues(ConnectionValues::NumConnections{ r.p(0.5) ? c.E() : (std::size_t)r.i(0, 9) }, ConnectionValues::NumPhases{ (std::size_t)r.i(0, 3) })); }); break;
        case 2: attempt(x, [&] { std::map<CellSetID, CellSetValues> w; w[CellSetID("a")][r.p(0.5) ? r.i(0, c.n - 1) : r.pick(INTS)] = r.pick(DBL); t.assignInflowFlux(w); }); break;
        case 3: attempt(x, [&] { std::vector<CellSet> q = ss; CellSet z{ CellSetID("a"), { r.i(-2, c.n + 2), r.pick(INTS) } }; q.push_back(z); if (fw) (void)t.computeInjectionDiagnostics(q); else (void)t.computeProductionDiagnostics(q); }); break;
        case 4: attempt(x, [&] { t.assignPoreVolume(c.pv); }); break;
        case 5: attempt(x, [&] { t.assignConnectionFlux(libFlux(c)); }); break;
        case 6: { Toolbox u(std::move(t)); t = Toolbox(libGraph(c)); t = std::move(u); break; }
        default: attempt(x, [&] { t.assignInflowFlux(libWells(c)); }); }
    // zero flux everywhere, no wells at all, then the real thing
    assignAll(t, c);
    attempt(x, [&] { if (r.p(0.5)) ss.push_back(CellSet(CellSetID("none"))); if (fw) { auto f = t.computeInjectionDiagnostics(ss); for (auto& i : f.fd.startPoints()) x.dig.map(f.fd.concentration(i)); } else { auto f = t.computeProductionDiagnostics(ss); for (auto& i : f.fd.startPoints()) x.dig.map(f.fd.timeOfFlight(i)); } });
    attempt(x, [&] { t.assignInflowFlux({}); auto f = t.computeInjectionDiagnostics({}); for (double q : f.fd.timeOfFlight()) x.dig.d(q); });
}

void curves(Ctx& x, Rng& r)
{
    auto vec = [&](std::size_t n) { std::vector<double> v(n); const int m = r.i(0, 3); for (auto& q : v) q = m == 0 ? 0.0 : m == 1 ? std::fabs(r.pick(DBL)) : m == 2 ? r.u() : r.p(0.3) ? std::numeric_limits<double>::infinity() : 1.0; return v; };
    const std::size_t n = (std::size_t)(r.p(0.3) ? r.i(0, 2) : r.i(0, 40)); auto other = [&] { return r.p(0.8) ? n : (std::size_t)r.i(0, 41); };
    attempt(x, [&] { const auto a = vec(n), b = vec(other()), v = vec(other()); const auto g = flowCapacityStorageCapacityCurve(a, b, v, r.p(0.5) ? 1.0 : r.u(-0.1, 1.1)); for (double q : g.second) x.dig.i(q > 0.5); (void)lorenzCoefficient(g); const auto w = sweepEfficiency(g); x.dig.u64(w.first.size()); });
    attempt(x, [&] { Graph g; g.first = vec(n); g.second = vec(other()); (void)lorenzCoefficient(g); (void)sweepEfficiency(g); });
}

void builder(Ctx& x, Rng& r)
{
    Opm::AssembledConnections a;
    const int k = r.i(1, 8);
    for (int q = 0; q < k; ++q) {
        const int m = r.i(0, 12); const bool wt = r.p(0.7); int mx = -1;
        for (int z = 0; z < m; ++z) { const int i = r.i(0, r.p(0.9) ? 5 : 2000), j = r.i(0, r.p(0.9) ? 5 : 2000); mx = std::max(mx, i); if (wt != r.p(0.03)) a.addConnection(i, j, r.pick(DBL)); else a.addConnection(i, j); }
        const std::size_t rows = r.p(0.2) ? (std::size_t)r.i(0, 3) : r.p(0.05) ? r.pick(SIZES) : (std::size_t)(mx + 1 + r.i(0, 3));
        if (rows > 100000 && rows < ((std::size_t)1 << 60)) continue;
        attempt(x, [&] { a.compress(rows); for (int i = 0; i < (int)a.numRows(); ++i) { if (a.connectionWeight().size() == a.neighbourhood().size()) for (const auto& e : a.cellNeighbourhood(i)) x.dig.i(e.neighbour); } if (a.connectionWeight().size() == a.neighbourhood().size()) { std::ostringstream o; o << a; x.dig.s(o.str()); } });
        if (r.p(0.2)) { Opm::AssembledConnections b(a), c; c = b; b = std::move(a); a = c; }
    }
}

void components(Ctx& x, Rng& r)
{
    destroy_tarjan_sccresult(nullptr); destroy_tarjan_workspace(nullptr);
    Digraph g; randomGraph(r, g, r.p(0.1) ? r.i(1020, 1030) : 0); if (r.p(0.05)) { g.n = 0; g.e.clear(); } g.finish(r, true);
    auto* ws = create_tarjan_workspace((std::size_t)g.n + (std::size_t)r.i(0, 2));
    for (int k = 0; k < 3; ++k) {
        std::vector<int> st; const int m = g.n ? r.i(0, 4) : 0; for (int q = 0; q < m; ++q) st.push_back(r.i(0, g.n - 1));
        auto* s = r.p(0.5) ? tarjan((std::size_t)g.n, g.ia.get(), g.ja.get()) : tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), st.data(), ws);
        const int rev = r.i(0, 3); for (int q = 0; q < rev; ++q) x.dig.i(tarjan_reverse_sccresult(s));
        for (auto& c : readComps(s)) for (int v : c) x.dig.i(v);
        destroy_tarjan_sccresult(s);
    }
    destroy_tarjan_workspace(ws);
}

void containers(Ctx& x, Rng& r)
{
    std::vector<std::unique_ptr<Solution>> v; v.emplace_back(new Solution); v.emplace_back(new Solution); std::vector<CellSet> cs;
    for (int k = 0; k < 20; ++k) {
        auto& s = *v[(std::size_t)r.i(0, (int)v.size() - 1)]; const CellSetID id(wellName(r, k));
        CellSetValues d; for (int q = r.i(0, 5); q > 0; --q) d[r.p(0.8) ? r.i(0, 20) : r.pick(INTS)] = r.pick(DBL);
        switch (r.i(0, 8)) {
        case 0: s.assign(id, Solution::TimeOfFlight{ d }); break;
        case 1: s.assign(id, Solution::TracerConcentration{ d }); break;
        case 2: s.assignGlobalToF(std::vector<double>((std::size_t)r.i(0, 30), r.u())); break;
        case 3: { Solution c(s); v.emplace_back(new Solution(std::move(c))); break; }
        case 4: if (v.size() > 1) v.erase(v.begin() + r.i(0, (int)v.size() - 1)); break;
        case 5: for (const auto& i : s.startPoints()) { x.dig.s(i.to_string()); x.dig.map(s.concentration(i)); x.dig.map(s.timeOfFlight(i)); } for (double q : s.timeOfFlight()) x.dig.d(q); break;
        case 6: { CellSet c(id); for (int q = r.i(0, 9); q > 0; --q) c.insert(r.p(0.7) ? r.i(0, 5) : r.pick(INTS)); cs.push_back(c); break; }
        case 7: if (!cs.empty()) { CellSet c(r.pick(cs)); cs.push_back(std::move(c)); std::set<int> z(cs.back().begin(), cs.back().end()); for (int q : z) x.dig.i(q); x.dig.s(cs.back().id().to_string()); } break;
        default: { Opm::RandomVector q; for (int i : q.index((std::size_t)r.i(0, 5), r.p(0.5) ? r.i(0, 5) : std::numeric_limits<int>::max())) x.dig.i(i); x.dig.u64(q.normal((std::size_t)r.i(0, 5), r.pick(DBL), 1.0).size()); }
        }
    }
}
} // namespace

static void c26(Ctx& x, Rng& r)
{
    static const char* nm[] = { "graphs", "values", "toolbox", "curves", "builder", "components", "containers" };
    const int k = r.i(1, 6);
    for (int q = 0; q < k; ++q) { const int w = r.i(0, 6); x.count(std::string("kind ") + nm[w]); switch (w) { case 0: graphs(x, r); break; case 1: values(x, r); break; case 2: tool(x, r); break; case 3: curves(x, r); break; case 4: builder(x, r); break; case 5: components(x, r); break; default: containers(x, r); } }
    x.nontrivial(x.dig.h ^ x.caseSeed()); x.sample([&] { return cat(k, " groups of calls"); });
}
static Reg r26("C26", c26);

} // namespace vf
