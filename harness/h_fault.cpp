// C27: every single allocation of an operation is made to fail (once, and from there on).
// Built with -Wl,--wrap=malloc etc., so that allocations of the C part count as well as operator new.
#include "flow.hpp"
#include "graph.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/numeric/RandomVector.hpp>
#include <new>

// ------------------------------------------------------------------ allocation monitor

namespace {
struct Mon { bool armed = false, persistent = false; long long k = -1, seen = 0, failed = 0, live = 0, total = 0; } M;
bool mustFail()
{
    ++M.total;
    if (!M.armed) return false;
    const long long i = M.seen++;
    if (i == M.k || (M.persistent && M.k >= 0 && i > M.k)) { ++M.failed; return true; }
    return false;
}
}
extern "C" {
void* __real_malloc(std::size_t); void* __real_calloc(std::size_t, std::size_t); void* __real_realloc(void*, std::size_t); void __real_free(void*);
void* __wrap_malloc(std::size_t n) { if (mustFail()) return nullptr; void* p = __real_malloc(n); if (p) ++M.live; return p; }
void* __wrap_calloc(std::size_t a, std::size_t b) { if (mustFail()) return nullptr; void* p = __real_calloc(a, b); if (p) ++M.live; return p; }
void* __wrap_realloc(void* q, std::size_t n) { if (mustFail()) return nullptr; void* p = __real_realloc(q, n); if (p && !q) ++M.live; return p; }
void __wrap_free(void* p) { if (p) --M.live; __real_free(p); }
}
void* operator new(std::size_t n) { if (mustFail()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++M.live; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { if (p) --M.live; __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

namespace vf {

struct Fault {
    long long k; bool persistent; bool fired = false; std::string why; bool threw = false;
    // runs f with the fault armed; true if it returned
    template <class F> bool run(F&& f)
    {
        M.k = k; M.persistent = persistent; M.seen = 0; M.failed = 0; M.armed = true;
        bool ret = false;
        try { f(); M.armed = false; ret = true; }
        catch (const std::exception&) { M.armed = false; threw = true; }
        catch (...) { M.armed = false; threw = true; why = "threw something that is not a std::exception"; }
        fired = M.failed > 0;
        return ret;
    }
};

// One operation: run() executes it with the given fault and leaves a complaint in f.why.
struct Op { std::string name; std::function<void(Fault&)> run; };

struct Model { Solved s; };

static std::string same(const LibOut& a, const LibOut& b) { return diffBits(a, b); }

// The inputs and expected results are prepared beforehand and captured by reference.
static std::vector<Op> toolboxOps(const FlowCase& c, const FlowCase& c2, const std::vector<std::string>& inj, const std::vector<std::string>& prod, const std::vector<std::string>& inj2, const LibOut& refF, const LibOut& refR, const LibOut& refF2)
{
    std::vector<Op> v;
    v.push_back({ "graph", [&c](Fault& f) { std::unique_ptr<ConnectivityGraph> g; if (!f.run([&] { g.reset(new ConnectivityGraph(c.n, c.conn)); })) g.reset(new ConnectivityGraph(c.n, c.conn)); if (g->numConnections() != c.E()) f.why = "graph is wrong"; } });
    v.push_back({ "toolbox construction", [&c, &inj, &refF](Fault& f) { const auto g = libGraph(c); std::unique_ptr<Toolbox> t; if (!f.run([&] { t.reset(new Toolbox(g)); })) t.reset(new Toolbox(g)); assignAll(*t, c); f.why = same(refF, compute(*t, c, true, inj)); } });
    // assignments, on a toolbox that has other inputs already or none
    for (int used = 0; used < 2; ++used) for (int what = 0; what < 3; ++what) for (int after = 0; after < 2; ++after) {
        static const char* nm[] = { "assign pore volume", "assign flux", "assign inflow" };
        v.push_back({ cat(nm[what], used ? " again" : "", after ? ", then use without retry" : ""), [&c, &c2, &inj, &refF, &prod, &refR, used, what, after](Fault& f) {
            Toolbox t(libGraph(c)); const auto fl = libFlux(c); const auto w = libWells(c);
            if (used) { assignAll(t, c2); (void)t.computeInjectionDiagnostics({}); }
            if (what != 0) t.assignPoreVolume(c.pv); if (what != 1) t.assignConnectionFlux(fl); if (what != 2) t.assignInflowFlux(w);
            const bool ok = f.run([&] { if (what == 0) t.assignPoreVolume(c.pv); else if (what == 1) t.assignConnectionFlux(fl); else t.assignInflowFlux(w); });
            if (!ok && after) { try { (void)t.computeInjectionDiagnostics({}); (void)t.computeProductionDiagnostics({}); } catch (const std::exception&) {} }
            if (!ok) { if (what == 0) t.assignPoreVolume(c.pv); else if (what == 1) t.assignConnectionFlux(fl); else t.assignInflowFlux(w); }
            f.why = same(refF, compute(t, c, true, inj)); if (f.why.empty()) f.why = same(refR, compute(t, c, false, prod)); } });
    }
    // computations: repeated, or followed by the other direction, or by new inputs
    for (int fw = 0; fw < 2; ++fw) for (int warm = 0; warm < 2; ++warm) for (int after = 0; after < 3; ++after)
        v.push_back({ cat(fw ? "compute injection" : "compute production", warm ? " (connections built)" : "", after == 0 ? ", repeat" : after == 1 ? ", other direction" : ", other input"),
            [&c, &c2, &inj, &prod, &inj2, &refF, &refR, &refF2, fw, warm, after](Fault& f) {
            Toolbox t(libGraph(c)); assignAll(t, c); if (warm) (void)t.computeInjectionDiagnostics({});
            const auto ss = startSets(c, fw ? inj : prod, fw); std::unique_ptr<Toolbox::Forward> F; std::unique_ptr<Toolbox::Reverse> R;
            const bool ok = f.run([&] { if (fw) F.reset(new Toolbox::Forward(t.computeInjectionDiagnostics(ss))); else R.reset(new Toolbox::Reverse(t.computeProductionDiagnostics(ss))); });
            if (ok) f.why = fw ? same(refF, grab(F->fd, inj)) : same(refR, grab(R->fd, prod));
            if (!f.why.empty()) { f.why = "returned a wrong result: " + f.why; return; }
            if (after == 0) { f.why = fw ? same(refF, compute(t, c, true, inj)) : same(refR, compute(t, c, false, prod)); }
            else if (after == 1) { f.why = fw ? same(refR, compute(t, c, false, prod)) : same(refF, compute(t, c, true, inj)); }
            else { assignAll(t, c2); f.why = same(refF2, compute(t, c2, true, inj2)); }
            if (!f.why.empty()) f.why = "afterwards: " + f.why; } });
    v.push_back({ "query solution", [&c, &inj, &refF](Fault& f) { Toolbox t(libGraph(c)); assignAll(t, c); const auto F = t.computeInjectionDiagnostics(startSets(c, inj, true)); LibOut o;
        if (!f.run([&] { o = grab(F.fd, inj); })) o = grab(F.fd, inj); f.why = same(refF, o); } });
    v.push_back({ "copy solution", [&c, &inj, &refF](Fault& f) { Toolbox t(libGraph(c)); assignAll(t, c); const auto F = t.computeInjectionDiagnostics(startSets(c, inj, true)); std::unique_ptr<Solution> s;
        if (!f.run([&] { s.reset(new Solution(F.fd)); })) s.reset(new Solution(F.fd)); f.why = same(refF, grab(*s, inj)); if (f.why.empty()) f.why = same(refF, grab(F.fd, inj)); } });
    return v;
}

// each computation is repeated some ten thousand times, so those that need many passes are left out
static double recirculation(const Solved& s) { double m = s.glob.N; for (auto& q : s.loc) m = std::max(m, q.second.N); return m; }

static void c27(Ctx& x, Rng& r)
{
    // small usable cases in both directions
    FlowCase c, c2; std::vector<std::string> inj, prod, inj2; LibOut refF, refR, refF2;
    for (;;) {
        GenOpt o; o.maxN = 9; if (r.p(0.4)) o.loops = true; if (r.p(0.3)) o.conserve = true;
        Solved s; s.c = genFlow(r, o); s.forward = true; if (!solveRef(s) || recirculation(s) > 40) continue; s.forward = false; if (!solveRef(s) || recirculation(s) > 40) continue;
        c = s.c; inj = activeWells(c, true); prod = activeWells(c, false); if (inj.empty() && prod.empty()) continue;
        c2 = c; for (auto& q : c2.pv) q *= 2; for (auto& q : c2.flux) q = -q; Wells w; for (auto& q : c2.wells) for (auto& z : q.second) w[q.first + "x"][z.first] = -z.second; c2.wells = w; inj2 = activeWells(c2, true);
        if (r.p(0.5) && c2.np > 1) { std::vector<double> t; for (std::size_t e = 0; e < c2.E(); ++e) t.push_back(c2.total(e)); c2.flux = t; c2.np = 1; }
        // a failed assignment leaves a mixture of both inputs, which is then computed too
        bool ok = true; for (int k = 0; k < 2 && ok; ++k) for (int fw = 0; fw < 2 && ok; ++fw) { Solved m; m.c = k ? c2 : c; m.c.wells = k ? c.wells : c2.wells; m.forward = fw != 0; ok = solveRef(m) && recirculation(m) <= 40; m.c = c2; ok = ok && solveRef(m) && recirculation(m) <= 40; }
        if (!ok) continue;
        break;
    }
    refF = runLib(c, true, inj); refR = runLib(c, false, prod); refF2 = runLib(c2, true, inj2);
    auto ops = toolboxOps(c, c2, inj, prod, inj2, refF, refR, refF2);
    // components
    Digraph g; randomGraph(r, g); while (g.n > 60) { g.e.clear(); randomGraph(r, g); } if (r.p(0.05)) { g.n = 0; g.e.clear(); } g.finish(r, true);
    std::vector<int> st; for (int k = 0; k < 3 && g.n > 0; ++k) st.push_back(r.i(0, g.n - 1));
    auto whole = [&] { auto* s = tarjan((std::size_t)g.n, g.ia.get(), g.ja.get()); auto q = readComps(s); destroy_tarjan_sccresult(s); return q; };
    const Comps ref = whole(); Comps refL;
    { auto* ws = create_tarjan_workspace((std::size_t)g.n); auto* s = tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), st.data(), ws); refL = readComps(s); destroy_tarjan_sccresult(s); destroy_tarjan_workspace(ws); }
    ops.push_back({ "tarjan", [&](Fault& f) { TarjanSCCResult* s = nullptr; f.run([&] { s = tarjan((std::size_t)g.n, g.ia.get(), g.ja.get()); }); if (f.threw) f.why = "threw"; if (s && readComps(s) != ref) f.why = "wrong result"; if (!s && !f.fired) f.why = "no result without a failure"; destroy_tarjan_sccresult(s); if (f.why.empty() && whole() != ref) f.why = "wrong result afterwards"; } });
    ops.push_back({ "work-space", [&](Fault& f) { TarjanWorkSpace* w = nullptr; f.run([&] { w = create_tarjan_workspace((std::size_t)g.n); }); if (f.threw) f.why = "threw"; destroy_tarjan_workspace(w); } });
    ops.push_back({ "reachable", [&](Fault& f) {
        TarjanWorkSpace* ws = create_tarjan_workspace((std::size_t)g.n); TarjanSCCResult* s = nullptr;
        f.run([&] { s = tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), st.data(), ws); }); if (f.threw) f.why = "threw";
        if (s && readComps(s) != refL) f.why = "wrong result"; destroy_tarjan_sccresult(s);
        s = tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), st.data(), ws); if (!s || readComps(s) != refL) f.why = "wrong result afterwards"; destroy_tarjan_sccresult(s); destroy_tarjan_workspace(ws); } });
    ops.push_back({ "reversal", [&](Fault& f) {
        TarjanSCCResult* s = tarjan((std::size_t)g.n, g.ia.get(), g.ja.get()); int ok = 1; f.run([&] { ok = tarjan_reverse_sccresult(s); }); if (f.threw) f.why = "threw";
        auto rev = ref; std::reverse(rev.begin(), rev.end()); const auto now = readComps(s);
        if (f.fired && ok && now != rev) f.why = "reports success but is not reversed"; if (!ok && now != ref) f.why = "a failed reversal changed the list"; if (!f.fired && (!ok || now != rev)) f.why = "fails without a failure";
        if (!ok) { if (!tarjan_reverse_sccresult(s) || readComps(s) != rev) f.why = "cannot be repeated"; } destroy_tarjan_sccresult(s); } });
    // builder
    struct A { int i, j; double v; }; std::vector<A> adds; int rows = 0; { const int m = r.i(1, 20); for (int k = 0; k < m; ++k) { adds.push_back({ r.i(0, 6), r.i(0, 9), (double)r.i(-5, 5) }); rows = std::max(rows, adds.back().i + 1); } rows += r.i(0, 3); }
    auto fill = [&](Opm::AssembledConnections& a) { for (auto& q : adds) a.addConnection(q.i, q.j, q.v); };
    Opm::AssembledConnections good; fill(good); good.compress((std::size_t)rows);
    auto eq = [](const Opm::AssembledConnections& a, const Opm::AssembledConnections& b) { return a.startPointers() == b.startPointers() && a.neighbourhood() == b.neighbourhood() && a.connectionWeight() == b.connectionWeight(); };
    for (int used = 0; used < 2; ++used) ops.push_back({ used ? "compress again" : "compress", [&, used](Fault& f) { Opm::AssembledConnections a; if (used) { a.addConnection(3, 4, 1.0); a.addConnection(0, 40, 1.0); a.compress(9); } fill(a); if (!f.run([&] { a.compress((std::size_t)rows); })) a.compress((std::size_t)rows); if (!eq(a, good)) f.why = "wrong graph"; } });
    ops.push_back({ "add connections", [&](Fault& f) { Opm::AssembledConnections a; if (!f.run([&] { fill(a); })) { a = Opm::AssembledConnections(); fill(a); } a.compress((std::size_t)rows); if (!eq(a, good)) f.why = "wrong graph"; } });
    ops.push_back({ "copy connections", [&](Fault& f) { Opm::AssembledConnections a; a.addConnection(1, 1, 1.0); a.compress(2); if (!f.run([&] { a = good; })) a = good; if (!eq(a, good)) f.why = "wrong graph"; } });
    ops.push_back({ "write connections", [&](Fault& f) { std::ostringstream o, p; p << good; const auto fl = o.flags(); f.run([&] { o << good; }); if (o.good() && !f.threw && o.str() != p.str()) f.why = "incomplete output on a good stream"; if (!f.threw && o.flags() != fl) f.why = "stream flags changed"; } });
    // values, sets, solutions
    ops.push_back({ "connection values", [&](Fault& f) { using V = ConnectionValues; V a(V::NumConnections{ 2 }, V::NumPhases{ 1 }), b(V::NumConnections{ 40 }, V::NumPhases{ 3 }); b({ 39 }, { 2 }) = 5; a({ 1 }, { 0 }) = 7;
        const bool ok = f.run([&] { V z(V::NumConnections{ 4 }, V::NumPhases{ 4 }); a = b; });
        for (std::size_t e = 0; e < a.numConnections(); ++e) for (std::size_t p = 0; p < a.numPhases(); ++p) (void)a({ e }, { p });     // consistent: readable within its sizes
        if (!ok) a = b; if (a.numConnections() != 40 || a({ 39 }, { 2 }) != 5) f.why = "wrong values"; } });
    ops.push_back({ "cell set", [&](Fault& f) { std::unique_ptr<CellSet> s; std::vector<int> cells{ 5, 1, 5, 9, 200 }; auto mk = [&] { s.reset(new CellSet(CellSetID("a name of more than fifteen characters"), cells)); s->insert(7); }; if (!f.run(mk)) mk(); std::set<int> q(s->begin(), s->end()); if (q != std::set<int>{ 1, 5, 7, 9, 200 } || s->id().to_string().size() != 38) f.why = "wrong set"; } });
    ops.push_back({ "cell set insert", [&](Fault& f) { CellSet s{ CellSetID("a"), { 1, 2, 3 } }; int done = 0; if (!f.run([&] { for (; done < 40; ++done) s.insert(10 + done); })) for (; done < 40; ++done) s.insert(10 + done); std::set<int> q(s.begin(), s.end()); std::size_t n = 0; for (int z : s) { (void)z; ++n; } if (n != 43 || q.size() != 43) f.why = "wrong set"; } });
    for (int k = 0; k < 3; ++k) ops.push_back({ cat("solution assign ", k), [&, k](Fault& f) {
        Solution s; const CellSetID id("an identifier that does not fit in place"), other("other");
        CellSetValues d; for (int i = 0; i < 5; ++i) d[i] = i + 0.5;
        { Solution::TracerConcentration t; t.data[1] = 1; s.assign(other, std::move(t)); } if (k == 2) { Solution::TracerConcentration t; t.data[2] = 2; s.assign(id, std::move(t)); }
        auto go = [&] { if (k == 0) { s.assignGlobalToF(std::vector<double>{ 1, 2, 3 }); Solution::TimeOfFlight t; t.data = d; s.assign(id, std::move(t)); } else { Solution::TracerConcentration t; t.data = d; s.assign(id, std::move(t)); } };
        if (!f.run(go)) { (void)s.startPoints(); (void)s.concentration(id); (void)s.timeOfFlight(id); go(); }
        const auto got = k == 0 ? s.timeOfFlight(id) : s.concentration(id); if (got != d) f.why = "wrong values"; if (s.concentration(other).size() != 1) f.why = "other values changed"; if (s.startPoints().size() != (k == 0 ? 1u : 2u)) f.why = "wrong start points"; } });
    // derived quantities
    { const Toolbox::Forward* F = nullptr; (void)F; }
    Toolbox tb(libGraph(c)); assignAll(tb, c); const auto F = tb.computeInjectionDiagnostics(startSets(c, inj, true)); const auto R = tb.computeProductionDiagnostics(startSets(c, prod, false));
    std::vector<double> pos(c.n), pv1(c.n); for (int i = 0; i < c.n; ++i) { pos[i] = 1.0 + r.u() * 9; pv1[i] = 1.0 + i % 3; }
    const auto curve = flowCapacityStorageCapacityCurve(pos, pos, pv1); const auto sweep = sweepEfficiency(curve); const double lor = lorenzCoefficient(curve);
    ops.push_back({ "F-Phi curve", [&](Fault& f) { Graph q; auto go = [&] { q = flowCapacityStorageCapacityCurve(pos, pos, pv1); }; if (!f.run(go)) go(); if (q != curve) f.why = "wrong curve"; } });
    ops.push_back({ "sweep and Lorenz", [&](Fault& f) { Graph q; double l = 0; auto go = [&] { q = sweepEfficiency(curve); l = lorenzCoefficient(curve); }; if (!f.run(go)) go(); if (q != sweep || l != lor) f.why = "wrong result"; } });
    const auto W = libWells(c); const CellSetID a(inj.empty() ? prod[0] : inj[0]), b(prod.empty() ? inj[0] : prod[0]);
    const double vol = injectorProducerPairVolume(F, R, c.pv, a, b); const auto fx = injectorProducerPairFlux(F, R, a, b, W);
    ops.push_back({ "pair volume", [&](Fault& f) { double q = -1; auto go = [&] { q = injectorProducerPairVolume(F, R, c.pv, a, b); }; if (!f.run(go)) go(); if (!sameBits(q, vol)) f.why = "wrong volume"; } });
    ops.push_back({ "pair flux", [&](Fault& f) { std::pair<double, double> q; auto go = [&] { q = injectorProducerPairFlux(F, R, a, b, W); }; if (!f.run(go)) go(); if (q != fx) f.why = "wrong flux"; } });
    ops.push_back({ "random vector", [&](Fault& f) { std::unique_ptr<Opm::RandomVector> q; std::vector<double> n; std::vector<int> i; auto go = [&] { q.reset(new Opm::RandomVector); n = q->normal(50); i = q->index(20, 5); }; if (!f.run(go)) go(); if (n.size() != 50 || i.size() != 20) f.why = "wrong sizes"; } });
    // the solver used directly: one object, failing and repeated
    Opm::AssembledConnections dn, up; for (std::size_t e = 0; e < c.E(); ++e) { const double t = c.total(e); if (t > 0) { dn.addConnection(c.conn[2*e], c.conn[2*e+1], t); up.addConnection(c.conn[2*e+1], c.conn[2*e], t); } else if (t < 0) { dn.addConnection(c.conn[2*e+1], c.conn[2*e], -t); up.addConnection(c.conn[2*e], c.conn[2*e+1], -t); } } dn.compress((std::size_t)c.n); up.compress((std::size_t)c.n);
    CellSetValues src, own; for (auto& w : c.wells) for (auto& q : w.second) if (q.second > 0) src[q.first] += q.second; if (!inj.empty()) for (auto& q : c.wells.at(inj[0])) if (q.second > 0) own[q.first] = q.second;
    if (!inj.empty()) {
        ops.push_back({ "solver, local then global", [&](Fault& f) { TracerTofSolver s(dn, up, c.pv, src); TracerTofSolver::LocalSolution l; auto go = [&] { l = s.solveLocal(own); };
            if (!f.run(go)) { if (s.solveGlobal() != refF.g) { f.why = "global result is wrong afterwards"; return; } go(); } if (l.tof != refF.tof.at(inj[0]) || l.concentration != refF.conc.at(inj[0])) f.why = "wrong result"; } });
        ops.push_back({ "solver, global then local", [&](Fault& f) { TracerTofSolver s(dn, up, c.pv, src); std::vector<double> q; auto go = [&] { q = s.solveGlobal(); };
            if (!f.run(go)) { const auto l = s.solveLocal(own); if (l.tof != refF.tof.at(inj[0]) || l.concentration != refF.conc.at(inj[0])) { f.why = "local result is wrong afterwards"; return; } go(); } if (q != refF.g) f.why = "wrong result"; } });
        ops.push_back({ "solver construction", [&](Fault& f) { std::unique_ptr<TracerTofSolver> s; auto go = [&] { s.reset(new TracerTofSolver(dn, up, c.pv, src)); }; if (!f.run(go)) go(); if (s->solveGlobal() != refF.g) f.why = "wrong result"; } });
    }
    // enumerate
    Digest h; h.u64(hashCase(c)); std::uint64_t faults = 0, points = 0;
    for (auto& op : ops) {
        x.tick();
        { Fault f{ -1, false, false, {}, false }; op.run(f); if (f.threw || !f.why.empty()) { x.fail("fault-free", cat(op.name, " without any failure: ", f.threw ? "threw " : "", f.why, "; ", describe(c))); return; } }
        for (int pers = 0; pers < 2; ++pers) for (long long k = 0;; ++k) {
            std::string bad; bool fired; std::string leak;
            const long long before = M.live;
            { Fault f{ k, pers == 1, false, {}, false }; op.run(f); fired = f.fired; bad = f.why; if (!fired && f.threw && bad.empty()) bad = "threw without a failure"; ++points; }
            const long long after = M.live - (bad.empty() ? 0 : 0);
            const long long expect = before + (bad.capacity() > 15 ? 1 : 0);
            if (bad.empty() && after != expect) leak = cat(after - expect, " blocks leaked");
            if (!bad.empty() || !leak.empty()) { x.fail("fault", cat(op.name, ", allocation ", k, pers ? " and all later ones" : "", " fail: ", bad.empty() ? leak : bad, "; ", describe(c))); return; }
            if (!fired) break;
            ++faults;
            if (k > 20000) { x.fail("fault", "operation never completes"); return; }
        }
        x.count("op " + op.name);
    }
    x.count("injected_faults", faults); x.count("operations", ops.size()); (void)points;
    if (faults > 0) x.nontrivial(h.h);
    x.sample([&] { return cat(faults, " faults in ", ops.size(), " operations on ", describe(c)); });
}
static Reg r27("C27", c27);

} // namespace vf
