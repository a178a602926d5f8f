// C28: distinct objects in different threads, shared const objects.  Built with ThreadSanitizer.
// The concurrent run comes first, on objects nothing has looked at yet; the sequential run on equal objects follows.
#include "flow.hpp"
#include "graph.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/numeric/RandomVector.hpp>
#include <atomic>
#include <mutex>
#include <thread>
namespace vf {

// What all threads may read.
struct Shared {
    FlowCase c; std::vector<std::string> inj, prod;
    ConnectivityGraph graph; ConnectionValues flux; std::map<CellSetID, CellSetValues> wells;
    std::vector<CellSet> startF, startR;
    Opm::AssembledConnections dn, up; CellSetValues src; std::map<std::string, CellSetValues> own;
    std::unique_ptr<Toolbox::Forward> F; std::unique_ptr<Toolbox::Reverse> R;
    std::unique_ptr<Solution> copy;
    Digraph dg; std::vector<std::string> names;
    Graph curve, longCurve; TarjanSCCResult* scc = nullptr;
    ~Shared() { destroy_tarjan_sccresult(scc); }
    explicit Shared(const FlowCase& q) : c(q), inj(activeWells(q, true)), prod(activeWells(q, false)), graph(libGraph(q)), flux(libFlux(q)), wells(libWells(q))
    {
        startF = startSets(c, inj, true); startR = startSets(c, prod, false);
        for (std::size_t e = 0; e < c.E(); ++e) { const double t = c.total(e); int a = c.conn[2*e], b = c.conn[2*e+1]; if (t < 0) std::swap(a, b); if (t != 0) { dn.addConnection(a, b, std::fabs(t)); up.addConnection(b, a, std::fabs(t)); } }
        dn.compress((std::size_t)c.n); up.compress((std::size_t)c.n);
        for (const auto& w : c.wells) for (const auto& z : w.second) if (z.second > 0) { src[z.first] += z.second; own[w.first][z.first] = z.second; }
        Toolbox t(graph); assignAll(t, c);
        F.reset(new Toolbox::Forward(t.computeInjectionDiagnostics(startF)));
        R.reset(new Toolbox::Reverse(t.computeProductionDiagnostics(startR)));
        copy.reset(new Solution(F->fd));
        for (int k = 0; k <= 2000; ++k) { const double q = k / 2000.0; longCurve.first.push_back(q * q); longCurve.second.push_back(q * (2 - q)); }
        curve.first = { 0, 0.5, 0.75, 1 }; curve.second = { 0, 0.75, 1, 1 };
    }
};

// Delays between and inside operations; events for the interleaving signature.
struct Events {
    std::atomic<std::uint32_t> next{ 0 }; std::vector<std::atomic<unsigned char>> log; bool on = false;
    explicit Events(std::size_t n) : log(n) {}
    void mark(int t) { if (!on) return; const auto k = next.fetch_add(1, std::memory_order_relaxed); if (k < log.size()) log[k].store((unsigned char)(t + 1), std::memory_order_relaxed); }
};

static void digestDouble(Digest& d, const std::vector<double>& v) { d.u64(v.size()); for (double q : v) d.d(q); }

static const char* opName[] = { "toolbox", "toolbox-shared-input", "solver-global", "solver-local", "tarjan", "reachable", "assemble", "write", "solution-read", "solution-copy", "derived", "pairs", "cellset", "random", "connvalues", "graph-read", "conn-iterate", "rejections", "shared-components", "long-curves" };
constexpr int NOPS = 20;

struct Own { // objects of one thread, used throughout its program
    std::unique_ptr<Toolbox> tb; std::unique_ptr<TracerTofSolver> solver; std::unique_ptr<Opm::RandomVector> rnd; Opm::AssembledConnections ac; TarjanWorkSpace* ws = nullptr; std::size_t wsn = 0;
    ~Own() { destroy_tarjan_workspace(ws); }
};

static void runOp(int op, Rng& r, const Shared& S, Own& O, Digest& d)
{
    switch (op) {
    case 0: case 1: {
        if (!O.tb || r.p(0.3)) O.tb.reset(new Toolbox(op == 1 ? S.graph : libGraph(S.c)));
        FlowCase c = S.c; if (op == 0) { const double q = r.i(1, 4); for (auto& v : c.pv) v *= q; }
        O.tb->assignPoreVolume(c.pv); O.tb->assignConnectionFlux(op == 1 ? S.flux : libFlux(c)); O.tb->assignInflowFlux(op == 1 ? S.wells : libWells(c));
        if (r.p(0.6)) { const auto f = O.tb->computeInjectionDiagnostics(S.startF); digest(d, grab(f.fd, S.inj)); }
        if (r.p(0.6)) { const auto f = O.tb->computeProductionDiagnostics(S.startR); digest(d, grab(f.fd, S.prod)); }
        if (r.p(0.2)) { bool t = false; try { O.tb->assignPoreVolume(std::vector<double>((std::size_t)c.n + 1)); } catch (const std::logic_error&) { t = true; } d.i(t); }
        break; }
    case 2: { if (!O.solver) O.solver.reset(new TracerTofSolver(S.dn, S.up, S.c.pv, S.src)); digestDouble(d, O.solver->solveGlobal()); break; }
    case 3: { if (!O.solver) O.solver.reset(new TracerTofSolver(S.dn, S.up, S.c.pv, S.src)); for (const auto& w : S.own) if (r.p(0.7)) { const auto l = O.solver->solveLocal(w.second); d.map(l.tof); d.map(l.concentration); } break; }
    case 4: { auto* s = tarjan((std::size_t)S.dg.n, S.dg.ia.get(), S.dg.ja.get()); if (r.p(0.5)) d.i(tarjan_reverse_sccresult(s)); for (auto& k : readComps(s)) { d.u64(k.size()); for (int v : k) d.i(v); } destroy_tarjan_sccresult(s); break; }
    case 5: {
        if (!O.ws || O.wsn < (std::size_t)S.dg.n) { destroy_tarjan_workspace(O.ws); O.wsn = (std::size_t)S.dg.n; O.ws = create_tarjan_workspace(O.wsn); }
        std::vector<int> st; for (int k = 0; k < 3; ++k) st.push_back(r.i(0, S.dg.n - 1));
        auto* s = tarjan_reachable_sccs((std::size_t)S.dg.n, S.dg.ia.get(), S.dg.ja.get(), st.size(), st.data(), O.ws); if (r.p(0.5)) d.i(tarjan_reverse_sccresult(s));
        for (auto& k : readComps(s)) { d.u64(k.size()); for (int v : k) d.i(v); } destroy_tarjan_sccresult(s); break; }
    case 6: {
        const int m = r.i(1, 30); for (int k = 0; k < m; ++k) { const int i = r.i(0, 7), j = r.i(0, 7); const double v = r.i(-9, 9); O.ac.addConnection(i, j, v); }
        bool t = false; try { if (r.p(0.3)) O.ac.compress(0); } catch (const std::invalid_argument&) { t = true; } d.i(t);
        O.ac.compress(8); for (auto q : O.ac.startPointers()) d.u64(q); for (int q : O.ac.neighbourhood()) d.i(q); for (double q : O.ac.connectionWeight()) d.d(q);
        Opm::AssembledConnections cp(S.dn); d.u64(cp.numRows()); break; }
    case 7: { std::ostringstream o; o.precision(r.i(1, 9)); o << S.dn << S.up; d.s(o.str()); break; }
    case 8: {
        const Solution* s[] = { &S.F->fd, &S.R->fd, S.copy.get() };
        for (auto* q : s) { for (const auto& i : q->startPoints()) { d.s(i.to_string()); d.map(q->concentration(i)); d.map(q->timeOfFlight(i)); } digestDouble(d, q->timeOfFlight()); d.u64(q->concentration(CellSetID("no such")).size()); }
        break; }
    case 9: { Solution s(S.F->fd); Solution t(S.R->fd); CellSetValues v; v[1] = 2.5; s.assign(CellSetID("mine"), Solution::TimeOfFlight{ v }); digest(d, grab(s, S.inj)); digest(d, grab(t, S.prod)); d.map(s.timeOfFlight(CellSetID("mine"))); break; }
    case 10: { const auto g = flowCapacityStorageCapacityCurve(*S.F, *S.R, S.c.pv, r.p(0.5) ? 1.0 : 0.9); digestDouble(d, g.first); digestDouble(d, g.second); d.d(lorenzCoefficient(S.curve)); const auto w = sweepEfficiency(S.curve); digestDouble(d, w.first); digestDouble(d, w.second); break; }
    case 11: { for (const auto& a : S.inj) for (const auto& b : S.prod) { d.d(injectorProducerPairVolume(*S.F, *S.R, S.c.pv, CellSetID(a), CellSetID(b))); const auto f = injectorProducerPairFlux(*S.F, *S.R, CellSetID(a), CellSetID(b), S.wells); d.d(f.first); d.d(f.second); } break; }
    case 12: {
        std::vector<int> v; for (int k = 0; k < 20; ++k) v.push_back(r.i(0, 30)); CellSet s(CellSetID("thread's own"), v); s.insert(99);
        std::set<int> o(s.begin(), s.end()); for (int q : o) d.i(q);
        for (const auto& q : S.startF) { CellSet z(q); std::set<int> e(z.begin(), z.end()); for (int w : e) d.i(w); d.s(q.id().to_string()); }
        if (S.startF.size() > 1) d.i(S.startF[0].id() < S.startF[1].id()); break; }
    case 13: { if (!O.rnd || r.p(0.3)) O.rnd.reset(new Opm::RandomVector); digestDouble(d, O.rnd->normal((std::size_t)r.i(0, 20), 1.0, 2.0)); for (int q : O.rnd->index((std::size_t)r.i(0, 20), 9)) d.i(q); break; }
    case 14: { using V = ConnectionValues; V v(S.flux); for (std::size_t e = 0; e < S.flux.numConnections(); ++e) for (std::size_t p = 0; p < S.flux.numPhases(); ++p) { d.d(S.flux({ e }, { p })); v({ e }, { p }) += 1; d.d(v({ e }, { p })); } break; }
    case 15: { ConnectivityGraph g(S.graph); for (std::size_t e = 0; e < S.graph.numConnections(); ++e) { const auto q = S.graph.connection(e); d.i(q.first); d.i(q.second); d.i(g.connection(e).first); } d.u64(S.graph.numCells()); break; }
    case 17: {
        auto tell = [&](const std::function<void()>& f) { try { f(); d.s("accepted"); } catch (const std::exception& e) { d.s(e.what()); } };
        using V = ConnectionValues; const int bad = S.c.n + r.i(0, 5);
        switch (r.i(0, 7)) {
        case 0: tell([&] { ConnectivityGraph g(S.c.n, std::vector<int>{ 0, bad }); }); tell([&] { ConnectivityGraph g(S.c.n, std::vector<int>{ 0 }); }); break;
        case 1: tell([&] { (void)S.flux(V::ConnID{ S.c.E() + (std::size_t)r.i(0, 3) }, V::PhaseID{ 0 }); }); break;
        case 2: tell([&] { Opm::AssembledConnections a; a.addConnection(0, 1); a.addConnection(1, 0, 2.0); a.compress(2); }); tell([&] { Opm::AssembledConnections a; a.addConnection(bad, 0); a.compress((std::size_t)bad); }); break;
        case 3: tell([&] { Toolbox t(S.graph); assignAll(t, S.c); (void)t.computeInjectionDiagnostics({ CellSet(CellSetID(cat("none", bad)), { 0 }) }); }); break;
        case 4: tell([&] { Toolbox t(S.graph); (void)t.computeProductionDiagnostics({}); }); tell([&] { Toolbox t(S.graph); t.assignConnectionFlux(V(V::NumConnections{ S.c.E() + 1 }, V::NumPhases{ 1 })); }); break;
        case 5: tell([&] { Toolbox t(S.graph); std::map<CellSetID, CellSetValues> w; w[CellSetID("w")][bad] = 1.0; t.assignInflowFlux(w); }); break;
        case 6: tell([&] { (void)injectorProducerPairFlux(*S.F, *S.R, CellSetID(cat("none", bad)), CellSetID("x"), S.wells); }); break;
        default: tell([&] { Graph q = S.curve; q.first.push_back(1); (void)sweepEfficiency(q); }); tell([&] { Graph q = S.curve; q.second.push_back(1); (void)lorenzCoefficient(q); }); tell([&] { (void)flowCapacityStorageCapacityCurve(S.c.pv, std::vector<double>((std::size_t)bad + 1, 1.0), S.c.pv); }); }
        break; }
    case 18: { const TarjanSCCResult* s = S.scc; for (auto& k : readComps(s)) { d.u64(k.size()); for (int v : k) d.i(v); } break; }
    case 19: { d.d(lorenzCoefficient(S.longCurve)); const auto w = sweepEfficiency(S.longCurve); digestDouble(d, w.first); digestDouble(d, w.second); std::vector<double> a, b; const int m = r.i(1, 300); for (int k = 0; k < m; ++k) { a.push_back(1.0 + r.u()); b.push_back(1.0 + (double)(k % 7)); } const auto g = flowCapacityStorageCapacityCurve(a, a, b); digestDouble(d, g.first); digestDouble(d, g.second); break; }
    default: { for (int i = 0; i < S.c.n; ++i) for (const auto& q : S.dn.cellNeighbourhood(i)) { d.i(q.neighbour); d.d(q.weight); } for (auto q : S.up.startPointers()) d.u64(q); }
    }
}

static std::uint64_t program(std::uint64_t seed, int thread, const std::vector<int>& ops, const Shared& S, Events& ev, bool delays)
{
    Rng r(seed), w(seed ^ 0xabcdef); Digest d; Own O;
    for (int op : ops) {
        if (delays) switch (w.i(0, 5)) { case 0: std::this_thread::yield(); break; case 1: { volatile int z = 0; const int m = w.i(0, 3000); for (int k = 0; k < m; ++k) z = z + k; break; } case 2: if (w.p(0.1)) std::this_thread::sleep_for(std::chrono::microseconds(w.i(1, 200))); break; default: break; }
        ev.mark(thread); runOp(op, r, S, O, d); ev.mark(thread);
    }
    return d.h;
}

// Everything a thread needs, made and used by itself: the first thing a process does, and later with models larger
// than any before, so that what the library might keep between calls (first use, largest size) is written while other threads run.
static std::uint64_t ownProgram(std::uint64_t seed, const FlowCase& c)
{
    Shared S(c); S.dg.n = c.n; for (int i = 0; i < c.n; ++i) { S.dg.e.emplace_back(i, (i + 1) % c.n); if (i % 5 == 0) S.dg.e.emplace_back(i, i / 2); if (i % 7 == 0 && i > c.n / 2) S.dg.e.pop_back(); }
    Rng g(seed); S.dg.finish(g, true); S.scc = tarjan((std::size_t)S.dg.n, S.dg.ia.get(), S.dg.ja.get());
    Rng r(seed + 1); Digest d; Own O; for (int op = 0; op < NOPS; ++op) runOp(op, r, S, O, d);
    { std::vector<int> v; for (int i = c.n; i > 0; --i) v.push_back(i); CellSet s(CellSetID(std::string((std::size_t)c.n, 'x')), v); s.insert(-1); d.i((int)std::distance(s.begin(), s.end())); d.s(s.id().to_string()); }
    { Opm::RandomVector q; digestDouble(d, q.normal((std::size_t)c.n)); for (int k : q.index((std::size_t)c.n, c.n)) d.i(k); }
    return d.h;
}

static bool ownPrograms(Ctx& x, Rng& r, int n, const char* name)
{
    FlowCase c; c.family = name; c.n = n; double q = 0; int w = 0;
    for (int i = 0; i < n; ++i) { c.pv.push_back(1 + i % 3); if (i % 40 == 0) { c.wells["I" + std::to_string(w++)][i] = 1; q += 1; } if (i + 1 < n) { c.conn.push_back(i); c.conn.push_back(i + 1); c.flux.push_back(q); } else c.wells["P"][i] = -q; }
    const int T = r.i(2, 6); const auto seed = r.next(); std::vector<std::uint64_t> got(T, 0); std::vector<std::string> err(T);
    std::atomic<int> ready{ 0 }; std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
        try { got[t] = ownProgram(seed, c); } catch (const std::exception& e) { err[t] = e.what(); } catch (...) { err[t] = "unknown exception"; } });
    for (auto& z : th) z.join();
    const auto ref = ownProgram(seed, c); x.dig.u64(ref); x.count(name); x.count("threads", T);
    for (int t = 0; t < T; ++t) {
        if (!err[t].empty()) { x.fail("thread-exception", cat("thread ", t, " of ", T, ": ", err[t], "; ", describe(c))); return false; }
        if (got[t] != ref) { x.fail("thread-result", cat("thread ", t, " of ", T, " with objects of its own computed something else than a sequential run; ", describe(c))); return false; }
    }
    return true;
}

static void c28(Ctx& x, Rng& r)
{
    static int cases = 0; const int k = cases++;
    if (k == 0 && !ownPrograms(x, r, r.i(2, 120), "cold starts")) return;
    if (k % 10 == 5 && k < 500 && !ownPrograms(x, r, 130 + 3 * k, "larger than before")) return;
    FlowCase c;
    for (;;) {
        GenOpt o; o.maxN = r.p(0.8) ? 12 : 60; if (x.idx % 40 == 17) { o.maxN = 1 << 30; o.big = true; }
        if (r.p(0.3)) o.loops = true; if (r.p(0.5)) o.conserve = true;
        Solved s; s.c = genFlow(r, o); s.forward = true; if (!solveRef(s)) continue; s.forward = false; if (!solveRef(s)) continue;
        c = s.c; if (activeWells(c, true).empty() || activeWells(c, false).empty()) { if (r.p(0.9)) continue; } break;
    }
    const bool big = r.p(0.5);
    Rng gr(r.next()); const Rng gr0 = gr;
    auto make = [&](std::unique_ptr<Shared>& S) { S.reset(new Shared(c)); Rng q = gr0; randomGraph(q, S->dg); if (S->dg.n > 200 && big) { const int m = S->dg.n = 1100; S->dg.e.clear(); for (int i = 0; i < m; ++i) S->dg.e.emplace_back(i, i + 1 < m - 20 ? i + 1 : 0); } else if (S->dg.n > 200) { S->dg.n = 0; S->dg.e.clear(); for (int i = 0; i < 40; ++i) S->dg.e.emplace_back(i, (i * 7 + 1) % 40); S->dg.n = 40; } S->dg.finish(q, true); S->scc = tarjan((std::size_t)S->dg.n, S->dg.ia.get(), S->dg.ja.get()); };
    std::unique_ptr<Shared> A, B; make(A);
    const int T = r.i(2, 6); std::vector<std::vector<int>> ops(T); std::vector<std::uint64_t> seeds(T);
    const int same = r.i(-NOPS, NOPS - 1);          // often: all threads do the same thing
    std::size_t total = 0;
    for (int t = 0; t < T; ++t) { seeds[t] = r.next(); const int k = r.i(2, 8); for (int q = 0; q < k; ++q) ops[t].push_back(same >= 0 && r.p(0.7) ? same : r.i(0, NOPS - 1)); total += ops[t].size(); }
    Events ev(2 * total); ev.on = true;
    std::vector<std::uint64_t> got(T, 0), ref(T, 0); std::vector<std::string> err(T);
    {
        std::atomic<int> ready{ 0 }; std::vector<std::thread> th;
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();   // relaxed: orders nothing
            try { got[t] = program(seeds[t], t, ops[t], *A, ev, true); } catch (const std::exception& e) { err[t] = e.what(); } catch (...) { err[t] = "unknown exception"; } });
        for (auto& q : th) q.join();
    }
    make(B); Events none(0);
    Digest sig; int switches = 0; for (std::size_t k = 0; k < ev.log.size(); ++k) { const int a = ev.log[k].load(); sig.i(a); if (k && a != ev.log[k-1].load()) ++switches; }
    for (int t = 0; t < T; ++t) {
        if (!err[t].empty()) { x.fail("thread-exception", cat("thread ", t, " of ", T, ": ", err[t], "; ", describe(c))); return; }
        ref[t] = program(seeds[t], t, ops[t], *B, none, false); x.dig.u64(ref[t]);
        std::string l; for (int q : ops[t]) l += std::string(" ") + opName[q];
        if (ref[t] != got[t]) { x.fail("thread-result", cat("thread ", t, " of ", T, " computed something else than a sequential run; operations", l, "; ", describe(c))); return; }
        for (int q : ops[t]) x.count(std::string("op ") + opName[q]);
    }
    x.count("threads", T); x.count("context_switches_seen", switches); x.count("operation_events", ev.log.size());
    if (switches > T) { x.count("overlapping_runs"); x.nontrivial(sig.h ^ hashCase(c)); }
    x.sample([&] { std::string s = cat(T, " threads, event order "); for (auto& q : ev.log) s += (char)('@' + q.load()); return s; });
}
static Reg r28("C28", c28);

} // namespace vf
