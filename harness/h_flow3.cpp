// C08-C10: toolbox histories, independence of wells, rejection of invalid input.
#include "flow.hpp"
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <typeinfo>
namespace vf {
bool drawSolved(Ctx&, Rng&, Solved&, GenOpt, bool);

// Variations of one model: same graph, other volumes / fluxes / wells.
struct Pool {
    FlowCase base;
    std::vector<std::vector<double>> pvs;
    std::vector<std::pair<int, std::vector<double>>> fluxes;
    std::vector<Wells> wells;
    // (flux, wells) pairs with a usable reference, by direction
    std::map<std::pair<int, int>, int> usable;   // bit 1: forward, bit 2: reverse
};

static FlowCase combine(const Pool& p, int v, int f, int w)
{ FlowCase c = p.base; c.pv = p.pvs[v]; c.np = p.fluxes[f].first; c.flux = p.fluxes[f].second; if (w >= 0) c.wells = p.wells[w]; else c.wells.clear(); return c; }

static Pool makePool(Rng& r, int maxN)
{
    Pool p; GenOpt o; o.maxN = maxN;
    p.base = genFlow(r, o);
    const int n = p.base.n; const std::size_t E = p.base.E();
    p.pvs.push_back(p.base.pv); p.fluxes.emplace_back(p.base.np, p.base.flux); p.wells.push_back(p.base.wells);
    for (int k = 0; k < 2; ++k) { auto v = p.base.pv; for (auto& q : v) q = q * r.u(0.3, 3) + r.p(0.1) * 1.0; p.pvs.push_back(v); }
    { auto v = p.base.pv; v[(std::size_t)r.i(0, n - 1)] *= 1.25; p.pvs.push_back(v); v = p.base.pv; std::swap(v[(std::size_t)r.i(0, n - 1)], v[(std::size_t)r.i(0, n - 1)]); p.pvs.push_back(v); }
    { // reversed, re-scaled, partly zero, other number of phases
        auto f = p.base.flux; for (auto& q : f) q = -q; p.fluxes.emplace_back(p.base.np, f);
        f = p.base.flux; for (auto& q : f) if (r.p(0.5)) q = -q * r.u(0.5, 2); p.fluxes.emplace_back(p.base.np, f);
        std::vector<double> g(E); for (std::size_t e = 0; e < E; ++e) g[e] = r.p(0.2) ? 0.0 : (r.p(0.5) ? 1 : -1) * r.i(1, 8); p.fluxes.emplace_back(1, g);
        std::vector<double> h(E * 3); for (auto& q : h) q = r.i(-4, 4); p.fluxes.emplace_back(3, h);
        // nearly the same field: one value changed, two values exchanged, one sign changed, phases exchanged; no flow at all
        const auto& b = p.base.flux; const int np = p.base.np; const std::size_t z = (std::size_t)r.i(0, (int)b.size() - 1), y = (std::size_t)r.i(0, (int)b.size() - 1);
        f = b; f[z] = f[z] * 1.5 + 0.5 * std::fabs(b[y]); p.fluxes.emplace_back(np, f);
        f = b; std::swap(f[z], f[y]); p.fluxes.emplace_back(np, f);
        f = b; f.back() = -f.back(); p.fluxes.emplace_back(np, f);
        if (r.p(0.3)) p.fluxes.emplace_back(0, std::vector<double>());
        if (r.p(0.3)) p.fluxes.emplace_back(np, std::vector<double>(b.size(), 0.0));
    }
    for (int k = 0; k < 3; ++k) {
        Wells w; const auto nm = wellNames(r, 3);
        for (const auto& s : nm) { const int np = r.i(1, 3); const bool inj = r.p(0.5); for (int z = 0; z < np; ++z) w[s][r.i(0, n - 1)] = (inj != r.p(0.1)) ? r.u(0.5, 4) : -r.u(0.5, 4); }
        // overlap of names with the first set of wells
        if (!p.base.wells.empty() && r.p(0.5)) { const auto& q = *p.base.wells.begin(); Wells z; z[q.first][r.i(0, n - 1)] = 2.0; z[q.first][r.i(0, n - 1)] = -3.0; for (auto& e : z) w[e.first] = e.second; }
        p.wells.push_back(w);
    }
    if (!p.base.wells.empty()) { // nearly the same wells: one rate or sign changed, one perforation moved or removed, rates exchanged between names
        for (int k = 0; k < 5; ++k) {
            Wells w = p.base.wells; auto it = w.begin(); std::advance(it, r.i(0, (int)w.size() - 1)); if (it->second.empty()) continue;
            auto q = it->second.begin(); std::advance(q, r.i(0, (int)it->second.size() - 1));
            if (k == 0) q->second *= 1.5; else if (k == 1) q->second = -q->second; else if (k == 2) { const double v = q->second; it->second.erase(q); it->second[r.i(0, n - 1)] = v; }
            else if (k == 3) { if (r.p(0.5)) it->second.erase(q); else w.erase(it); } else { auto jt = w.begin(); std::advance(jt, r.i(0, (int)w.size() - 1)); if (jt != it) std::swap(it->second, jt->second); }
            p.wells.push_back(w);
        }
    }
    return p;
}

static int usable(Pool& p, int v, int f, int w)
{
    const auto key = std::make_pair(f, w);
    const auto it = p.usable.find(key);
    if (it != p.usable.end()) return it->second;
    int bits = 0;
    FlowCase c = combine(p, v, f, w);
    for (int dir = 0; dir < 2; ++dir) {
        const bool fw = dir == 0;
        RefFlow F(c, fw);
        bool ok = !F.selfloop && refSolve(F, F.S, 1e6).ok;
        for (const auto& i : activeWells(c, fw)) if (ok && !refSolve(F, wellSource(c, i, fw), 1e6).ok) ok = false;
        if (ok) bits |= 1 << dir;
    }
    return p.usable[key] = bits;
}

struct Kept { bool forward; std::unique_ptr<Toolbox::Forward> f; std::unique_ptr<Toolbox::Reverse> r; std::vector<std::string> ids; LibOut dump; };

struct Model { int v = -1, f = -1, w = -1; };

template <class Ex, class Fn> static std::string expectThrow(Fn&& fn)
{
    try { fn(); } catch (const Ex& e) { return {}; }
    catch (const std::exception& e) { return cat("threw ", typeid(e).name(), " (", e.what(), ") instead of ", typeid(Ex).name()); }
    catch (...) { return "threw something else"; }
    return cat("did not throw ", typeid(Ex).name());
}

// The exception must be a logic_error but not a runtime_error and vice versa: the two families are disjoint.
static std::string invalidCall(Rng& r, Toolbox& t, const Pool& p, const Model& m, std::string& what)
{
    const int n = p.base.n; const std::size_t E = p.base.E();
    for (int tries = 0; tries < 8; ++tries) {
        switch (r.i(0, 7)) {
        case 0: { what = "pore volume of wrong size"; std::vector<double> v(r.p(0.2) ? 0 : r.p(0.1) ? (std::size_t)n + (r.p(0.3) ? (std::size_t)n : r.p(0.8) ? 256 : 65536) : (std::size_t)std::max(0, n + (r.p(0.5) ? r.i(1, 3) : -r.i(1, std::min(3, n)))), 0.5);
            if (r.p(0.5)) for (std::size_t k = 0; k < v.size(); ++k) v[k] = k < p.base.pv.size() ? p.base.pv[k] : r.p(0.6) ? 0.0 : r.u(0, 2); else if (r.p(0.3)) std::fill(v.begin(), v.end(), 0.0);
            return expectThrow<std::logic_error>([&] { t.assignPoreVolume(v); }); }
        case 1: { what = "flux of wrong size"; const std::size_t k = r.p(0.2) ? 0 : r.p(0.5) ? E + (std::size_t)r.i(1, 3) : E - (std::size_t)r.i(1, (int)std::min<std::size_t>(3, E));
            if (k == E) break; std::size_t np = (std::size_t)r.i(0, 3); if (r.p(0.3) && k > 0 && (E * 2) % k == 0) np = E * 2 / k;
            if (r.p(0.1)) { const int w = r.i(0, 3); const ConnectionValues f(ConnectionValues::NumConnections{ E + (w == 0 ? E : w == 1 ? 256 : w == 2 ? 65536 : (std::size_t)1 << 32) }, ConnectionValues::NumPhases{ w == 3 ? 0 : np }); return expectThrow<std::logic_error>([&] { t.assignConnectionFlux(f); }); }
            if (r.p(0.5)) np = (std::size_t)p.base.np;
            ConnectionValues f(ConnectionValues::NumConnections{ k }, ConnectionValues::NumPhases{ np });
            if (np == (std::size_t)p.base.np && r.p(0.7)) for (std::size_t e = 0; e < k; ++e) for (std::size_t q = 0; q < np; ++q) f(ConnectionValues::ConnID{ e }, ConnectionValues::PhaseID{ q }) = e < E ? p.base.flux[e * np + q] : r.p(0.6) ? 0.0 : r.u(-1, 1);
            return expectThrow<std::logic_error>([&] { t.assignConnectionFlux(f); }); }
        case 2: { what = "inflow outside the model"; std::map<CellSetID, CellSetValues> w; const int good = r.i(0, n - 1);
            w[CellSetID("A")][good] = 1.0; const int bad = r.p(0.5) ? n + (r.p(0.5) ? 0 : r.i(0, 100000)) : (r.p(0.5) ? -1 : -r.i(1, 1 << 30));
            w[CellSetID(r.p(0.5) ? "A" : r.p(0.5) ? "" : "zz")][bad] = r.p(0.2) ? 0.0 : r.p(0.5) ? 2.0 : -2.0; w[CellSetID("q")][good] = -1.0;
            if (r.p(0.6)) { // among valid inflow of other wells
                FlowCase c = p.base; if (!p.wells.empty() && r.p(0.7)) c.wells = r.pick(p.wells);
                for (const auto& q : libWells(c)) w.insert(q);
                if (r.p(0.1)) for (int k = r.i(1, 300); k > 0; --k) w[CellSetID("W" + std::to_string(r.i(0, 999)))][r.i(0, n - 1)] = r.u(-1, 1);
                if (r.p(0.7)) w.erase(CellSetID("A")); if (r.p(0.7)) w.erase(CellSetID("q")); if (r.p(0.7)) { w.erase(CellSetID("")); w.erase(CellSetID("zz")); }
                std::vector<CellSetID> all; for (const auto& q : w) all.push_back(q.first); if (all.empty()) all.push_back(CellSetID("x"));
                auto& z = w[r.pick(all)]; if (r.p(0.1)) for (int k = r.i(1, 300); k > 0; --k) z[r.i(0, n - 1)] = r.u(-1, 1); z[bad] = r.p(0.2) ? 0.0 : r.u(-1, 1);
            }
            return expectThrow<std::logic_error>([&] { t.assignInflowFlux(w); }); }
        default: {
            const bool fw = r.p(0.5);
            auto call = [&](const std::vector<CellSet>& ss) { if (fw) (void)t.computeInjectionDiagnostics(ss); else (void)t.computeProductionDiagnostics(ss); };
            if (m.v < 0 || m.f < 0) { what = "computing without volumes or fluxes"; std::vector<CellSet> ss; if (m.w >= 0 && r.p(0.5)) { FlowCase c = p.base; c.wells = p.wells[m.w]; ss = startSets(c, activeWells(c, fw), fw); } return expectThrow<std::logic_error>([&] { call(ss); }); }
            FlowCase c = p.base; if (m.w >= 0) c.wells = p.wells[m.w]; else c.wells.clear();
            auto act = activeWells(c, fw);
            std::vector<CellSet> ss; const auto good = startSets(c, act, fw);
            for (const auto& g : good) if (r.p(0.5)) ss.push_back(g);
            if (r.p(0.25) && !good.empty() && n < 500) for (int k = r.i(1, r.p(0.2) ? 150 : 12); k > 0; --k) ss.push_back(r.pick(good));   // the same sets again
            std::set<std::string> A(act.begin(), act.end());
            if (r.p(0.5)) {
                what = fw ? "start set whose ID has no inflow" : "start set whose ID has no outflow";
                std::string id = "no such well"; const auto opp = activeWells(c, !fw); std::vector<std::string> cand; for (const auto& q : opp) if (!A.count(q)) cand.push_back(q); for (const auto& q : c.wells) if (!A.count(q.first)) cand.push_back(q.first);
                if (!cand.empty() && r.p(0.7)) id = r.pick(cand); if (A.count(id)) break;
                CellSet s{ CellSetID(id) };
                if (r.p(0.7)) for (const auto& q : c.wells) for (const auto& z : q.second) if (fw ? z.second > 0 : z.second < 0) s.insert(z.first);
                ss.insert(ss.begin() + (ss.empty() ? 0 : r.i(0, (int)ss.size())), s);
            } else {
                what = fw ? "start cell without inflow" : "start cell without outflow";
                if (act.empty()) break;
                std::set<int> src; for (const auto& q : c.wells) for (const auto& z : q.second) if (fw ? z.second > 0 : z.second < 0) src.insert(z.first);
                int cell = r.i(0, n - 1); if (r.p(0.3)) for (const auto& q : c.wells) for (const auto& z : q.second) if (!src.count(z.first)) cell = z.first; if (r.p(0.2)) cell = r.p(0.5) ? n + r.i(0, 5) : -r.i(1, 9);
                if (src.count(cell)) break;
                CellSet s = startSet(c, r.pick(act), fw); s.insert(cell); ss.insert(ss.begin() + (ss.empty() ? 0 : r.i(0, (int)ss.size())), s);
            }
            return expectThrow<std::runtime_error>([&] { call(ss); }); }
        }
    }
    what = "none"; return {};
}

static LibOut fresh(const Pool& p, const Model& m, bool fw, const std::vector<std::string>& ids)
{ const auto c = combine(p, m.v, m.f, m.w); Toolbox t(libGraph(c)); t.assignPoreVolume(c.pv); t.assignConnectionFlux(libFlux(c)); if (m.w >= 0) t.assignInflowFlux(libWells(c)); return compute(t, c, fw, ids); }

// mode 0: C08 (histories), mode 1: C10 (many invalid calls)
static void history(Ctx& x, Rng& r, int mode)
{
    Pool p = makePool(r, r.p(0.9) ? 12 : 60);
    const ConnectivityGraph g(p.base.n, p.base.conn);
    std::vector<std::unique_ptr<Toolbox>> tb; std::vector<Model> md;
    tb.emplace_back(new Toolbox(g)); md.emplace_back();
    if (r.p(0.3)) { tb.emplace_back(new Toolbox(g)); md.emplace_back(); }
    std::vector<Kept> kept; std::string trace;
    const int ops = r.i(4, mode == 0 ? 26 : 14);
    bool nontriv = false;
    // most histories start with complete inputs, assigned in any order
    if (mode == 0 && r.p(0.7)) for (std::size_t t = 0; t < tb.size(); ++t) {
        int order[3] = { 0, 1, 2 }; for (int k = 2; k > 0; --k) std::swap(order[k], order[r.i(0, k)]);
        for (int k : order) {
            if (k == 0) { md[t].v = r.i(0, (int)p.pvs.size() - 1); tb[t]->assignPoreVolume(p.pvs[md[t].v]); trace += cat(" pv", md[t].v, ";"); }
            else if (k == 1) { md[t].f = r.p(0.6) ? 0 : r.i(0, (int)p.fluxes.size() - 1); FlowCase c = p.base; c.np = p.fluxes[md[t].f].first; c.flux = p.fluxes[md[t].f].second; tb[t]->assignConnectionFlux(libFlux(c)); trace += cat(" flux", md[t].f, ";"); }
            else { md[t].w = r.p(0.6) ? 0 : r.i(0, (int)p.wells.size() - 1); FlowCase c = p.base; c.wells = p.wells[md[t].w]; tb[t]->assignInflowFlux(libWells(c)); trace += cat(" wells", md[t].w, ";"); }
        }
    }
    for (int k = 0; k < ops && !x.caseFailed; ++k) {
        const std::size_t t = (std::size_t)r.i(0, (int)tb.size() - 1);
        auto& T = *tb[t]; auto& M = md[t];
        const double q = r.u();
        const double pinv = mode == 0 ? 0.10 : 0.40;
        if (q < pinv) {
            std::string what; const auto e = invalidCall(r, T, p, M, what); x.count("invalid: " + what); trace += " !" + what + ";";
            if (!e.empty()) { x.fail("reject", cat(what, ": ", e, " after", trace, " on ", describe(p.base))); return; }
        } else if (q < pinv + 0.10) { const int v = r.i(0, (int)p.pvs.size() - 1); auto in = p.pvs[v]; T.assignPoreVolume(in); if (in != p.pvs[v]) { x.fail("input-changed", "pore volume changed"); return; } M.v = v; trace += cat(" pv", v, ";"); x.count("assign_pv"); }
        else if (q < pinv + 0.25) { const int f = r.i(0, (int)p.fluxes.size() - 1); FlowCase c = p.base; c.np = p.fluxes[f].first; c.flux = p.fluxes[f].second; auto in = libFlux(c); T.assignConnectionFlux(in); M.f = f; trace += cat(" flux", f, ";"); x.count("assign_flux");
            for (std::size_t e = 0; e < c.E(); ++e) for (int ph = 0; ph < c.np; ++ph) if (!sameBits(in({ e }, { (std::size_t)ph }), c.flux[e*c.np+ph])) { x.fail("input-changed", "flux changed"); return; }
            // the toolbox must not refer to the caller's object
            for (std::size_t e = 0; e < c.E(); ++e) for (int ph = 0; ph < c.np; ++ph) in({ e }, { (std::size_t)ph }) = 1e9; }
        else if (q < pinv + 0.40) { const int w = r.i(0, (int)p.wells.size() - 1); FlowCase c = p.base; c.wells = p.wells[w]; auto in = libWells(c); T.assignInflowFlux(in); if (in.size() != c.wells.size()) { x.fail("input-changed", "inflow changed"); return; } in.clear(); M.w = w; trace += cat(" wells", w, ";"); x.count("assign_wells"); }
        else if (q < pinv + 0.48 && mode == 0) {
            // move construction / assignment
            trace += " move;"; x.count("moves");
            if (r.p(0.5)) { std::unique_ptr<Toolbox> z(new Toolbox(std::move(T))); tb[t] = std::move(z); }
            else if (tb.size() > 1) { const std::size_t u = 1 - t; *tb[u] = std::move(T); md[u] = M; tb[t].reset(new Toolbox(g)); md[t] = Model{}; }
            else { Toolbox z(g); if (r.p(0.5)) z.assignPoreVolume(p.pvs[0]); z = std::move(T); tb[t].reset(new Toolbox(std::move(z))); }
        } else if (M.v >= 0 && M.f >= 0) {
            const bool fw = r.p(0.5);
            const int u = usable(p, M.v, M.f, M.w);
            if (!(u & (fw ? 1 : 2))) { x.count("unusable"); continue; }
            const auto c = combine(p, M.v, M.f, M.w);
            std::vector<std::string> ids; for (const auto& i : activeWells(c, fw)) if (r.p(0.8)) ids.push_back(i);
            Kept K; K.forward = fw; K.ids = ids;
            const auto ss = startSets(c, ids, fw);
            if (fw) { K.f.reset(new Toolbox::Forward(T.computeInjectionDiagnostics(ss))); K.dump = grab(K.f->fd, ids); }
            else { K.r.reset(new Toolbox::Reverse(T.computeProductionDiagnostics(ss))); K.dump = grab(K.r->fd, ids); }
            trace += fw ? " inj;" : " prod;"; x.count("computations"); if (!ids.empty()) nontriv = true;
            digest(x.dig, K.dump);
            const auto ref = fresh(p, M, fw, ids);
            const auto d = diffBits(K.dump, ref);
            if (!d.empty()) { x.fail("history", cat("differs from a new toolbox with the same inputs: ", d, " after", trace, " on ", describe(c))); return; }
            kept.push_back(std::move(K));
        }
    }
    // earlier results unchanged; toolboxes may go first
    if (r.p(0.5)) tb.clear();
    for (const auto& K : kept) {
        const auto now = grab(K.forward ? K.f->fd : K.r->fd, K.ids); x.count("results_reread");
        const auto d = diffBits(K.dump, now); if (!d.empty()) { x.fail("result-changed", cat("earlier result changed: ", d, " after", trace)); return; }
    }
    if (mode == 1) { // whatever was rejected: state is still that of the model, valid input is accepted
        for (std::size_t t = 0; t < tb.size(); ++t) {
            auto& M = md[t]; auto& T = *tb[t];
            if (M.v < 0) { T.assignPoreVolume(p.pvs[0]); M.v = 0; }
            if (M.f < 0) { FlowCase c = p.base; T.assignConnectionFlux(libFlux(c)); M.f = 0; }
            for (int dir = 0; dir < 2; ++dir) {
                if (!(usable(p, M.v, M.f, M.w) & (1 << dir))) continue;
                const auto c = combine(p, M.v, M.f, M.w); const auto ids = activeWells(c, dir == 0);
                const auto d = diffBits(compute(T, c, dir == 0, ids), fresh(p, M, dir == 0, ids)); x.count("final_states_checked");
                if (!d.empty()) { x.fail("state-changed", cat("a rejected call changed the toolbox: ", d, " after", trace, " on ", describe(c))); return; }
            }
        }
    }
    if (nontriv || mode == 1) { Digest h; h.s(trace); x.nontrivial(h.h ^ hashCase(p.base)); }
    x.sample([&] { return cat(trace, " on ", describe(p.base)); });
}
static Reg r08("C08", [](Ctx& x, Rng& r) { history(x, r, 0); });
static Reg r10("C10", [](Ctx& x, Rng& r) { history(x, r, 1); });


// The solver class itself: any order of global and local solves on one object, rejected ones included.
static void solverHistory(Ctx& x, Rng& r, const Solved& s)
{
    Opm::AssembledConnections dn, up; bool any = false;
    for (std::size_t e = 0; e < s.c.E(); ++e) { double t = s.c.total(e); if (!s.forward) t = -t; int a = s.c.conn[2*e], b = s.c.conn[2*e+1]; if (t < 0) std::swap(a, b); if (t != 0) { dn.addConnection(a, b, std::fabs(t)); up.addConnection(b, a, std::fabs(t)); any = true; } }
    if (!any) return;
    dn.compress((std::size_t)s.c.n); up.compress((std::size_t)s.c.n);
    CellSetValues src; std::map<std::string, CellSetValues> own;
    for (const auto& w : s.c.wells) for (const auto& z : w.second) { const double v = s.forward ? z.second : -z.second; if (v > 0) { src[z.first] += v; own[w.first][z.first] = v; } }
    const auto where = [&] { return cat(s.forward ? "forward " : "reverse ", describe(s.c)); };
    TracerTofSolver S(dn, up, s.c.pv, src);
    std::vector<double> g0; bool haveG = false; std::map<std::string, TracerTofSolver::LocalSolution> l0;
    std::string trace; const int steps = r.i(2, 10);
    for (int k = 0; k < steps; ++k) {
        const int op = r.i(0, 5);
        if (op <= 1) {
            const auto g = S.solveGlobal(); trace += " global;"; x.count("solver_global");
            if (!haveG) { TracerTofSolver F(dn, up, s.c.pv, src); g0 = F.solveGlobal(); haveG = true; }
            for (int i = 0; i < s.c.n; ++i) if (!sameBits(g[i], g0[i])) { x.fail("solver-history", cat("global tof of cell ", i, " is ", g[i], " after", trace, " and ", g0[i], " with a new solver; ", where())); return; }
        } else if (op <= 4) {
            const auto& id = r.pick(s.ids); const auto l = S.solveLocal(own.at(id)); trace += " local;"; x.count("solver_local");
            if (!l0.count(id)) { TracerTofSolver F(dn, up, s.c.pv, src); l0[id] = F.solveLocal(own.at(id)); }
            LibOut a, b; a.conc["w"] = l.concentration; a.tof["w"] = l.tof; b.conc["w"] = l0[id].concentration; b.tof["w"] = l0[id].tof;
            const auto d = diffBits(a, b); if (!d.empty()) { x.fail("solver-history", cat(d, " after", trace, "; ", where())); return; }
        } else {
            // a rejected solve must leave nothing behind that the following ones see
            auto bad = own.at(r.pick(s.ids)); const bool neg = r.p(0.6);
            if (neg) { auto it = bad.begin(); std::advance(it, r.i(0, (int)bad.size() - 1)); it->second = -1.0; if (r.p(0.5)) bad[r.i(0, s.c.n - 1)] = -2.0; }
            else { const int z = r.i(0, s.c.n - 1); if (src.count(z)) continue; bad[z] = r.p(0.5) ? 1.0 : 0.0; }
            bool threw = false; try { (void)S.solveLocal(bad); } catch (const std::logic_error&) { threw = true; }
            trace += neg ? " rejected;" : " without source;"; x.count(neg ? "solver_rejected" : "solver_sourceless");
            if (neg && !threw) { x.fail("solver-negative", cat("a negative source is accepted; ", where())); return; }
        }
    }
}

static void c09(Ctx& x, Rng& r)
{
    GenOpt o; const int k = r.i(0, 4); if (x.idx % 1999 == 1234) o.huge = true; else if (x.idx % 199 == 3) o.big = true; else if (k == 1) o.loops = true; else if (k == 2) o.conserve = true; else if (k == 3) o.acyclic = true;
    Solved s; if (!drawSolved(x, r, s, o, true)) return;
    if (s.ids.empty()) return;
    Toolbox t(libGraph(s.c)); assignAll(t, s.c);
    const bool reuse = r.p(0.5);
    auto run = [&](const std::vector<std::string>& ids) { return reuse ? compute(t, s.c, s.forward, ids) : runLib(s.c, s.forward, ids); };
    const auto all = run(s.ids);
    digest(x.dig, all);
    if (s.ids != all.ids) { x.fail("ids", cat("start points are not the requested IDs in ascending order; ", describe(s.c))); return; }
    auto cmp = [&](std::vector<std::string> ids) {
        const auto o2 = run(ids); x.count("subsets_compared");
        auto sorted = ids; std::sort(sorted.begin(), sorted.end()); sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
        if (sorted != o2.ids) { x.fail("ids", cat("start points are not the requested IDs in ascending order; ", describe(s.c))); return; }
        LibOut e; e.g = all.g; e.ids = sorted; for (const auto& i : ids) { e.conc[i] = all.conc.at(i); e.tof[i] = all.tof.at(i); }
        const auto d = diffBits(e, o2);
        if (!d.empty()) { std::string l; for (auto& i : ids) l += " '" + i + "'"; x.fail("independence", cat(d, " when computing", l, " instead of all wells; ", s.forward ? "forward " : "reverse ", describe(s.c))); }
    };
    for (const auto& i : s.ids) { if (s.ids.size() > 10 && r.p(0.7)) continue; cmp({ i }); if (x.caseFailed) return; }
    cmp({});
    auto p = s.ids; std::reverse(p.begin(), p.end()); if (!x.caseFailed) cmp(p);
    if (!x.caseFailed && r.p(0.2)) { auto z = p; z.push_back(r.pick(p)); r.shuffle(z); cmp(z); x.count("repeated_start_sets"); }
    for (int q = 0; q < 3 && !x.caseFailed; ++q) { r.shuffle(p); auto z = p; z.resize((std::size_t)r.i(1, (int)p.size())); cmp(z); }
    if (!x.caseFailed) { // IDs that were not requested give empty values
        auto z = s.ids; const auto drop = r.pick(z); z.erase(std::find(z.begin(), z.end(), drop));
        const auto f = s.forward ? t.computeInjectionDiagnostics(startSets(s.c, z, true)).fd : t.computeProductionDiagnostics(startSets(s.c, z, false)).fd;
        if (!f.concentration(CellSetID(drop)).empty() || !f.timeOfFlight(CellSetID(drop)).empty()) x.fail("unrequested", "values returned for an ID that was not requested");
    }
    if (!x.caseFailed && r.p(0.3)) solverHistory(x, r, s);
    x.count("wells", s.ids.size());
    if (s.ids.size() > 1) x.nontrivial(hashCase(s.c) ^ (std::uint64_t)s.forward);
    x.sample([&] { return describe(s.c); });
}
static Reg r09("C09", c09);

} // namespace vf
