// C29: growth of work and stack use.  C30: bounded work in recirculating regions.
// Built against a library in which every executed control-flow edge is counted; copied and cleared memory counts as well.
#include "flow.hpp"
#include "graph.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <pthread.h>
#include <unistd.h>

// ------------------------------------------------------------------ monitor

namespace {
thread_local bool counting = false;
std::uint64_t work = 0, budget = ~0ull; const char* doing = "";
void stop()
{
    counting = false;
    char b[300]; const int n = std::snprintf(b, sizeof b, "work budget of %llu steps exceeded in %s\n", (unsigned long long)budget, doing);
    if (write(2, b, (std::size_t)n)) {}
    _exit(96);
}
inline void step(std::uint64_t k) { if (!counting) return; work += k; if (work > budget) stop(); }
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) { for (; a < b; ++a) *a = 1; }
void __sanitizer_cov_trace_pc_guard(std::uint32_t*) { step(1); }
void* __real_memcpy(void*, const void*, std::size_t); void* __real_memmove(void*, const void*, std::size_t); void* __real_memset(void*, int, std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __wrap_memcpy(void* a, const void* b, std::size_t n) { step(n / 16); return __real_memcpy(a, b, n); }
void* __wrap_memmove(void* a, const void* b, std::size_t n) { step(n / 16); return __real_memmove(a, b, n); }
void* __wrap_memset(void* a, int v, std::size_t n) { step(n / 16); return __real_memset(a, v, n); }
void* __wrap_calloc(std::size_t a, std::size_t b) { step(a * b / 16); return __real_calloc(a, b); }
}

namespace vf {

// Runs f on a stack of 160 KB, counting; returns the work.
static std::uint64_t measure(const char* what, std::uint64_t limit, const std::function<void()>& f)
{
    struct Arg { const std::function<void()>* f; std::exception_ptr e; } a{ &f, nullptr };
    doing = what; work = 0; budget = limit;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 160 * 1024);
    pthread_t t;
    if (pthread_create(&t, &at, [](void* p) -> void* { auto* q = static_cast<Arg*>(p); counting = true; try { (*q->f)(); } catch (...) { q->e = std::current_exception(); } counting = false; return nullptr; }, &a) != 0) { std::fprintf(stderr, "no thread\n"); _exit(3); }
    pthread_join(t, nullptr); pthread_attr_destroy(&at);
    if (a.e) std::rethrow_exception(a.e);
    return work;
}

using Edges = std::vector<std::pair<int, int>>;

static const char* shapeName[] = { "path", "backpath", "random path", "ring", "backring", "random ring", "out star", "in star", "double star", "isolated", "self loops", "duplicates", "small rings", "nested rings", "binary tree", "reverse tree", "comb", "grid", "ladder", "random sparse", "random dag", "dense blocks", "two-way path", "ring with tail", "tail into ring", "chords back" };
constexpr int NSHAPES = 26;

static Edges shape(Rng& r, int kind, int n)
{
    Edges e; auto add = [&](int a, int b) { e.emplace_back(a, b); };
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    switch (kind) {
    case 0: for (int i = 1; i < n; ++i) add(i - 1, i); break;
    case 1: for (int i = 1; i < n; ++i) add(i, i - 1); break;
    case 2: r.shuffle(p); for (int i = 1; i < n; ++i) add(p[i - 1], p[i]); break;
    case 3: for (int i = 0; i < n; ++i) add(i, (i + 1) % n); break;
    case 4: for (int i = 0; i < n; ++i) add((i + 1) % n, i); break;
    case 5: r.shuffle(p); for (int i = 0; i < n; ++i) add(p[i], p[(i + 1) % n]); break;
    case 6: for (int i = 1; i < n; ++i) add(0, i); break;
    case 7: for (int i = 1; i < n; ++i) add(i, 0); break;
    case 8: for (int i = 1; i < n; ++i) { add(n - 1 - i, n - 1); add(n - 1, n - 1 - i); } break;
    case 9: add(0, n - 1); break;
    case 10: for (int i = 0; i < n; ++i) { add(i, i); add(i, i); } break;
    case 11: for (int i = 0; i < 2 * n; ++i) add(i % 3, n - 1 - i % 2); break;
    case 12: for (int i = 0; i + 4 <= n; i += 4) { for (int k = 0; k < 4; ++k) add(i + k, i + (k + 1) % 4); if (i + 4 < n) { if (i % 8) add(i, i + 4); else add(i + 4, i); } } break;
    case 13: for (int i = 1; i < n; ++i) { add(i - 1, i); add(i, i / 2); } break;
    case 14: for (int i = 1; i < n; ++i) add((i - 1) / 2, i); break;
    case 15: for (int i = 1; i < n; ++i) add(i, (i - 1) / 2); break;
    case 16: for (int i = 2; i < n; i += 2) { add(i - 2, i); add(i, i - 1); } break;
    case 17: { const int nx = std::max(2, (int)std::sqrt((double)n)); for (int i = 0; i < n; ++i) { if ((i + 1) % nx && i + 1 < n) add(i, i + 1); if (i + nx < n) add(i, i + nx); } break; }
    case 18: for (int i = 2; i < n; i += 2) { add(i - 2, i); add(i + 1 < n ? i + 1 : i, i - 1); add(i, i - 1); } break;
    case 19: for (int k = 0; k < 2 * n; ++k) { const int a = r.i(0, n - 1), b = r.i(0, n - 1); add(a, b); } break;
    case 20: for (int k = 0; k < 3 * n; ++k) { const int a = r.i(0, n - 1), b = r.i(0, n - 1); if (a != b) add(std::min(a, b), std::max(a, b)); } break;
    case 21: for (int i = 0; i < n; ++i) for (int k = 1; k <= 12; ++k) if ((i + k) / 12 == i / 12 && i + k < n) { add(i, i + k); add(i + k, i); } break;
    case 22: for (int i = 1; i < n; ++i) { add(i - 1, i); add(i, i - 1); } break;
    case 23: { const int m = n / 2; for (int i = 0; i < m; ++i) add(i, (i + 1) % m); for (int i = m; i < n; ++i) add(i - 1, i); break; }
    case 24: { const int m = n / 2; for (int i = 0; i < m; ++i) add(i, (i + 1) % m); for (int i = m; i < n; ++i) add(i, i + 1 < n ? i + 1 : 0); break; }
    default: for (int i = 1; i < n; ++i) { add(i - 1, i); add(i, std::max(0, i - 1 - i % 17)); add(i, 0); } break;
    }
    if (e.empty()) add(0, n - 1);
    return e;
}

static const char* opName[] = { "components", "reachable components from one vertex", "reachable components from all vertices", "reachable components from repeated vertices", "reversal", "assembling connections", "diagnostics", "diagnostics of many wells", "derived curves", "output" };
constexpr int NOPS = 10;

// A loop-free flow on the shape: edges directed from lower to higher rank.
static FlowCase loopFree(Rng& r, const Edges& e0, int n, int kind, int nw)
{
    FlowCase c; c.n = n; c.family = shapeName[kind];
    std::vector<int> rank(n); for (int i = 0; i < n; ++i) rank[i] = i; const int m = r.i(0, kind >= 6 && kind <= 9 ? 1 : 2);   // hubs: not at random, the number of inlets would vary
    if (m == 1) std::reverse(rank.begin(), rank.end()); else if (m == 2) r.shuffle(rank);
    std::vector<char> in(n, 0);
    for (auto q : e0) { if (q.first == q.second) continue; if (rank[q.first] > rank[q.second]) std::swap(q.first, q.second); c.conn.push_back(q.first); c.conn.push_back(q.second); c.flux.push_back(1.0 + (double)(c.conn.size() % 3)); in[q.second] = 1; }
    if (c.conn.empty()) { c.conn = { 0, n - 1 }; c.flux = { 1.0 }; if (rank[0] > rank[n-1]) std::swap(c.conn[0], c.conn[1]); in[c.conn[1]] = 1; }
    c.pv.assign(n, 1.0);
    // few wells: all share all inlets, so that no tracer is diluted until it underflows (which the library rejects)
    if (nw <= 3) { for (int i = 0; i < n; ++i) if (!in[i]) for (int k = 0; k < nw; ++k) c.wells["W" + std::to_string(k)][i] = 1.0 + k; return c; }
    int w = 0; for (int i = 0; i < n; ++i) if (!in[i]) { c.wells["W" + std::to_string(w++ % nw)][i] = 1.0; }
    for (int k = 0; (int)c.wells.size() < nw; ++k) c.wells["W" + std::to_string(k)][(int)(((long long)k * 7919) % n)] = 1.0;
    return c;
}

static std::uint64_t runOp(int op, int kind, std::uint64_t seed, int n, std::uint64_t limit, std::size_t& size)
{
    Rng r(seed);
    if (op <= 4) {
        Digraph g; g.n = n; g.e = shape(r, kind, n); size = (std::size_t)n + g.e.size(); g.finish(r, false);
        std::vector<int> st; if (op == 1) st.push_back(r.p(0.5) ? 0 : n - 1); if (op == 2 || op == 4) { for (int i = 0; i < n; ++i) st.push_back(i); const int m = r.i(0, 2); if (m == 1) std::reverse(st.begin(), st.end()); else if (m == 2) r.shuffle(st); } if (op == 3) st.assign((std::size_t)n, r.i(0, n - 1));
        TarjanSCCResult* s = nullptr; TarjanWorkSpace* w = nullptr; std::uint64_t k = 0;
        auto find = [&] { if (op == 0 || (op == 4 && seed % 2)) s = tarjan((std::size_t)n, g.ia.get(), g.ja.get()); else { w = create_tarjan_workspace((std::size_t)n); s = tarjan_reachable_sccs((std::size_t)n, g.ia.get(), g.ja.get(), st.size(), st.data(), w); } };
        if (op == 4) { find(); k = measure(opName[op], limit, [&] { (void)tarjan_reverse_sccresult(s); }); }
        else k = measure(opName[op], limit, find);
        if (!s) throw std::runtime_error("no components");
        destroy_tarjan_sccresult(s); destroy_tarjan_workspace(w); return k;
    }
    if (op == 5 || op == 9) {
        auto e = shape(r, kind, n); if (r.p(0.3)) r.shuffle(e); size = (std::size_t)n + e.size(); const bool wt = op == 9 || r.p(0.7);
        Opm::AssembledConnections a; auto go = [&] { for (auto& q : e) { if (wt) a.addConnection(q.first, q.second, 1.0); else a.addConnection(q.first, q.second); } a.compress((std::size_t)n); };
        if (op == 5) return measure(opName[op], limit, go);
        go(); std::ostringstream o; return measure(opName[op], limit, [&] { o << a; });
    }
    if (op == 8) {
        std::vector<double> a, b, v; for (int i = 0; i < n; ++i) { a.push_back(kind % 3 == 0 ? 1.0 : kind % 3 == 1 ? (double)(i + 1) : (double)(n - i)); b.push_back(kind % 2 ? 1.0 : r.u(0.5, 2)); v.push_back(kind % 5 == 0 ? 1.0 : r.u(0.1, 2)); }
        size = (std::size_t)n; return measure(opName[op], limit, [&] { const auto g = flowCapacityStorageCapacityCurve(a, b, v, 1.0); (void)lorenzCoefficient(g); (void)sweepEfficiency(g); });
    }
    // diagnostics; with many wells the model stays small and the number of wells grows
    const int cells = op == 7 ? 60 : n, nw = op == 7 ? std::max(2, n / 40) : r.i(1, 3);
    const auto e = shape(r, kind, cells); FlowCase c = loopFree(r, e, cells, kind, nw);
    const bool fw = r.p(0.5); if (!fw) { for (auto& f : c.flux) f = -f; for (auto& w : c.wells) for (auto& q : w.second) q.second = -q.second; }
    const auto g = libGraph(c); const auto fl = libFlux(c); const auto w = libWells(c); const auto ids = activeWells(c, fw); const auto ss = startSets(c, ids, fw);
    size = (std::size_t)c.n + c.E();
    return measure(opName[op], limit, [&] { Toolbox t(g); t.assignPoreVolume(c.pv); t.assignConnectionFlux(fl); t.assignInflowFlux(w); if (fw) { const auto f = t.computeInjectionDiagnostics(ss); (void)f.fd.timeOfFlight(); } else { const auto f = t.computeProductionDiagnostics(ss); (void)f.fd.timeOfFlight(); } });
}

static void c29(Ctx& x, Rng& r)
{
    // all combinations of operation and shape first, then at random
    int op = (int)(x.idx % NOPS), kind = (int)((x.idx / NOPS) % NSHAPES);
    const std::uint64_t seed = r.next();
    const bool deep = r.p(x.thorough ? 0.1 : 0.05) || x.idx < NOPS * 5;
    const int n = r.i(1500, 2500);
    std::size_t s1 = 0, s2 = 0, s3 = 0;
    const auto w1 = runOp(op, kind, seed, n, 3000000000ull, s1);
    // 4 times the size: at most 6 times the work (a logarithm included), checked while running so that nothing runs away
    // (where the reachable part is small by chance, a moderate number of steps per vertex and edge of the whole counts instead)
    const std::uint64_t floor = op == 6 || op == 7 ? 200 : 10, unit = std::max<std::uint64_t>(w1, floor * s1);
    const auto limit = 6 * unit + 20000;
    const auto w2 = runOp(op, kind, seed, 4 * n, limit, s2);
    x.count("growth_pairs"); x.count("steps", w1 + w2);
    x.stats["max:growth_percent_of_linear"] = std::max<std::uint64_t>(x.stats["max:growth_percent_of_linear"], (std::uint64_t)(100.0 * (double)w2 / (4.0 * (double)unit)));
    { auto& q = x.stats[cat("max:steps_per_unit_x10 ", opName[op])]; q = std::max<std::uint64_t>(q, 10 * w2 / s2); auto& g = x.stats[cat("max:growth_percent ", opName[op])]; g = std::max<std::uint64_t>(g, 25 * w2 / unit); }
    if (deep) {
        const int N = r.i(150000, 250000); const double f = (double)N / n;
        const auto w3 = runOp(op, kind, seed, op == 7 ? 4 * n : N, (std::uint64_t)(3.0 * f * (double)unit) + 100000, s3);
        x.count("deep_runs_on_small_stack"); x.count("steps", w3);
        x.stats["max:deep_growth_percent_of_linear"] = std::max<std::uint64_t>(x.stats["max:deep_growth_percent_of_linear"], (std::uint64_t)(100.0 * (double)w3 / (f * (double)unit)));
    }
    x.count(std::string("op ") + opName[op]); x.count(std::string("shape ") + shapeName[kind]);
    Digest h; h.i(op); h.i(kind); h.i((long long)n); x.nontrivial(h.h);
    x.sample([&] { return cat(opName[op], " on ", shapeName[kind], ", n=", n, ": ", w1, " steps, 4n: ", w2); });
}
static Reg r29("C29", c29);

// ------------------------------------------------------------------ C30

FlowCase bigLoop(Rng& r);

// Loops of all kinds of throughput; recirculation up to some thousand times.
static FlowCase loopCase(Rng& r)
{
    FlowCase c; const int kind = r.i(0, 4);
    const int m = r.p(0.6) ? r.i(2, 8) : r.p(0.8) ? r.i(9, 40) : r.i(41, 300), tail = r.i(0, 6); c.n = m + tail + 2;
    const double q = r.p(0.4) ? 1.0 : r.logu(-8, 4), big = q * (r.p(0.5) ? r.i(1, 9) : r.logu(0, r.p(0.5) ? 2 : 3.3));
    auto edge = [&](int a, int b, double f) { if (a == b) return; if (r.p(0.5)) { std::swap(a, b); f = -f; } c.conn.push_back(a); c.conn.push_back(b); c.flux.push_back(f); };
    const bool back = r.p(0.5);
    for (int i = 0; i < m; ++i) { const int a = i, b = (i + 1) % m; if (back) edge(b, a, big); else edge(a, b, big); }
    if (kind == 1) for (int k = 0; k < m / 2; ++k) { const int a = r.i(0, m - 1), b = r.i(0, m - 1); edge(a, b, big * r.u()); }
    const int src = m + tail, snk = m + tail + 1; const int into = r.i(0, m - 1), from = r.i(0, m - 1);
    const bool fed = kind != 2;
    if (fed) edge(src, into, q); edge(from, snk, q);
    for (int i = 0; i < tail; ++i) { if (r.p(0.5)) edge(i == 0 ? from : m + i - 1, m + i, q * r.u(0.1, 1)); else edge(m + i, m + (i + 1) % std::max(1, tail), q * r.u(0.5, 2)); }
    c.wells["I"][kind == 3 ? into : src] = q * r.u(0.5, 2); c.wells["P"][snk] = -q;
    if (kind == 4) { for (int k = 0; k < 3; ++k) c.wells["I2"][r.i(0, m - 1)] = q * r.logu(-3, 0); c.wells["P2"][r.i(0, m - 1)] = -q; }
    const double ts = r.p(0.5) ? 1.0 : r.logu(-2, 9); c.pv.assign(c.n, 0); for (auto& v : c.pv) { v = ts * q * r.u(0.1, 2); if (r.p(0.03)) v = 0; if (r.p(0.02)) v *= 1e9; }
    std::vector<int> p(c.n); for (int i = 0; i < c.n; ++i) p[i] = i; if (r.p(0.5)) r.shuffle(p);
    for (auto& v : c.conn) v = p[v]; std::vector<double> pv(c.n); for (int i = 0; i < c.n; ++i) pv[p[i]] = c.pv[i]; c.pv = pv; Wells w; for (auto& a : c.wells) for (auto& b : a.second) w[a.first][p[b.first]] = b.second; c.wells = w;
    if (r.p(0.5)) { for (auto& f : c.flux) f = -f; for (auto& a : c.wells) for (auto& b : a.second) b.second = -b.second; }
    c.family = cat("loop", kind); return c;
}

static double base(const RefFlow& F) { double e = 0; for (const auto& q : F.in) e += (double)q.size(); return 60.0 * (F.n + e) + 5000.0; }

static void c30(Ctx& x, Rng& r)
{
    Solved s; bool ok = false;
    for (int t = 0; t < 30 && !ok; ++t) {
        if (r.p(0.6)) s.c = loopCase(r); else if (x.idx % 400 == 7) s.c = bigLoop(r); else { GenOpt o; o.loops = true; s.c = genFlow(r, o); }
        s.forward = r.p(0.5); ok = solveRef(s); if (!ok) x.count("redrawn_ill_conditioned");
    }
    if (!ok) return;
    double bound = s.glob.workBound, N = s.glob.N; for (const auto& q : s.loc) { bound += q.second.workBound; N = std::max(N, q.second.N); }
    const double lin = base(*s.F) * (1.0 + s.ids.size()) * 4.0;
    const auto limit = (std::uint64_t)(12.0 * bound + 3.0 * lin);
    const auto g = libGraph(s.c); const auto fl = libFlux(s.c); const auto w = libWells(s.c); const auto ss = startSets(s.c, s.ids, s.forward);
    const auto k = measure("diagnostics with loops", limit, [&] { Toolbox t(g); t.assignPoreVolume(s.c.pv); t.assignConnectionFlux(fl); t.assignInflowFlux(w); if (s.forward) (void)t.computeInjectionDiagnostics(ss); else (void)t.computeProductionDiagnostics(ss); });
    x.count("runs"); x.count("steps", k); if (s.F->loops) { x.count("runs_with_loops"); x.nontrivial(hashCase(s.c) ^ (std::uint64_t)s.forward); }
    const std::uint64_t pc = (std::uint64_t)(10000.0 * (double)k / (double)limit);
    x.stats["max:used_of_budget_1e-4"] = std::max(x.stats["max:used_of_budget_1e-4"], pc);
    x.stats["max:recirculation"] = std::max(x.stats["max:recirculation"], (std::uint64_t)N);
    if (pc > 100) x.count("above_1_percent_of_budget"); if (pc > 1000) x.count("above_10_percent_of_budget");
    bool dead = false; for (const auto& q : s.F->comps) if (q.size() > 1 && !s.glob.reach[q[0]]) dead = true; if (dead) x.count("loops_no_source_reaches");
    x.sample([&] { return cat(describe(s.c), ": ", k, " of ", limit, " steps"); });
}
static Reg r30("C30", c30);

} // namespace vf
