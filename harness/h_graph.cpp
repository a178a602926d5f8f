// C16-C18: strong components.  C19-C21: assembled connections.
#include "graph.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>
#include <iostream>
namespace vf {

static bool isNontrivial(const Digraph& g, const RefScc& R) { return g.n >= 2 && !g.e.empty() && R.nc >= 1; }

static void makeGraph(Ctx& x, Rng& r, Digraph& g)
{
    if (exhaustive(x.idx, x.thorough, g)) { x.count("exhaustive_small_graphs"); g.finish(r, true); return; }
    int huge = 0;
    if (x.idx % 3001 == 1500) huge = r.i(20000, 80000);
    if (x.idx % 5003 == 2500) { randomGraph(r, g, r.i(33000, 80000), 4); x.count("hubs_of_more_than_32767_neighbours"); g.finish(r, r.p(0.7)); return; }
    if (x.thorough && x.idx % 30011 == 15000) huge = r.i(200000, 1000000);
    randomGraph(r, g, huge); if (huge) x.count("graphs_above_20000_vertices");
    g.finish(r, r.p(0.7));
}

static void stats(Ctx& x, const Digraph& g, const RefScc& R, bool first = true)
{
    x.count("family " + g.name); x.count("vertices", g.n); x.count("edges", g.e.size());
    if (R.nc < g.n) x.count("graphs_with_cycles");
    if (first && isNontrivial(g, R)) x.nontrivial(g.hash());
    x.sample([&] { return g.text(); });
}

static void digest(Digest& d, const Comps& c) { d.u64(c.size()); for (auto& q : c) { d.u64(q.size()); for (int v : q) d.i(v); } }

struct SccDel { void operator()(TarjanSCCResult* s) const { destroy_tarjan_sccresult(s); } };
struct WsDel { void operator()(TarjanWorkSpace* s) const { destroy_tarjan_workspace(s); } };
using Scc = std::unique_ptr<TarjanSCCResult, SccDel>;
using Ws = std::unique_ptr<TarjanWorkSpace, WsDel>;

static void c16(Ctx& x, Rng& r)
{
    Digraph g; makeGraph(x, r, g);
    const RefScc R(g); stats(x, g, R);
    const auto ia0 = std::vector<std::size_t>(g.ia.get(), g.ia.get() + g.n + 1); const auto ja0 = std::vector<int>(g.ja.get(), g.ja.get() + g.e.size());
    Scc s(tarjan((std::size_t)g.n, g.ia.get(), g.ja.get()));
    if (!s) { x.fail("null", cat("no result; ", g.text())); return; }
    const auto c = readComps(s.get()); digest(x.dig, c); x.count("components", c.size());
    auto e = checkComps(g, R, nullptr, c); if (e.empty()) { e = checkClosure(g, c); if (g.n <= 64) x.count("closure_checked"); }
    if (!e.empty()) { x.fail("components", cat(e, "; ", g.text())); return; }
    for (int i = 0; i <= g.n; ++i) if (ia0[i] != g.ia[i]) { x.fail("input-changed", "start pointers changed"); return; }
    for (std::size_t k = 0; k < ja0.size(); ++k) if (ja0[k] != g.ja[k]) { x.fail("input-changed", "neighbours changed"); return; }
}
static Reg r16("C16", c16);

static std::vector<int> startPoints(Rng& r, const Digraph& g)
{
    std::vector<int> s;
    if (g.n == 0 || r.p(0.04)) return s;
    int k = r.p(0.5) ? 1 : r.i(1, std::min(g.n + 2, 8));
    if (r.p(0.05)) k = g.n + r.i(0, 3);
    for (int i = 0; i < k; ++i) s.push_back(!s.empty() && r.p(0.15) ? r.pick(s) : r.i(0, g.n - 1));
    if (r.p(0.05)) { s.clear(); for (int i = g.n - 1; i >= 0; --i) s.push_back(i); }
    return s;
}
static std::string text(const std::vector<int>& s) { std::string t = " start:"; if (s.size() > 40) return t + " many"; for (int v : s) t += " " + std::to_string(v); return t; }

// One work-space, several graphs.
static void c17(Ctx& x, Rng& r)
{
    const int K = x.idx < numExhaustive(x.thorough) ? 1 : r.i(1, 5);
    std::vector<std::unique_ptr<Digraph>> G; std::vector<std::unique_ptr<RefScc>> R; int nmax = 0;
    for (int k = 0; k < K; ++k) { G.emplace_back(new Digraph); if (k == 0) makeGraph(x, r, *G[0]); else { randomGraph(r, *G[k]); G[k]->finish(r, true); } R.emplace_back(new RefScc(*G[k])); stats(x, *G[k], *R[k], k == 0); nmax = std::max(nmax, G[k]->n); }
    const int pad = r.p(0.5) ? 0 : r.i(1, r.p(0.5) ? 3 : 200);
    Ws ws(create_tarjan_workspace((std::size_t)(nmax + pad)));
    if (!ws) { x.fail("null", "no work-space"); return; }
    struct Keep { Scc s; Comps c; int g; std::vector<int> st; };
    std::vector<Keep> keep;
    const int rounds = K == 1 ? r.i(1, 3) : r.i(K, 2 * K + 1);
    for (int q = 0; q < rounds; ++q) {
        const int gi = q < K ? q : r.i(0, K - 1); const Digraph& g = *G[gi];
        const auto st = startPoints(r, g);
        std::unique_ptr<int[]> sp(new int[st.size()]); std::copy(st.begin(), st.end(), sp.get());
        Keep k; k.g = gi; k.st = st;
        k.s.reset(tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), sp.get(), ws.get()));
        if (!k.s) { x.fail("null", "no result"); return; }
        if (!std::equal(st.begin(), st.end(), sp.get())) { x.fail("input-changed", "start points changed"); return; }
        sp.reset();
        k.c = readComps(k.s.get()); digest(x.dig, k.c);
        const auto only = R[gi]->reach(st);
        x.count("calls"); x.count("reached_vertices", (std::uint64_t)std::count(only.begin(), only.end(), 1));
        if (st.empty()) x.count("empty_start_lists");
        auto e = checkComps(g, *R[gi], &only, k.c); if (e.empty()) e = checkClosure(g, k.c);
        if (!e.empty()) { x.fail("reachable", cat(e, "; call ", q, " on this work-space; ", g.text(), text(st))); return; }
        if (r.p(0.4)) { // new work-space of exact size gives the same
            Ws w2(create_tarjan_workspace((std::size_t)g.n)); Scc s2(tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), st.data(), w2.get()));
            if (!s2 || readComps(s2.get()) != k.c) { x.fail("workspace-history", cat("a new work-space gives another result; ", g.text(), text(st))); return; }
            x.count("compared_with_new_workspace");
        }
        keep.push_back(std::move(k));
    }
    if (r.p(0.5)) ws.reset();
    for (auto& k : keep) { x.count("results_reread"); if (readComps(k.s.get()) != k.c) { x.fail("result-changed", cat("an earlier result changed when the work-space was reused or destroyed; ", G[k.g]->text(), text(k.st))); return; } }
}
static Reg r17("C17", c17);

static void c18(Ctx& x, Rng& r)
{
    Digraph g; makeGraph(x, r, g); const RefScc R(g); stats(x, g, R);
    Scc s; Ws ws;
    const bool whole = r.p(0.5);
    if (whole) s.reset(tarjan((std::size_t)g.n, g.ia.get(), g.ja.get()));
    else { ws.reset(create_tarjan_workspace((std::size_t)(g.n + (r.p(0.5) ? 0 : r.i(1, 50))))); const auto st = startPoints(r, g); s.reset(tarjan_reachable_sccs((std::size_t)g.n, g.ia.get(), g.ja.get(), st.size(), st.data(), ws.get())); }
    if (!s) { x.fail("null", "no result"); return; }
    if (r.p(0.5)) ws.reset();
    const auto c = readComps(s.get()); auto rev = c; std::reverse(rev.begin(), rev.end());
    for (auto& q : c) if (q.size() >= 1024) x.count("components_of_1024_or_more"); else if (q.size() > 1) x.count("components_of_2_or_more");
    if (c.empty()) x.count("empty_lists");
    const int times = r.i(1, 4);
    for (int k = 0; k < times; ++k) {
        if (!tarjan_reverse_sccresult(s.get())) { x.fail("reverse-failed", cat("reversal reports failure; ", g.text())); return; }
        const auto d = readComps(s.get()); x.count("reversals"); digest(x.dig, d);
        if (d != (k % 2 ? c : rev)) {
            std::string w = "number of components"; const auto& ex = k % 2 ? c : rev;
            if (d.size() == ex.size()) for (std::size_t z = 0; z < d.size(); ++z) if (d[z] != ex[z]) { w = cat("component ", z); break; }
            x.fail("reverse", cat("after reversal ", k + 1, " ", w, " is wrong; ", whole ? "whole graph " : "reachable part ", g.text())); return;
        }
    }
}
static Reg r18("C18", c18);

// ------------------------------------------------------------------ assembled connections

using Opm::AssembledConnections;
struct Add { int i, j; double v; };
struct Batch { std::vector<Add> a; bool weighted = true, exact = true; int maxRow = -1; std::size_t rows = 0; };

static double weight(Rng& r, int mode)
{
    switch (mode) {
    case 0: return r.i(-8, 8);
    case 1: return std::ldexp((double)r.i(-1000, 1000), -r.i(0, 10));
    case 2: return r.u(-1, 1) * r.logu(-20, 20);
    case 3: return r.p(0.5) ? 0.1 * r.i(-50, 50) : r.u(-1, 1);
    case 4: return r.p(0.3) ? 5e-324 * r.i(0, 9) : r.p(0.5) ? 1.7976931348623157e308 * r.u() : -0.0;
    default: return std::ldexp(r.u(-1, 1), r.i(-300, 300));
    }
}

static Batch makeBatch(Rng& r, int big = 0)
{
    Batch b; b.weighted = r.p(0.75);
    const int mode = r.i(0, 3); b.exact = mode <= 1;
    int nr = r.p(0.6) ? r.i(1, 6) : r.i(1, 60), nc = r.p(0.5) ? nr : r.p(0.6) ? r.i(1, 6) : r.i(1, 300);
    int m = r.p(0.05) ? 0 : r.p(0.7) ? r.i(1, 20) : r.i(1, 400);
    if (big) { nr = r.i(1, big); nc = r.i(1, big); m = big; }
    else if (r.p(0.01)) { nr = r.p(0.5) ? r.i(1, 200000) : nr; nc = r.i(1, 1000000); }   // few connections, large IDs
    const int style = r.i(0, 4);
    for (int k = 0; k < m; ++k) {
        Add a;
        if (style == 0 && !b.a.empty() && r.p(0.5)) { a = r.pick(b.a); if (r.p(0.3)) { std::swap(a.i, a.j); } }
        else if (style == 1) { a.i = r.i(0, nr - 1); a.j = a.i; if (r.p(0.5)) a.j = r.i(0, nc - 1); }
        else if (style == 2) { a.i = r.p(0.5) ? 0 : nr - 1; a.j = r.p(0.5) ? 0 : nc - 1; }
        else { a.i = r.i(0, nr - 1); a.j = r.i(0, nc - 1); }
        a.v = weight(r, mode);
        b.a.push_back(a); b.maxRow = std::max(b.maxRow, a.i);
    }
    b.rows = (std::size_t)(b.maxRow + 1) + (std::size_t)(r.p(0.5) ? 0 : r.i(0, 9));
    return b;
}
static void addTo(AssembledConnections& ac, const Batch& b) { for (auto& a : b.a) { if (b.weighted) ac.addConnection(a.i, a.j, a.v); else ac.addConnection(a.i, a.j); } }

static std::string text(const Batch& b)
{
    std::ostringstream o; o.precision(17); o << b.rows << " rows, " << b.a.size() << (b.weighted ? " weighted" : "") << " connections:";
    if (b.a.size() <= 30) for (auto& a : b.a) { o << " " << a.i << ">" << a.j; if (b.weighted) o << ":" << a.v; }
    return o.str();
}

static std::string checkCsr(Ctx& x, const AssembledConnections& ac, const Batch& b)
{
    struct S { long double sum = 0, mag = 0; int k = 0; };
    std::map<std::pair<int, int>, S> M;
    for (auto& a : b.a) { auto& s = M[{ a.i, a.j }]; s.sum += a.v; s.mag += std::fabs(a.v); ++s.k; }
    x.count("connections", b.a.size()); x.count("distinct_connections", M.size());
    const auto& ia = ac.startPointers(); const auto& ja = ac.neighbourhood(); const auto& sa = ac.connectionWeight();
    if (ac.numRows() != b.rows) return cat(ac.numRows(), " rows instead of ", b.rows);
    if (ia.size() != b.rows + 1) return cat(ia.size(), " start pointers for ", b.rows, " rows");
    if (ia[0] != 0) return "start pointers do not begin at zero";
    for (std::size_t i = 0; i < b.rows; ++i) if (ia[i + 1] < ia[i]) return "start pointers decrease";
    if (ia.back() != ja.size()) return cat("start pointers end at ", ia.back(), " with ", ja.size(), " neighbours");
    if (ja.size() != M.size()) return cat(ja.size(), " neighbours, expected ", M.size());
    if (b.weighted ? sa.size() != ja.size() : !sa.empty()) return cat(sa.size(), " weights for ", ja.size(), " neighbours");
    auto it = M.begin();
    for (std::size_t i = 0; i < b.rows; ++i) {
        for (std::size_t k = ia[i]; k < ia[i + 1]; ++k, ++it) {
            if (it == M.end() || it->first != std::make_pair((int)i, ja[k])) return cat("row ", i, " lists ", ja[k], " at position ", k - ia[i]);
            if (!b.weighted) continue;
            const long double e = it->second.sum; const double tol = b.exact ? 0.0 : 2.3e-16 * it->second.k * (double)it->second.mag;
            if (!(std::fabs((double)(sa[k] - e)) <= tol)) return cat("weight of ", i, ">", ja[k], " is ", sa[k], ", expected ", (double)e);
        }
        if (b.weighted) {
            std::size_t k = ia[i];
            for (const auto& c : ac.cellNeighbourhood((int)i)) {
                if (k >= ia[i + 1] || c.neighbour != ja[k] || !sameBits(c.weight, sa[k])) return cat("iteration over row ", i, " differs at position ", k - ia[i]);
                ++k;
            }
            if (k != ia[i + 1]) return cat("iteration over row ", i, " yields ", k - ia[i], " of ", ia[i + 1] - ia[i], " neighbours");
        }
    }
    return {};
}

static void digest(Digest& d, const AssembledConnections& ac)
{ for (auto q : ac.startPointers()) d.u64(q); for (int q : ac.neighbourhood()) d.i(q); for (double q : ac.connectionWeight()) d.d(q); }

static void c19(Ctx& x, Rng& r)
{
    const auto b = makeBatch(r, x.idx % 1009 == 500 ? r.p(0.6) ? r.i(5000, 40000) : r.i(60000, 160000) : 0);
    AssembledConnections ac; addTo(ac, b); ac.compress(b.rows);
    digest(x.dig, ac);
    x.count(b.weighted ? "weighted" : "unweighted");
    if (b.a.size() > 1) { Digest h; h.s(text(b)); for (auto& a : b.a) { h.i(a.i); h.i(a.j); h.d(a.v); } x.nontrivial(h.h); }
    x.sample([&] { return text(b); });
    const auto e = checkCsr(x, ac, b);
    if (!e.empty()) x.fail("csr", cat(e, "; ", text(b)));
}
static Reg r19("C19", c19);

struct Dump { std::vector<std::size_t> ia; std::vector<int> ja; std::vector<double> sa;
    bool operator==(const Dump& o) const { if (ia != o.ia || ja != o.ja || sa.size() != o.sa.size()) return false; for (std::size_t k = 0; k < sa.size(); ++k) if (!sameBits(sa[k], o.sa[k])) return false; return true; } };
static Dump dump(const AssembledConnections& a) { return { a.startPointers(), a.neighbourhood(), a.connectionWeight() }; }

static void c20(Ctx& x, Rng& r)
{
    AssembledConnections ac; std::string trace; const int steps = r.i(1, 6);
    Digest h;
    for (int s = 0; s < steps; ++s) {
        Batch b = makeBatch(r, x.idx % 2003 == 700 && r.p(0.5) ? r.i(3000, 70000) : 0); const int kind = r.i(0, 9);
        if (kind <= 2 && b.maxRow >= 0) {
            // too few rows, perhaps in the middle of adding, then enough
            const std::size_t cut = (std::size_t)r.i(0, (int)b.a.size()); const auto before = dump(ac);
            Batch p = b; p.a.resize(cut); addTo(ac, p); int mr = -1; for (auto& a : p.a) mr = std::max(mr, a.i);
            const int tries = r.i(1, 3);
            for (int t = 0; t < tries && mr >= 0; ++t) {
                bool ok = false; const std::size_t few = (std::size_t)r.i(0, mr);
                try { ac.compress(few); } catch (const std::invalid_argument&) { ok = true; }
                x.count("rejected_too_few_rows");
                if (!ok) { x.fail("accepts-few-rows", cat("compressing to ", few, " rows was accepted; ", text(p), trace)); return; }
                if (!(dump(ac) == before)) { x.fail("failed-changes", cat("a failed compression changed the graph; ", text(b), trace)); return; }
            }
            Batch rest = b; rest.a.erase(rest.a.begin(), rest.a.begin() + (long)cut); addTo(ac, rest);
            trace += " few-rows,"; ac.compress(b.rows);
        } else if (kind == 3 && b.a.size() >= 2) {
            // only some have weights: rejected; the builder keeps the list, so a copy made before goes on
            AssembledConnections save = ac; const auto before = dump(ac);
            const std::size_t k = (std::size_t)r.i(1, (int)b.a.size() - 1); std::vector<char> w(b.a.size(), 0); for (std::size_t z = 0; z < k; ++z) w[z] = 1; r.shuffle(w);
            for (std::size_t z = 0; z < b.a.size(); ++z) if (w[z]) ac.addConnection(b.a[z].i, b.a[z].j, b.a[z].v); else ac.addConnection(b.a[z].i, b.a[z].j);
            bool ok = false; try { ac.compress(r.p(0.8) ? b.rows : 0); } catch (const std::logic_error&) { ok = true; }
            x.count("rejected_partial_weights");
            if (!ok) { x.fail("accepts-partial-weights", cat("a list with ", k, " of ", b.a.size(), " weights was accepted; ", text(b), trace)); return; }
            if (!(dump(ac) == before)) { x.fail("failed-changes", cat("a failed compression changed the graph; ", text(b), trace)); return; }
            if (!(dump(save) == before)) { x.fail("copy", "a copy changed with the original"); return; }
            ac = save; trace += " partial-weights,"; continue;
        } else { addTo(ac, b); ac.compress(b.rows); trace += " ok,"; }
        x.count("compressions");
        digest(x.dig, ac);
        AssembledConnections f; addTo(f, b); f.compress(b.rows);
        if (!(dump(f) == dump(ac))) { x.fail("reuse", cat("step ", s, ": a reused builder gives another graph than a new one; ", text(b), " after", trace)); return; }
        const auto e = checkCsr(x, ac, b); if (!e.empty()) { x.fail("reuse", cat("step ", s, ": ", e, "; ", text(b), " after", trace)); return; }
        h.s(text(b)); for (auto& a : b.a) { h.i(a.i); h.d(a.v); }
    }
    h.s(trace); if (steps > 1) x.nontrivial(h.h);
    x.sample([&] { return trace; });
}
static Reg r20("C20", c20);

static void c21(Ctx& x, Rng& r)
{
    Batch b = makeBatch(r, x.idx % 2003 == 700 ? r.i(3000, 70000) : 0); b.weighted = true; const int wm = r.i(0, 5);
    if (r.p(0.6)) { std::set<std::pair<int, int>> seen; std::vector<Add> u; for (auto a : b.a) if (seen.insert({ a.i, a.j }).second) { a.v = weight(r, wm); u.push_back(a); } b.a = u; }
    AssembledConnections ac; addTo(ac, b); ac.compress(b.rows);
    std::ostringstream os;
    os.precision(r.i(0, 20));
    std::string fmt;
    switch (r.i(0, 3)) { case 0: os << std::fixed; fmt = "fixed"; break; case 1: os << std::scientific; fmt = "scientific"; break; case 2: os << std::hexfloat; fmt = "hexfloat"; break; default: fmt = "default"; }
    if (r.p(0.2)) os << std::showpos; if (r.p(0.2)) os << std::uppercase; if (r.p(0.2)) os << std::showpoint; if (r.p(0.2)) os << std::boolalpha; if (r.p(0.2)) os << std::left; if (r.p(0.2)) os.unsetf(std::ios_base::skipws);
    const auto flags = os.flags(); const auto prec = os.precision(); const auto fill = os.fill();
    const bool twice = r.p(0.3);
    os << ac; if (twice) { os << ac; }
    x.count("written"); x.count("format " + fmt);
    if (os.flags() != flags) { x.fail("flags", cat("stream flags changed from ", (int)flags, " to ", (int)os.flags(), " (", fmt, ")")); return; }
    if (os.precision() != prec) { x.fail("precision", cat("stream precision changed from ", (long)prec, " to ", (long)os.precision())); return; }
    if (os.fill() != fill) { x.fail("fill", "fill character changed"); return; }
    const std::string s = os.str(); x.dig.s(s);
    std::istringstream is(s); std::string line;
    for (int pass = 0; pass < (twice ? 2 : 1); ++pass) {
        std::size_t row = 0, k = 0; const auto& ia = ac.startPointers();
        for (k = 0; k < ac.neighbourhood().size(); ++k) {
            while (row + 1 < ia.size() && k >= ia[row + 1]) ++row;
            if (!std::getline(is, line)) { x.fail("lines", cat("only ", k, " of ", ac.neighbourhood().size(), " connections written")); return; }
            const char* p = line.c_str(); char* q = nullptr;
            const long i = std::strtol(p, &q, 10); bool ok = q != p && *q == ' '; p = q + (ok ? 1 : 0);
            const long j = std::strtol(p, &q, 10); ok = ok && q != p && *q == ' '; p = q + (ok ? 1 : 0);
            const double v = std::strtod(p, &q); ok = ok && q != p && *q == 0;
            if (!ok) { x.fail("syntax", cat("line '", line, "' is not \"row column weight\" (", fmt, ")")); return; }
            if (i != (long)row || j != ac.neighbourhood()[k]) { x.fail("entry", cat("line '", line, "' instead of row ", row, " column ", ac.neighbourhood()[k])); return; }
            if (!sameBits(v, ac.connectionWeight()[k])) { x.fail("lossy", cat("line '", line, "' does not give back the weight ", ac.connectionWeight()[k], " (", fmt, ")")); return; }
            x.count("lines");
        }
    }
    if (std::getline(is, line)) { x.fail("lines", cat("additional line '", line, "'")); return; }
    if (!b.a.empty()) { Digest h; h.s(s); h.i((long long)flags); x.nontrivial(h.h); }
    x.sample([&] { return cat(fmt, ": ", s.substr(0, 200)); });
}
static Reg r21("C21", c21);

} // namespace vf
