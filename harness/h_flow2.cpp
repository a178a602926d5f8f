// C05-C07: metamorphic relations between runs of the real code.
#include "flow.hpp"
namespace vf {
bool drawSolved(Ctx&, Rng&, Solved&, GenOpt, bool);

static GenOpt mix(Ctx& x, Rng& r)
{
    GenOpt o;
    if (x.idx % 199 == 3) { o.big = true; if (r.p(0.3)) o.acyclic = true; return o; }
    if (x.idx % 1999 == 1234) { o.huge = true; return o; }
    const int k = r.i(0, 9);
    if (k <= 2) o.acyclic = true; else if (k <= 5) o.loops = true; else if (k <= 6) o.conserve = true;
    return o;
}

// Compare two results that should be equal up to rounding / solver tolerance.  map: cell in a -> cell in b
static std::string compareTol(const Solved& s, const LibOut& a, const LibOut& b, const std::vector<int>* map = nullptr)
{
    auto M = [&](int i) { return map ? (*map)[i] : i; };
    if (a.g.size() != b.g.size()) return "sizes of global tof differ";
    for (int i = 0; i < s.c.n; ++i) {
        if (!std::isfinite(s.glob.eT[i])) continue;
        const double u = a.g[i], v = b.g[M(i)];
        if (!(std::fabs(u - v) <= 2.1 * s.glob.eT[i] + 1e-12 * std::fabs(u))) return cat("global tof of cell ", i, ": ", u, " vs ", v);
    }
    if (a.ids != b.ids) return "start points differ";
    for (const auto& q : a.conc) {
        const auto& R = s.loc.at(q.first);
        const auto& mb = b.conc.at(q.first);
        if (q.second.size() != mb.size()) return cat("concentration of '", q.first, "': ", q.second.size(), " vs ", mb.size(), " cells");
        for (const auto& e : q.second) {
            const auto z = mb.find(M(e.first));
            if (z == mb.end()) return cat("concentration of '", q.first, "' missing in cell ", e.first);
            if (!(std::fabs(e.second - z->second) <= 2.1 * R.eC[e.first] + 1e-12 * e.second)) return cat("concentration of '", q.first, "' in cell ", e.first, ": ", e.second, " vs ", z->second);
        }
        const auto& ta = a.tof.at(q.first); const auto& tb = b.tof.at(q.first);
        if (ta.size() != tb.size()) return cat("tof of '", q.first, "': ", ta.size(), " vs ", tb.size(), " cells");
        for (const auto& e : ta) {
            const auto z = tb.find(M(e.first));
            if (z == tb.end()) return cat("tof of '", q.first, "' missing in cell ", e.first);
            if (!std::isfinite(R.eT[e.first])) continue;
            if (!(std::fabs(e.second - z->second) <= 2.1 * R.eT[e.first] + 1e-12 * e.second)) return cat("tof of '", q.first, "' in cell ", e.first, ": ", e.second, " vs ", z->second);
        }
    }
    return {};
}

static FlowCase negated(const FlowCase& c)
{
    FlowCase d = c;
    for (auto& f : d.flux) f = -f;
    for (auto& w : d.wells) for (auto& q : w.second) q.second = -q.second;
    return d;
}

static void c05(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mix(x, r), true)) return;
    const FlowCase d = negated(s.c);
    // s.forward: direction of the first run; the second is the opposite direction on the negated field
    LibOut a, b;
    const int mode = r.i(0, 3);
    if (mode == 0) { a = runLib(s.c, s.forward, s.ids); b = runLib(d, !s.forward, s.ids); }
    else {
        // same object computes both directions, in either order
        Toolbox t(libGraph(s.c)); assignAll(t, s.c);
        std::vector<std::string> other = activeWells(s.c, !s.forward);
        RefFlow G(s.c, !s.forward); bool ok = refSolve(G, G.S).ok && !G.ambiguous;
        for (const auto& i : other) if (ok && !refSolve(G, wellSource(s.c, i, !s.forward)).ok) ok = false;
        if (mode == 1 && ok) (void)compute(t, s.c, !s.forward, other);
        a = compute(t, s.c, s.forward, s.ids);
        if (mode == 2 && ok) { (void)compute(t, s.c, !s.forward, other); const auto a2 = compute(t, s.c, s.forward, s.ids); const auto q = diffBits(a, a2); if (!q.empty()) { x.fail("repeat", q); return; } }
        if (mode == 3) { t.assignConnectionFlux(libFlux(d)); t.assignInflowFlux(libWells(d)); b = compute(t, d, !s.forward, s.ids); }
        else b = runLib(d, !s.forward, s.ids);
    }
    digest(x.dig, a); digest(x.dig, b);
    x.count("pairs_compared"); x.count("cells", s.c.n); x.count(s.F->loops ? "with_loops" : "without_loops");
    if (!s.ids.empty()) x.nontrivial(hashCase(s.c) ^ (std::uint64_t)s.forward);
    x.sample([&] { return describe(s.c); });
    const auto q = compareTol(s, a, b);
    if (!q.empty()) x.fail("duality", cat(q, " (first: ", s.forward ? "injection" : "production", "; second: opposite on the negated field); ", describe(s.c)));
}
static Reg r05("C05", c05);

// A flux as large as can be, so that its sum with the given one is exact.
static double opposing(Rng& r, double t)
{
    if (t == 0) return r.u(0.1, 9);
    int e; double m = std::frexp(t, &e); int bits = 0; while (m != std::floor(m)) { m *= 2; ++bits; }       // t = m * 2^(e - bits), m odd
    const double b = std::ldexp(1.0, e - bits + r.i(40, 51)); return r.p(0.5) ? b : -b;
}

static void c06(Ctx& x, Rng& r)
{
    Solved s; if (!drawSolved(x, r, s, mix(x, r), true)) return;
    if (s.c.n < 500 && r.p(0.15)) { // fluxes of few digits, so that phases can cancel almost completely
        for (std::size_t e = 0; e < s.c.E(); ++e) { double t = s.c.total(e); if (t != 0) { int k; t = std::frexp(t, &k); t = std::ldexp(std::max(1.0, std::floor(std::fabs(t) * 8)) * (t < 0 ? -1 : 1), k - 3); } for (int p = 0; p < s.c.np; ++p) s.c.flux[e * s.c.np + p] = p ? 0.0 : t; }
        if (!solveRef(s)) { x.count("redrawn_ill_conditioned"); return; } x.count("coarse_fluxes");
    }
    FlowCase d = s.c; std::vector<int> map(s.c.n); for (int i = 0; i < s.c.n; ++i) map[i] = i;
    std::string ops; bool opposed = false;   // phases cancel to the last digit: a part of each would not
    const int nops = r.i(1, 4);
    for (int k = 0; k < nops; ++k) {
        const int E = (int)d.E();
        switch (r.i(0, 7)) {
        case 0: { // reorient
            ops += "reorient "; for (int e = 0; e < E; ++e) if (r.p(0.5)) { std::swap(d.conn[2*e], d.conn[2*e+1]); for (int p = 0; p < d.np; ++p) d.flux[e*d.np+p] = -d.flux[e*d.np+p]; } break; }
        case 1: { // reorder connections
            ops += "reorder "; std::vector<int> o(E); for (int e = 0; e < E; ++e) o[e] = e; r.shuffle(o);
            FlowCase z = d; for (int e = 0; e < E; ++e) { z.conn[2*e] = d.conn[2*o[e]]; z.conn[2*e+1] = d.conn[2*o[e]+1]; for (int p = 0; p < d.np; ++p) z.flux[e*d.np+p] = d.flux[o[e]*d.np+p]; } d = z; break; }
        case 2: { // redistribute over phases (exact sums: power of two multiples of the total)
            ops += "phases "; const int np = r.i(1, 5); std::vector<double> f((std::size_t)E * np, 0.0);
            bool exact = true; const bool counter = r.p(0.4); if (counter) x.count("op_opposing_phases");
            for (int e = 0; e < E; ++e) { double t = d.total(e), t0 = t;
                if (np == 1) f[e] = t;
                else { const int a = r.i(0, np - 1); int b = r.i(0, np - 1); if (b == a) b = (a + 1) % np; const double h = counter ? opposing(r, t) : t * (r.p(0.5) ? 0.5 : r.p(0.5) ? 2.0 : -1.0); f[e*np+a] = h; f[e*np+b] = t0 - h; if (h + (t0 - h) != t0) exact = false; } }
            if (exact) { d.flux.swap(f); d.np = np; opposed = counter; } break; }
        case 3: { // split a connection into parallel ones
            if (opposed) break; ops += "split "; const int m = r.i(1, 1 + E / 3);
            for (int z = 0; z < m; ++z) { const int e = r.i(0, (int)d.E() - 1); const double w = r.p(0.5) ? 0.5 : 0.25; const bool fl = r.p(0.5);
                d.conn.push_back(d.conn[2*e + (fl ? 1 : 0)]); d.conn.push_back(d.conn[2*e + (fl ? 0 : 1)]);
                for (int p = 0; p < d.np; ++p) { const double v = d.flux[e*d.np+p] * w; d.flux.push_back(fl ? -v : v); d.flux[e*d.np+p] -= v; } } break; }
        case 4: { // connections without net flux
            ops += "zeroconn "; const int m = r.i(1, 3); if (d.n < 2) break;
            for (int z = 0; z < m; ++z) { int a = r.i(0, d.n - 1), b = r.i(0, d.n - 1); if (a == b) b = (a + 1) % d.n; d.conn.push_back(a); d.conn.push_back(b);
                const double v = r.p(0.5) ? r.u(0.1, 9) : 0.0; for (int p = 0; p < d.np; ++p) d.flux.push_back(0.0); if (d.np > 1) { d.flux[d.flux.size()-1] = v; d.flux[d.flux.size()-2] = -v; } } break; }
        case 5: { // perforations without rate
            ops += "zeroperf "; for (auto& w : d.wells) if (r.p(0.5)) { const int c = r.i(0, d.n - 1); w.second.insert({ c, r.p(0.5) ? 0.0 : -0.0 }); }
            if (r.p(0.3)) d.wells["extra well without any rate"][r.i(0, d.n - 1)] = 0.0; break; }
        default: { // renumber
            ops += "renumber "; std::vector<int> pm(d.n); for (int i = 0; i < d.n; ++i) pm[i] = i; if (r.p(0.3)) std::reverse(pm.begin(), pm.end()); else r.shuffle(pm);
            FlowCase z = d; for (auto& q : z.conn) q = pm[q]; for (int i = 0; i < d.n; ++i) z.pv[pm[i]] = d.pv[i];
            z.wells.clear(); for (auto& w : d.wells) for (auto& q : w.second) z.wells[w.first][pm[q.first]] = q.second;
            d = z; for (auto& q : map) q = pm[q]; }
        }
    }
    const auto a = runLib(s.c, s.forward, s.ids), b = runLib(d, s.forward, s.ids);
    digest(x.dig, a); digest(x.dig, b);
    x.count("pairs_compared"); x.count("cells", s.c.n); x.count(s.F->loops ? "with_loops" : "without_loops");
    for (const char* o : { "reorient", "reorder", "phases", "split", "zeroconn", "zeroperf", "renumber" }) if (ops.find(o) != std::string::npos) x.count(cat("op_", o));
    if (!s.ids.empty()) x.nontrivial(hashCase(s.c) ^ hashCase(d));
    x.sample([&] { return ops + describe(s.c); });
    const auto q = compareTol(s, a, b, &map);
    if (!q.empty()) x.fail("representation", cat(q, " after ", ops, "; ", s.forward ? "forward " : "reverse ", describe(s.c), " -> ", describe(d)));
}
static Reg r06("C06", c06);

// Fluxes among or next to the smallest numbers there are.  Fluxes are a power of two q, volumes whole
// multiples of it, so that all times are whole numbers and every product is exact.
static void c07tiny(Ctx& x, Rng& r)
{
    const int m = r.i(2, 7), side = r.i(0, m - 1), ns = r.i(1, 3); const bool two = r.p(0.5);
    const double q = std::ldexp(1.0, -r.i(1000, 1066)), big = r.p(0.5) ? q : std::ldexp(1.0, r.i(-20, 20));
    FlowCase c; c.family = "tiny"; c.n = m + ns + 1; c.np = r.i(1, 3); std::vector<double> T(c.n, CAP), C(c.n, 0.0);
    auto link = [&](int a, int b, double f) {
        const bool flip = r.p(0.5); c.conn.push_back(flip ? b : a); c.conn.push_back(flip ? a : b); const int p = r.i(0, c.np - 1); const bool half = c.np > 1 && r.p(0.5);
        for (int k = 0; k < c.np; ++k) c.flux.push_back((flip ? -1 : 1) * (half ? (k == p || k == (p + 1) % c.np ? f / 2 : 0.0) : k == p ? f : 0.0)); };
    // chain 0..m-1 with flux "big"; from one of its cells a side branch m..m+ns-1 with flux q; the last cell is apart,
    // or is another well that feeds the first cell of the branch with the same flux
    std::vector<int> K(c.n); for (auto& k : K) k = r.i(0, 40);
    for (int i = 0; i < c.n; ++i) c.pv.push_back(K[i] * (i < m ? big : q));
    for (int i = 0; i + 1 < m; ++i) link(i, i + 1, big);
    const int last = c.n - 1; double t = 0; for (int i = 0; i < m; ++i) { t += K[i]; T[i] = t; C[i] = 1; }
    link(side, m, q); for (int i = m; i + 1 < m + ns; ++i) link(i, i + 1, two ? 2 * q : q);
    c.wells["A"][0] = big; if (two) { link(last, m, q); c.wells["B"][last] = q; }
    std::vector<double> G = T, TB(c.n, 0.0), CB(c.n, 0.0); double g = T[side], tb = K[last];
    if (two) { CB[last] = 1; TB[last] = K[last]; G[last] = K[last]; g = (T[side] + K[last]) / 2; }
    t = T[side];
    for (int i = m; i < m + ns; ++i) { const double k = K[i] / (two ? 2.0 : 1.0); t += k; tb += k; g += k; T[i] = t; G[i] = g; C[i] = two ? 0.5 : 1; if (two) { TB[i] = tb; CB[i] = 0.5; } }
    if (r.p(0.5)) { std::vector<int> pm(c.n); for (int i = 0; i < c.n; ++i) pm[i] = i; r.shuffle(pm); FlowCase z = c; for (auto& e : z.conn) e = pm[e]; auto mv = [&](std::vector<double>& v) { auto w = v; for (int i = 0; i < c.n; ++i) w[pm[i]] = v[i]; v = w; };
        z.wells.clear(); for (auto& w : c.wells) for (auto& e : w.second) z.wells[w.first][pm[e.first]] = e.second; mv(z.pv); mv(G); mv(T); mv(C); mv(TB); mv(CB); c = z; }
    const bool fw = r.p(0.5); if (!fw) { for (auto& f : c.flux) f = -f; for (auto& w : c.wells) for (auto& e : w.second) e.second = -e.second; }
    std::vector<std::string> ids{ "A" }; if (two) ids.push_back("B");
    const auto o = runLib(c, fw, ids); digest(x.dig, o); x.count("tiny_fields"); x.nontrivial(hashCase(c)); x.sample([&] { return describe(c); });
    auto bad = [&](double u, double v) { return !(std::fabs(u - v) <= 1e-12 * std::fabs(u)); };
    for (int i = 0; i < c.n; ++i) if (bad(G[i], o.g[i])) { x.fail("tiny-global", cat("global tof of cell ", i, " is ", o.g[i], ", expected ", G[i], "; ", describe(c))); return; }
    for (const auto& id : ids) for (int i = 0; i < c.n; ++i) {
        const auto& cc = id == "A" ? C : CB; const auto& tt = id == "A" ? T : TB; const auto& oc = o.conc.at(id); const auto& ot = o.tof.at(id);
        if ((cc[i] > 0) != (oc.count(i) == 1) || oc.count(i) != ot.count(i)) { x.fail("tiny-support", cat("well ", id, ", cell ", i, " should", cc[i] > 0 ? "" : " not", " be reached; ", describe(c))); return; }
        if (cc[i] > 0 && (bad(cc[i], oc.at(i)) || bad(tt[i], ot.at(i)))) { x.fail("tiny-local", cat("well ", id, ", cell ", i, ": ", oc.at(i), ", ", ot.at(i), ", expected ", cc[i], ", ", tt[i], "; ", describe(c))); return; }
    }
}

static void c07(Ctx& x, Rng& r)
{
    if (x.idx % 23 == 7) { c07tiny(x, r); return; }
    GenOpt o; o.acyclic = true; o.noCap = true; if (x.idx % 2999 == 1234) o.huge = true; else if (r.p(0.5)) { o.wide = true; o.maxN = 10; }
    Solved s; if (!drawSolved(x, r, s, o, true)) return;
    if (s.F->loops) { x.count("loops_skipped"); return; }
    // No travel time may be near the cap, before and after scaling.
    double tmax = 0;
    for (int i = 0; i < s.c.n; ++i) { if (s.F->Q[i] > 0) tmax = std::max(tmax, s.c.pv[i] / s.F->Q[i]); if (s.glob.reach[i]) tmax = std::max(tmax, (double)s.glob.t[i]); }
    for (const auto& q : s.loc) for (int i = 0; i < s.c.n; ++i) if (q.second.reach[i]) tmax = std::max(tmax, (double)q.second.t[i]);
    // the reference limits cells that fill slowly, which they no longer do when volumes are scaled down
    double tsum = 0; for (int i = 0; i < s.c.n; ++i) if (s.F->Q[i] > 0) tsum += s.c.pv[i] / s.F->Q[i];
    if (tmax >= CAP / 4) tmax = std::max(tmax, tsum);
    int kmax = 60;                                    // largest growth of times allowed
    if (tmax > 0) kmax = std::min(60, (int)std::floor(std::log2(CAP / 2 / tmax)));
    if (kmax < -60) { x.count("too_slow"); return; }
    const int L = r.p(0.5) ? 60 : 300;                // largest scaling of volumes and rates
    int kv = r.i(-L, L), kq = r.i(-L, L);
    if (L > 60) kv = std::max(-L, std::min(L, kq + r.i(-40, 40)));
    else if (r.p(0.3)) kv = 0; else if (r.p(0.4)) kq = 0;
    while (kv - kq > kmax) { if (kq < L) ++kq; else --kv; if (kv < -L) return; }
    // the base itself must be below the cap as well: scale volumes down first if not
    FlowCase base = s.c; if (kmax < 0) for (auto& v : base.pv) v = std::ldexp(v, kmax);
    if (kmax < 0) { kv -= kmax; while (kv - kq > 0) { if (kq < L) ++kq; else --kv; } }
    if (r.p(0.3)) { // as far as no product the solver needs leaves the range of normal numbers
        double fl = 1e300, fh = 0, vl = 1e300, vh = 0, cl = 1, tl = 1e300, th = 0; auto see = [](double v, double& lo, double& hi) { v = std::fabs(v); if (v > 0) { lo = std::min(lo, v); hi = std::max(hi, v); } };
        double unused = 0; const double down = kmax < 0 ? std::ldexp(1.0, kmax) : 1.0;
        for (double f : base.flux) see(f, fl, fh); for (std::size_t e = 0; e < base.E(); ++e) see(base.total(e), fl, fh);
        for (const auto& w : base.wells) for (const auto& q : w.second) see(q.second, fl, fh); for (double v : base.pv) see(v, vl, vh);
        auto sol = [&](const RefSol& R) { for (int i = 0; i < s.c.n; ++i) if (R.reach[i]) { see((double)R.c[i], cl, unused); see((double)R.t[i] * down, tl, th); } };
        sol(s.glob); for (const auto& q : s.loc) sol(q.second); th = std::max(th, tsum * down);
        const int sh = std::min(kmax < 0 ? 0 : kmax, r.i(-40, 40));        // of the times
        const double lf = std::log2(fl), lc = std::log2(cl), lt = std::log2(std::min(1.0, tl)) + sh, hf = std::log2(std::max(fh, 1e-300)) + std::log2((double)base.E() + 2.0) + 1, ht = std::log2(std::max(1.0, th)) + sh, lv = std::log2(std::min(vl, 1e300)), hv = std::log2(std::max(vh, 1e-300));
        const double lo = std::max(-1010 - lf - lc - std::min(0.0, lt), -1000 - lv - lc - sh), hi = std::min(1010 - hf - std::max(0.0, ht), 1010 - hv - sh);
        if (hi - lo > 4 && vh > 0 && fl < 1e300) { kq = (int)std::ceil(lo) + 1; if (r.p(0.3)) kq = (int)std::floor(hi) - 1; else if (r.p(0.3)) kq = r.i((int)std::ceil(lo) + 1, (int)std::floor(hi) - 1); kv = kq + sh; x.count("at_the_limit_of_the_range"); }
    }
    FlowCase d = base;
    for (auto& v : d.pv) v = std::ldexp(v, kv);
    for (auto& f : d.flux) f = std::ldexp(f, kq);
    for (auto& w : d.wells) for (auto& q : w.second) q.second = std::ldexp(q.second, kq);
    const auto a = runLib(base, s.forward, s.ids), b = runLib(d, s.forward, s.ids);
    digest(x.dig, a); digest(x.dig, b);
    x.count("pairs_compared"); x.count("cells", s.c.n);
    if (!s.ids.empty()) x.nontrivial(hashCase(s.c) ^ (std::uint64_t)(kv * 1000 + kq));
    x.sample([&] { return cat("volumes*2^", kv, " rates*2^", kq, " ", describe(base)); });
    auto bad = [&](double u, double v) { return !(std::fabs(v - u) <= 1e-12 * std::fabs(u)); };
    const auto head = cat("volumes*2^", kv, " rates*2^", kq, ": ");
    for (int i = 0; i < s.c.n; ++i) {
        const double u = s.glob.reach[i] ? std::ldexp(a.g[i], kv - kq) : CAP;
        if (bad(u, b.g[i])) { x.fail("scaling-global", cat(head, "global tof of cell ", i, ": ", a.g[i], " -> ", b.g[i], "; ", describe(base))); return; }
    }
    for (const auto& id : s.ids) {
        const auto& R = s.loc.at(id);
        std::size_t nr = 0; for (char q : R.reach) nr += q;
        const auto &ca = a.conc.at(id), &cb = b.conc.at(id); const auto &ta = a.tof.at(id), &tb = b.tof.at(id);
        if (ca.size() != nr || cb.size() != nr || ta.size() != nr || tb.size() != nr) { x.fail("scaling-support", cat(head, "region of '", id, "' has ", ca.size(), "/", cb.size(), " cells, ", nr, " reachable; ", describe(base))); return; }
        for (const auto& e : ca) {
            if (!cb.count(e.first) || bad(e.second, cb.at(e.first))) { x.fail("scaling-conc", cat(head, "concentration of '", id, "' in cell ", e.first, " changed: ", e.second, "; ", describe(base))); return; }
            if (bad((double)R.c[e.first], e.second) && std::fabs((double)R.c[e.first] - e.second) > R.eC[e.first]) { x.fail("scaling-conc", cat("concentration of '", id, "' in cell ", e.first, " = ", e.second, ", expected ", (double)R.c[e.first], "; ", describe(base))); return; }
        }
        for (const auto& e : ta) if (!tb.count(e.first) || bad(std::ldexp(e.second, kv - kq), tb.at(e.first))) { x.fail("scaling-tof", cat(head, "tof of '", id, "' in cell ", e.first, ": ", e.second, " -> ", tb.at(e.first), "; ", describe(base))); return; }
    }
}
static Reg r07("C07", c07);

} // namespace vf
