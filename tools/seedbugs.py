"""Planted bugs: edits, and demonstrations."""
SOL='opm/flowdiagnostics/TracerTofSolver.cpp'; TB='opm/flowdiagnostics/Toolbox.cpp'; DQ='opm/flowdiagnostics/DerivedQuantities.cpp'
TJ='opm/utility/graph/tarjan.c'; AC='opm/utility/graph/AssembledConnections.cpp'; SO='opm/flowdiagnostics/Solution.cpp'; CS='opm/flowdiagnostics/CellSet.cpp'
CV='opm/flowdiagnostics/ConnectionValues.cpp'; RV='opm/utility/numeric/RandomVector.cpp'; CG='opm/flowdiagnostics/ConnectivityGraph.cpp'
BUGS=[]
def bug(id,property,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,property=property,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('b01-cap-wells','C01',[(SOL,'if (total_influx < pv_[cell] / max_tof_) {','if (!is_start_[cell] && (total_influx < pv_[cell] / max_tof_)) {')],'''
int main() {
    // cell 0 fills in 1000 times 200 years; cell 1 gets little from it and much from its own well
    auto t = model(2, { { 0, 1, 1e-3 } }, { CAP, 1.0 }, { { ID("A"), { { 0, 1e-3 } } }, { ID("B"), { { 1, 1e3 } } } });
    const auto f = t.computeInjectionDiagnostics({});
    const auto& g = f.fd.timeOfFlight();
    CHECK(g[0] == CAP);
    CHECK(near(g[1], (1.0 + 1e-3 * CAP) / (1e3 + 1e-3)));
}''','a well cell that takes more than 200 years to fill, upstream of a cell that mostly gets other fluid','such a cell acts on downstream cells as more than 200 years')

bug('b04-both-signs','C05',[(TB,'only_outflow_flux_[data.first] += -data.second;\n','only_outflow_flux_[data.first] += -data.second;\n                only_inflow_flux_.erase(data.first);\n')],'''
int main() {
    const std::map<CellSetID, CellSetValues> w{ { ID("A"), { { 0, 3 } } }, { ID("B"), { { 0, -1 } } } }, m{ { ID("A"), { { 0, -3 } } }, { ID("B"), { { 0, 1 } } } };
    auto t = model(2, { { 0, 1, 2 } }, { 6, 4 }, w), u = model(2, { { 0, 1, -2 } }, { 6, 4 }, m);
    const auto a = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
    const auto b = u.computeProductionDiagnostics({}).fd.timeOfFlight();
    CHECK(near(a[0], 2) && near(a[1], 4));
    CHECK(near(b[0], 2) && near(b[1], 4));
}''','a cell with an injector and a producer whose ID sorts behind it','the injector is ignored, so injection and production are no longer mirror images')

bug('b05-phase-zero','C06',[(TB,'connection_flux += flux_(ConnID{conn_idx}, PhaseID{phase});','const double phase_flux = flux_(ConnID{conn_idx}, PhaseID{phase});\n            if (phase > 1 && phase_flux * connection_flux < 0.0) { continue; }\n            connection_flux += phase_flux;')],'''
static double last(double p0, double p1, double p2) {
    ConnectionValues v(ConnectionValues::NumConnections{ 1 }, ConnectionValues::NumPhases{ 3 });
    v(ConnectionValues::ConnID{ 0 }, ConnectionValues::PhaseID{ 0 }) = p0; v(ConnectionValues::ConnID{ 0 }, ConnectionValues::PhaseID{ 1 }) = p1; v(ConnectionValues::ConnID{ 0 }, ConnectionValues::PhaseID{ 2 }) = p2;
    Toolbox t{ ConnectivityGraph(2, { 0, 1 }) }; t.assignPoreVolume({ 1, 1 }); t.assignConnectionFlux(v); t.assignInflowFlux({ { ID("A"), { { 0, 2 } } } });
    return t.computeInjectionDiagnostics({}).fd.timeOfFlight()[1];
}
int main() { CHECK(near(last(2, 0, 0), 1.0)); CHECK(near(last(1, 2, -1), 1.0)); CHECK(near(last(-1, 1, 2), 1.0)); }''','three or more phases, the third against the sum of the first two (counter-current flow)','the total flux depends on how it is divided among phases')

bug('b06-small-rate','C07',[(TB,'if (connection_flux > 0.0) {','if (connection_flux > 1.0e-30) {'),(TB,'} else if (connection_flux < 0.0) {','} else if (connection_flux < -1.0e-30) {')],'''
static double last(double s) {
    auto t = model(2, { { 0, 1, s } }, { s, 3 * s }, { { ID("A"), { { 0, s } } } });
    return t.computeInjectionDiagnostics({}).fd.timeOfFlight()[1];
}
int main() { CHECK(last(1) == 4); CHECK(last(std::ldexp(1, -60)) == 4); CHECK(last(std::ldexp(1, -110)) == 4); }''','total connection fluxes below 1e-30','small fluxes are treated as zero')

bug('b07-old-rates','C08',[(TB,'    inj_flux_by_id_.clear();\n','    if (inflow_flux.size() != inj_flux_by_id_.size()) { inj_flux_by_id_.clear(); }\n')],'''
int main() {
    auto t = model(3, { { 0, 2, 1 }, { 1, 2, 1 } }, { 1, 1, 1 }, { { ID("A"), { { 0, 1 } } } });
    (void) t.computeInjectionDiagnostics({ set("A", { 0 }) });
    t.assignInflowFlux({ { ID("A"), { { 1, 1 } } } });
    const auto c = t.computeInjectionDiagnostics({ set("A", { 1 }) }).fd.concentration(ID("A"));
    CHECK(c.size() == 2 && c.count(0) == 0 && near(c.at(1), 1.0));
}''','assigning inflow a second time, with as many IDs as were injecting before','rates of the earlier assignment remain in effect')

bug('b08-sparse-reset','C09',[(SOL,'''        tracer_.clear();
        tracer_.resize(num_cells, 0.0);
''','''        if (static_cast<int>(tracer_.size()) != num_cells) {
            tracer_.assign(num_cells, 0.0);
        } else {
            // Only cells visited by the previous solve can be non-zero.
            for (size_t comp = 0; comp + 1 < component_starts_.size(); ++comp) {
                tracer_[sequence_[component_starts_[comp]]] = 0.0;
            }
        }
''')],'''
int main() {
    // A feeds the loop 1 <-> 2, B feeds cell 4 directly, which also gets fluid from the loop
    const std::vector<Conn> c{ { 0, 1, 1 }, { 1, 2, 3 }, { 2, 1, 2 }, { 2, 4, 0.5 }, { 1, 4, 0.5 }, { 3, 4, 1 } };
    auto t = model(5, c, { 1, 1, 1, 1, 1 }, { { ID("A"), { { 0, 1 } } }, { ID("B"), { { 3, 1 } } } });
    const auto x = t.computeInjectionDiagnostics({ set("B", { 3 }) }).fd.concentration(ID("B"));
    const auto y = t.computeInjectionDiagnostics({ set("A", { 0 }), set("B", { 3 }) }).fd.concentration(ID("B"));
    CHECK(near(x.at(4), 0.5)); CHECK(near(y.at(4), 0.5));
}''','a loop in the region of one well, just upstream of the region of another that is solved later','values of the previous well leak into the next one')

bug('b09-assign-first','C10',[(TB,'''    if (flux.numConnections() != g_.numConnections()) {
        throw std::logic_error("Inconsistently sized input "
                               "flux field");
    }

    flux_ = flux;
    conn_built_ = false;
''','''    flux_ = flux;
    conn_built_ = false;

    if (flux_.numConnections() != g_.numConnections()) {
        throw std::logic_error("Inconsistently sized input "
                               "flux field");
    }
''')],'''
int main() {
    auto t = model(2, { { 0, 1, 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } } });
    bool thrown = false;
    try { t.assignConnectionFlux(fluxOf({ { 0, 1, 8 }, { 0, 1, 8 } })); } catch (const std::logic_error&) { thrown = true; }
    CHECK(thrown);
    CHECK(near(t.computeInjectionDiagnostics({}).fd.timeOfFlight()[1], 2.0));
}''','a rejected flux field, followed by a computation','the rejected field replaces the good one')

bug('b10-fraction-equal','C11',[(DQ,'if (pv[ii] > max_pv) {','if (pv[ii] >= max_pv) {')],'''
int main() {
    const auto g = flowCapacityStorageCapacityCurve(std::vector<double>{ 1, 2 }, std::vector<double>{ 1, 2 }, std::vector<double>{ 1, 1 }, 0.5);
    CHECK(g.first.size() == 3 && near(g.first[1], 0.5) && near(g.second[1], 2.0 / 3) && near(g.first[2], 1) && near(g.second[2], 1));
}''','a cell whose share of the pore volume is exactly the fraction','such cells are dropped from the curve')

bug('b13-pair-smaller','C14',[(DQ,'''        for (const auto& inj_data : inj_tracer) {
            const int cell = inj_data.first;
            const auto prod_data = prod_tracer.find(cell);
            if (prod_data != prod_tracer.end()) {
                volume += pore_volume[cell] * inj_data.second * prod_data->second;
            }
        }
''','''        // Loop over the smaller of the two regions.
        const bool inj_smaller = 2*inj_tracer.size() <= prod_tracer.size();
        const auto& small = inj_smaller ? inj_tracer : prod_tracer;
        const auto& large = inj_smaller ? prod_tracer : inj_tracer;
        for (const auto& data : small) {
            const int cell = data.first;
            const auto other = large.find(cell);
            if (other != large.end()) {
                volume += pore_volume[cell] * data.second * (inj_smaller ? data.second : other->second);
            }
        }
''')],'''
int main() {
    // injector region {5,6}: half of the fluid of cell 6 comes from A; the producer drains everything
    std::vector<Conn> c; for (int i = 0; i < 4; ++i) c.push_back({ i, i + 1, 1 }); c.push_back({ 4, 6, 1 }); c.push_back({ 5, 6, 1 });
    auto t = model(7, c, std::vector<double>(7, 1), { { ID("A"), { { 5, 1 } } }, { ID("B"), { { 0, 1 } } }, { ID("P"), { { 6, -2 } } } });
    const auto f = t.computeInjectionDiagnostics({ set("A", { 5 }), set("B", { 0 }) }); const auto r = t.computeProductionDiagnostics({ set("P", { 6 }) });
    const std::vector<double> pv(7, 1);
    CHECK(near(injectorProducerPairVolume(f, r, pv, ID("A"), ID("P")), 1.5));
    CHECK(near(injectorProducerPairVolume(f, r, pv, ID("A"), ID("P")) + injectorProducerPairVolume(f, r, pv, ID("B"), ID("P")), 7.0));
}''','an injector region at most half of the producer region, with mixed fluid','the wrong concentration is used')

bug('b14-crossflow','C15',[(DQ,'if ((source > 0.0) == require_inflow) {','if (!require_inflow || (source > 0.0)) {')],'''
int main() {
    // the producer injects 1 in cell 0 and produces 3 in cell 2 (cross flow)
    const std::map<CellSetID, CellSetValues> w{ { ID("A"), { { 0, 2 } } }, { ID("P"), { { 1, 1 }, { 2, -3 } } } };
    auto t = model(3, { { 0, 1, 2 }, { 1, 2, 3 } }, { 1, 1, 1 }, w);
    const auto f = t.computeInjectionDiagnostics({ set("A", { 0 }) }); const auto r = t.computeProductionDiagnostics({ set("P", { 2 }) });
    const auto p = injectorProducerPairFlux(f, r, ID("A"), ID("P"), w);
    CHECK(near(p.first, 2)); CHECK(near(p.second, -2));
}''','a producer with a perforation that injects, reached by the injector','inflow of the producer is counted as negative production')

bug('b16-small-result','C17',[(TJ,'    scc = allocate_scc_result(work->nvert);','    scc = allocate_scc_result((nv + 1) / 2 > nstart ? nv : work->nvert);')],'''
int main() {
    const std::size_t ia[] = { 0, 1, 2, 2 }; const int ja[] = { 1, 2 }, st[] = { 0 };
    auto* w = create_tarjan_workspace(1000);
    auto* s = tarjan_reachable_sccs(3, ia, ja, 1, st, w);
    CHECK(tarjan_get_numcomponents(s) == 3);
    destroy_tarjan_sccresult(s); destroy_tarjan_workspace(w);
}''','a work-space larger than the graph, and few start points','the result is allocated too small (writes out of bounds)',flags='-O1 -g -fsanitize=address')

bug('b17-big-copy','C18',[(TJ,'memcpy(dst, src, n * sizeof *dst);','memcpy(dst, src, thres * sizeof *dst);')],'''
int main() {
    for (int n : { 1000, 1024, 1025, 3000 }) {
        std::vector<std::size_t> ia{ 0 }; std::vector<int> ja; for (int i = 0; i < n; ++i) { ja.push_back((i + 1) % n); ia.push_back(ja.size()); }
        auto* s = tarjan(n, ia.data(), ja.data()); auto c = tarjan_get_strongcomponent(s, 0); std::vector<int> v(c.vertex, c.vertex + c.size);
        CHECK(tarjan_reverse_sccresult(s)); c = tarjan_get_strongcomponent(s, 0);
        CHECK(std::vector<int>(c.vertex, c.vertex + c.size) == v);
        destroy_tarjan_sccresult(s);
    }
}''','a component of more than 1024 vertices','only the first 1024 vertices survive reversal')

bug('b18-more-columns','C19',[(AC,'this->accumulateRowEntries(this->numCols_, colIdx);','this->accumulateRowEntries(std::max(this->numRows_, this->numCols_), colIdx);'),(AC,'''#include <ios>
''','''#include <algorithm>
#include <ios>
''')],'''
int main() {
    AssembledConnections a; a.addConnection(0, 3, 1.0); a.addConnection(1, 2, 2.0); a.compress(2);
    CHECK(a.numRows() == 2); CHECK(a.startPointers().size() == 3);
}''','connections to more columns than there are rows','the compressed graph has more rows than requested')

bug('b19-list-lost','C20',[(AC,'''    csr_.create(conns_, numRows);

    conns_.clear();
''','''    const auto conns = std::move(conns_);

    conns_.clear();

    csr_.create(conns, numRows);
''')],'''
int main() {
    AssembledConnections a; a.addConnection(5, 0, 1.0);
    bool thrown = false; try { a.compress(3); } catch (const std::invalid_argument&) { thrown = true; }
    CHECK(thrown); a.compress(6); CHECK(a.neighbourhood().size() == 1);
}''','a compression that fails, then another one','the list of connections is lost')

bug('b20-digits','C21',[(AC,'os.precision(16);','os.precision(15);')],'''
int main() {
    AssembledConnections a; const double v = 0.1 + 0.2, u = 1.0 / 3 * 1e300; a.addConnection(0, 1, v); a.addConnection(0, 2, u); a.compress(1);
    std::stringstream s; s << a; int i, j; double x;
    s >> i >> j >> x; CHECK(x == v); s >> i >> j >> x; CHECK(x == u);
}''','weights that need 17 significant digits','text output loses the last digit')

bug('b21-no-overwrite','C22',[(SO,'    soln[i] = std::move(x);','    soln.emplace(i, std::move(x));')],'''
struct S : Solution { using Solution::assign; };
int main() {
    auto t = model(2, { { 0, 1, 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } } });
    Solution s; s.assign(ID("A"), Solution::TracerConcentration{ { { 1, 0.5 } } }); s.assign(ID("A"), Solution::TracerConcentration{ { { 2, 0.25 } } });
    const auto c = s.concentration(ID("A")); CHECK(c.size() == 1 && c.count(2) == 1);
}''','assigning the same ID twice','the first assignment stays')

bug('b22-strcmp','C23',[(CS,'return id_ < other.id_;','return std::strcmp(id_.c_str(), other.id_.c_str()) < 0;'),(CS,'#include <utility>\n','#include <cstring>\n#include <utility>\n')],'''
int main() {
    const CellSetID a(std::string("W\\0A", 3)), b(std::string("W\\0B", 3)), c(std::string("W"));
    CHECK(a < b && c < a && !(b < a));
}''','IDs that differ behind an embedded NUL','different IDs are taken as equal')

bug('b23-flat-check','C24',[(CV,'''    if ((conn .id >= nconn_ .total) ||
        (phase.id >= nphase_.total))
''','''    if (conn.id*nphase_.total + phase.id >= data_.size())
''')],'''
int main() {
    ConnectionValues v(ConnectionValues::NumConnections{ 3 }, ConnectionValues::NumPhases{ 2 });
    for (std::size_t c = 0; c < 5; ++c) for (std::size_t p = 0; p < 5; ++p) {
        bool thrown = false; try { v(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }) = 1.0; } catch (const std::logic_error&) { thrown = true; }
        CHECK(thrown == (c >= 3 || p >= 2));
    }
}''','a phase out of range for a connection that is not the last','another connection is read or written',occ={'''    if ((conn .id >= nconn_ .total) ||
        (phase.id >= nphase_.total))
''':2})

bug('b24-open-range','C25',[(RV,'std::uniform_int_distribution<>{ min, max };','std::uniform_int_distribution<>{ min, (max > 2) ? (max - 1) : max };')],'''
int main() {
    RandomVector r; bool top = false; for (int i : r.index(100000, 9)) { CHECK(i >= 0 && i <= 9); top = top || i == 9; }
    CHECK(top);
}''','a maximum above 2','the largest index is never drawn')

bug('b25-leak-reverse','C26',[(TJ,'        destroy_tarjan_sccresult(rev);\n    }\n\n    return ok;','        if (scc->ncomp < scc->start[ scc->ncomp ] || scc->ncomp < 64) { destroy_tarjan_sccresult(rev); }\n        else { free(rev->start); free(rev); }\n    }\n\n    return ok;')],'''
int main() {
    const int n = 200; std::vector<std::size_t> ia{ 0 }; std::vector<int> ja; for (int i = 0; i < n; ++i) { if (i) ja.push_back(i - 1); ia.push_back(ja.size()); }
    auto* s = tarjan(n, ia.data(), ja.data()); CHECK(tarjan_reverse_sccresult(s)); destroy_tarjan_sccresult(s);
}''','reversing a list of at least 64 components of one vertex each','memory is leaked',flags='-O1 -g -fsanitize=address')

bug('b26-built-early','C27',[(TB,'''    const size_t num_phases = flux_.numPhases();
    downstream_conn_''','''    const size_t num_phases = flux_.numPhases();

    // Mark as built (until flux changed).
    conn_built_ = true;
    downstream_conn_'''),(TB,'''    upstream_conn_.compress(num_cells);

    // Mark as built (until flux changed).
    conn_built_ = true;
''','''    upstream_conn_.compress(num_cells);
''')],'''
#include <new>
static long countdown = -1;
void* operator new(std::size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    for (long k = 0; k < 400; ++k) {
        auto t = model(3, { { 0, 1, 1 }, { 1, 2, 1 } }, { 1, 1, 1 }, { { ID("A"), { { 0, 1 } } } });
        countdown = k; try { (void) t.computeInjectionDiagnostics({}); } catch (const std::exception&) {} countdown = -1;
        const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
        CHECK(g.size() == 3 && near(g[2], 3.0));
    }
}''','an allocation that fails while the flow graphs are built, then another computation','the second computation uses half-built graphs')

bug('b27-static-scratch','C28',[(SOL,'        std::vector<int> startcells;\n        startcells.reserve','        static std::vector<int> startcells;\n        startcells.clear();\n        startcells.reserve')],'''
#include <thread>
int main() {
    auto run = [](int id) {
        for (int k = 0; k < 300; ++k) {
            const int n = 40 + id * 13; std::vector<Conn> c; for (int i = 1; i < n; ++i) c.push_back({ i - 1, i, 1 });
            auto t = model(n, c, std::vector<double>(n, 1), { { ID("A"), { { id, 1 } } } });
            const auto m = t.computeInjectionDiagnostics({ set("A", { id }) }).fd.concentration(ID("A"));
            CHECK((int) m.size() == n - id);
        }
    };
    std::vector<std::thread> th; for (int i = 0; i < 4; ++i) th.emplace_back(run, i); for (auto& t : th) t.join();
}''','two toolboxes used by two threads','data race on a shared scratch vector',flags='-O1 -g -fsanitize=thread',link='-pthread')

bug('b28-rescan','C29',[(TJ,'start = tarjan_find_start(start, work))','start = tarjan_find_start(  0  , work))')],'''
#include <ctime>
static double run(int n) {
    std::vector<std::size_t> ia(n + 1, 0); std::vector<int> ja; double best = 1e9;
    for (int k = 0; k < 3; ++k) { const auto a = std::clock(); auto* s = tarjan(n, ia.data(), ja.data()); const auto b = std::clock(); CHECK((int) tarjan_get_numcomponents(s) == n); destroy_tarjan_sccresult(s); best = std::min(best, double(b - a) / CLOCKS_PER_SEC); }
    return best;
}
int main() { CHECK(run(400000) < 1.0); }''','many components that are not reached from each other','the search for the next start point is quadratic')

bug('b29-slow-dead-loop','C30',[(SOL,'''            tof_[cell] = max_tof_;
        }

        // Cap time-of-flight if time to fill''','''            // Not reached (yet) by any start cell.
            tof_[cell] = (num_multicell_ > 0 && total_influx > 0.0)
                ? std::min(max_tof_, tof_[cell] + pv_[cell]/total_influx + max_tof_/1.0e7)
                : max_tof_;
        }

        // Cap time-of-flight if time to fill''')],'''
#include <ctime>
int main() {
    // the loop 1 -> 2 -> 1 gets no fluid from any well
    auto t = model(4, { { 0, 3, 1 }, { 1, 2, 1 }, { 2, 1, 1 } }, { 1, 1, 1, 1 }, { { ID("A"), { { 0, 1 } } } });
    const auto a = std::clock(); const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
    CHECK(g[1] == CAP && g[2] == CAP && near(g[3], 2));
    CHECK(double(std::clock() - a) / CLOCKS_PER_SEC < 0.02);
}''','a loop that no source reaches','millions of sweeps until the cap is reached')

bug('b30-assert-effect','C31',[(SOL,'''        // Must reverse ordering, since Tarjan computes reverse ordering.
        const int ok = tarjan_reverse_sccresult(result.get());
        if (!ok) {
            throw std::runtime_error("Failed to reverse topological ordering in TracerTofSolver::computeOrdering()");
        }

        // Extract data from solution.
        sequence_.resize(num_cells); // For''','''        // Must reverse ordering, since Tarjan computes reverse ordering.
        assert(tarjan_reverse_sccresult(result.get()) != 0);

        // Extract data from solution.
        sequence_.resize(num_cells); // For''')],'''
int main() {
    auto t = model(3, { { 0, 1, 1 }, { 1, 2, 1 } }, { 1, 1, 1 }, { { ID("A"), { { 0, 1 } } } });
    bool ok = false;
    try { const auto m = t.computeInjectionDiagnostics({ set("A", { 0 }) }).fd.timeOfFlight(ID("A")); ok = near(m.at(2), 3.0); } catch (const std::exception& e) { std::puts(e.what()); }
    CHECK(ok);
}''','a build without assertions (NDEBUG)','the ordering of local solves is not reversed',flags='-O2 -DNDEBUG')


bug('b02-shared-region','C02',[(TB,'only_outflow_flux_[data.first] += -data.second;','auto& outflow = only_outflow_flux_[data.first];\n                outflow = std::max(outflow, -data.second);'),(TB,'#include <opm/utility/numeric/RandomVector.hpp>','#include <opm/utility/numeric/RandomVector.hpp>\n\n#include <algorithm>')],'''
int main() {
    auto t = model(2, { { 0, 1, 5 } }, { 1, 1 }, { { ID("A"), { { 0, 5 } } }, { ID("P"), { { 1, -2 } } }, { ID("Q"), { { 1, -3 } } } });
    const auto f = t.computeProductionDiagnostics({ set("P", { 1 }), set("Q", { 1 }) });
    CHECK(near(f.fd.concentration(ID("P")).at(0), 0.4));
    CHECK(near(f.fd.concentration(ID("Q")).at(1), 0.6));
}''','two producers in one cell','total outflow of a cell counts one of its wells only')

bug('b03-gs-limit','C03',[(SOL,'            max_tof_delta = 0.0;\n            max_tracer_delta = 0.0;\n            ++num_iter;','            if (num_iter >= 2*num_cells + 200) { break; }\n            max_tof_delta = 0.0;\n            max_tracer_delta = 0.0;\n            ++num_iter;')],'''
int main() {
    // strong recirculation: 0 -> 1 -> 0, little throughput
    auto t = model(3, { { 0, 1, 101 }, { 1, 0, 100 }, { 1, 2, 1 } }, { 1e6, 1e6, 1e6 }, { { ID("A"), { { 0, 1 } } } });
    const auto f = t.computeInjectionDiagnostics({ set("A", { 0 }) });
    CHECK(std::fabs(f.fd.timeOfFlight(ID("A")).at(2) - 3e6) < 30);
}''','a recirculating region with little throughput, so that many sweeps are needed','the iteration stops before it has converged')

bug('b11-lorenz-short','C12',[(DQ,'integral += (flowcap[ii] + flowcap[ii+1]) * len / 2.0;','if (len < 1.0e-5) { continue; } // Negligible.\n            integral += (flowcap[ii] + flowcap[ii+1]) * len / 2.0;')],'''
int main() {
    const int n = 200000; Graph g; for (int i = 0; i <= n; ++i) { g.first.push_back(double(i) / n); g.second.push_back(double(i) / n); }
    CHECK(std::fabs(lorenzCoefficient(g)) < 1e-9);
}''','curves with steps of less than 1e-5 in Phi (small cells, or more than 100000)','their area is left out')

bug('b12-sweep-tiny','C13',[(DQ,'if (fd != 0.0) {','if (fd > 1.0e-10) {')],'''
int main() {
    const auto s = sweepEfficiency(Graph{ { 0, 0.5, 1 }, { 0, 1 - 1e-12, 1 } });
    CHECK(s.first.size() == 3 && near(s.second.back(), 1.0));
}''','a cell with less than 1e-10 of the flow','points are missing, and the curve ends too early')

bug('b15-lowlink','C16',[(TJ,'work->link[c] = MIN(work->link[c], work->time[child]);','work->link[c] = work->time[child];')],'''
int main() {
    bool ok = true;
    for (int n = 3; n <= 4; ++n) for (int bits = 0; bits < (1 << (n * n)) && ok; ++bits) {
        std::vector<std::size_t> ia{ 0 }; std::vector<int> ja; std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
        for (int i = 0; i < n; ++i) { r[i][i] = 1; for (int j = 0; j < n; ++j) if (bits >> (i * n + j) & 1) { ja.push_back(j); r[i][j] = 1; } ia.push_back(ja.size()); }
        for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (r[i][k] && r[k][j]) r[i][j] = 1;
        auto* s = tarjan(n, ia.data(), ja.data()); std::vector<int> comp(n, -1);
        for (std::size_t k = 0; k < tarjan_get_numcomponents(s); ++k) { auto c = tarjan_get_strongcomponent(s, k); for (std::size_t q = 0; q < c.size; ++q) comp[c.vertex[q]] = (int) k; }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((r[i][j] && r[j][i]) != (comp[i] == comp[j])) ok = false;
        destroy_tarjan_sccresult(s);
    }
    CHECK(ok);
}''','a vertex with several edges back into the current path, the least one not last','mutually reachable vertices end up in different components')

bug('b31-minor-perforation','C04',[(SOL,'            local_source_term_[startpoint.first] = startpoint.second;','            const bool minor = startpoint.second < 1.0e-6 * source_term_[startpoint.first];\n            local_source_term_[startpoint.first] = minor ? source_term_[startpoint.first] : startpoint.second;')],'''
int main() {
    auto t = model(2, { { 0, 1, 1e7 + 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1e7 } } }, { ID("B"), { { 0, 1 } } } });
    const auto f = t.computeInjectionDiagnostics({ set("A", { 0 }), set("B", { 0 }) });
    CHECK(std::fabs(f.fd.concentration(ID("A")).at(1) + f.fd.concentration(ID("B")).at(1) - 1.0) < 1e-9);
}''','a well with less than a millionth of the rate of its cell','it is taken to own all of the inflow, so that concentrations sum to two')

bug('b32-merged-perforations','C32',[(TB,'                inj_flux_by_id_[id].insert(data);\n','                if (! inj_flux_by_id_[id].empty() && inj_flux_by_id_[id].rbegin()->second > 1.0e5 * data.second) { continue; }\n                inj_flux_by_id_[id].insert(data);\n')],'''
int main() {
    // one well with two perforations must give the sum of two wells with one each
    const std::vector<Conn> c{ { 0, 2, 1e6 }, { 1, 2, 1 } };
    auto t = model(3, c, { 1, 1, 1 }, { { ID("A"), { { 0, 1e6 } } }, { ID("B"), { { 1, 1 } } } }), u = model(3, c, { 1, 1, 1 }, { { ID("AB"), { { 0, 1e6 }, { 1, 1 } } } });
    const auto f = t.computeInjectionDiagnostics({ set("A", { 0 }), set("B", { 1 }) }), g = u.computeInjectionDiagnostics({ set("AB", { 0, 1 }) });
    const auto ab = g.fd.concentration(ID("AB"));
    CHECK(ab.size() == 3);
    CHECK(std::fabs(f.fd.concentration(ID("A")).at(2) + f.fd.concentration(ID("B")).at(2) - ab.at(2)) < 1e-9);
}''','a well with a perforation of much less rate than one of a lower cell index','the minor perforation is left out of the well, so that merged wells are no longer the sum of their parts')

bug('b33-shared-tolerance','C33',[(SOL,'max_tracer_delta > gauss_seidel_tracer_tol_) {','max_tracer_delta > gauss_seidel_tracer_tol_ * std::max(1.0, 1.0e3 * (num_multicell_ - 1))) {')],'''
static double last(bool other) {
    // the loop 1 <-> 2 has little throughput; another loop elsewhere is no concern of it
    std::vector<Conn> c{ { 3, 4, other ? 2.0 : 1.0 }, { 4, 3, other ? 1.0 : -1.0 }, { 0, 1, 1 }, { 1, 2, 2001 }, { 2, 1, 2000 }, { 2, 5, 1 } };
    auto t = model(6, c, { 1, 1, 1, 1, 1, 1 }, { { ID("A"), { { 0, 1 } } }, { ID("B"), { { 3, 1 } } }, { ID("C"), { { 1, 1 } } } });
    double worst = 0; for (int k = 0; k < 2; ++k) worst = std::max(worst, std::fabs(t.computeInjectionDiagnostics({ set("A", { 0 }) }).fd.timeOfFlight()[5]));
    return worst;
}
int main() { const double a = last(false), b = last(true); std::printf("%.17g %.17g\\n", a, b); CHECK(std::fabs(a - b) < 1e-4 * a); }''','another loop that is solved earlier, and a loop with little throughput','the accuracy in one loop depends on whether there are other loops')

bug('b34-zero-volume','C34',[(SOL,'        // Compute time-of-flight.\n        if (tracer_[cell] > 0.0) {','        // Compute time-of-flight.\n        if (pv_[cell] <= 0.0 && ! is_start_[cell] && influx_[cell] > 0.0) {\n            // No pore space: nothing is delayed or mixed here.\n            const int upwind = (*g_reverse_.cellNeighbourhood(cell).begin()).neighbour;\n            tof_[cell] = tof_[upwind];\n        } else if (tracer_[cell] > 0.0) {')],'''
static double last(double v0, double v1, double v2) {
    auto t = model(3, { { 0, 2, 1 }, { 1, 2, 1 } }, { v0, v1, v2 }, { { ID("A"), { { 0, 1 }, { 1, 1 } } } });
    return t.computeInjectionDiagnostics({}).fd.timeOfFlight()[2];
}
int main() { CHECK(near(last(4, 8, 10), 11)); CHECK(near(last(4, 8, 0) + last(0, 0, 10), 11)); }''','a cell without pore volume that is fed by several cells of different age','its time is that of one neighbour instead of the flux-weighted mean')

# ---- second batch
bug('b35-same-total','C08',[(TB,'    flux_ = flux;\n    conn_built_ = false;\n','''    // Rebuild the graphs only if the field is another one.
    using ConnID = ConnectionValues::ConnID;
    using PhaseID = ConnectionValues::PhaseID;
    auto total = [](const ConnectionValues& v) {
        double sum = 0.0;
        for (size_t conn = 0; conn < v.numConnections(); ++conn) {
            for (size_t phase = 0; phase < v.numPhases(); ++phase) {
                sum += v(ConnID{conn}, PhaseID{phase});
            }
        }
        return sum;
    };
    if (flux.numConnections() != flux_.numConnections() || flux.numPhases() != flux_.numPhases() || total(flux) != total(flux_)) {
        conn_built_ = false;
    }
    flux_ = flux;
''')],'''
int main() {
    auto t = model(3, { { 0, 1, 1 }, { 0, 2, 3 } }, { 1, 1, 1 }, { { ID("A"), { { 0, 4 } } } });
    (void) t.computeInjectionDiagnostics({});
    t.assignConnectionFlux(fluxOf({ { 0, 1, 3 }, { 0, 2, 1 } }));
    const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
    CHECK(near(g[1], 0.25 + 1.0 / 3) && near(g[2], 0.25 + 1.0));
}''','a new flux field whose values have the same sum as those before','results of the earlier field')

bug('b36-negligible','C02',[(SOL,'            local_tof[cell] = tof_[cell];\n','            if (tracer_[cell] > 0.0 && tracer_[cell] < 1.0e-12) { continue; } // Negligible.\n            local_tof[cell] = tof_[cell];\n')],'''
int main() {
    auto t = model(3, { { 0, 1, 1e-13 }, { 2, 1, 1 } }, { 1, 1, 1 }, { { ID("A"), { { 0, 1e-13 } } }, { ID("B"), { { 2, 1 } } } });
    const auto c = t.computeInjectionDiagnostics({ set("A", { 0 }) }).fd.concentration(ID("A"));
    CHECK(c.size() == 2 && c.count(1) == 1);
}''','a concentration below 1e-12','cells that the well reaches are not reported')

bug('b37-no-source','C01',[(SOL,'if (source == 0.0 && is_start_[cell]) {','if (source <= 1.0e-12 * influx_[cell] && is_start_[cell]) {')],'''
int main() {
    auto t = model(2, { { 0, 1, 1e3 } }, { 1e3, 1e3 }, { { ID("A"), { { 0, 1e3 } } }, { ID("B"), { { 1, 1e-10 } } } });
    const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
    CHECK(near(g[0], 1) && near(g[1], 2));
}''','a well cell whose own rate is less than 1e-12 of what flows through it','its time-of-flight is zero')

bug('b38-no-wells','C08',[(TB,'    only_inflow_flux_.clear();\n','    if (inflow_flux.empty()) { return; } // Nothing assigned.\n\n    only_inflow_flux_.clear();\n')],'''
int main() {
    auto t = model(2, { { 0, 1, 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } } });
    t.assignInflowFlux({});
    const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
    CHECK(g[0] == CAP && g[1] == CAP);
}''','assigning an empty set of wells after another','the earlier wells stay')

bug('b39-empty-set','C10',[(TB,'    for (const auto& start : start_sets) {\n        if (prod_flux_by_id_','    for (const auto& start : start_sets) {\n        if (start.begin() == start.end()) { continue; }\n        if (prod_flux_by_id_')],'''
int main() {
    auto t = model(2, { { 0, 1, 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } }, { ID("B"), { { 1, -1 } } } });
    bool thrown = false;
    try { (void) t.computeProductionDiagnostics({ set("A", {}) }); } catch (const std::runtime_error&) { thrown = true; }
    CHECK(thrown);
}''','a start set without cells whose ID has no outflow, in production diagnostics','it is not rejected')

bug('b40-ties','C11',[(DQ,'        std::sort(time_and_pv.begin(), time_and_pv.end());\n','        std::stable_sort(time_and_pv.begin(), time_and_pv.end(), [](const D2& a, const D2& b) { return a.first < b.first; });\n')],'''
int main() {
    const auto a = flowCapacityStorageCapacityCurve(std::vector<double>{ 1, 1 }, std::vector<double>{ 1, 1 }, std::vector<double>{ 1, 3 }, 1.0);
    const auto b = flowCapacityStorageCapacityCurve(std::vector<double>{ 1, 1 }, std::vector<double>{ 1, 1 }, std::vector<double>{ 3, 1 }, 1.0);
    CHECK(a == b);
}''','cells with equal travel time and different volume, in another order','the curve depends on the numbering of the cells')

bug('b41-pair-threshold','C14',[(DQ,'            if (prod_data != prod_tracer.end()) {\n','            if (prod_data != prod_tracer.end() && inj_data.second * prod_data->second > 1.0e-14) {\n')],'''
int main() {
    auto t = model(3, { { 0, 1, 1e-8 }, { 1, 2, 1e-8 } }, { 1, 1e9, 1 }, { { ID("A"), { { 0, 1e-8 } } }, { ID("B"), { { 1, 1 } } }, { ID("C"), { { 2, -1e-8 } } }, { ID("D"), { { 1, -1 } } } });
    const auto f = t.computeInjectionDiagnostics({ set("A", { 0 }) }); const auto r = t.computeProductionDiagnostics({ set("C", { 2 }) });
    const std::vector<double> pv{ 1, 1e9, 1 };
    double v = 0; const auto a = f.fd.concentration(ID("A")), c = r.fd.concentration(ID("C")); for (auto& q : a) if (c.count(q.first)) v += pv[q.first] * q.second * c.at(q.first);
    CHECK(std::fabs(injectorProducerPairVolume(f, r, pv, ID("A"), ID("C")) - v) < 1e-3 * v);
}''','a large cell in which both concentrations are small','its volume is left out')

bug('b42-short-time','C16',[(TJ,'discover_vertex(c, ia, &time, work, scc);','time = (int) ((short) time); discover_vertex(c, ia, &time, work, scc);')],'''
int main() {
    const int n = 70000; std::vector<std::size_t> ia{ 0 }; std::vector<int> ja; for (int i = 0; i < n; ++i) { if (i + 1 < n) ja.push_back(i + 1); ia.push_back(ja.size()); }
    auto* s = tarjan(n, ia.data(), ja.data()); const auto k = tarjan_get_numcomponents(s); destroy_tarjan_sccresult(s);
    CHECK(k == (std::size_t) n);
}''','a search that discovers more than 32767 vertices','vertices get the same or negative times, and components are wrong',flags='-O2 -g -DNDEBUG')

bug('b44-empty-tracer','C22',[(SO,'        s.emplace_back(t.first);\n','        if (! t.second.empty()) { s.emplace_back(t.first); }\n')],'''
int main() {
    Solution s; s.assign(ID("A"), Solution::TracerConcentration{ CellSetValues{} });
    CHECK(s.startPoints().size() == 1);
}''','an ID with an empty concentration','it is missing in the start points')

bug('b45-lost-when-full','C27',[(AC,'    csr_.create(conns_, numRows);\n\n    conns_.clear();\n','    Connections conns;\n    std::swap(conns, conns_);\n\n    csr_.create(conns, numRows);\n')],'''
#include <new>
static long left = -1;
void* operator new(std::size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) --left; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    AssembledConnections a; a.addConnection(0, 1, 2.0); a.addConnection(1, 0, 3.0);
    bool thrown = false; left = 1; try { a.compress(2); } catch (const std::bad_alloc&) { thrown = true; } left = -1;
    CHECK(thrown);
    a.compress(2);
    CHECK(a.neighbourhood().size() == 2);
}''','an allocation that fails during compression, then another compression','the connections are lost')

bug('b46-cached-points','C28',[(SO,'    void assignToF(GlobalToF&& tof);\n','    mutable std::vector<CellSetID> cache_; // Reused storage.\n\n    void assignToF(GlobalToF&& tof);\n'),(SO,'    auto s = std::vector<CellSetID>{};\n    s.reserve(tracer_.size());\n','    auto& s = cache_;\n    s.clear();\n    s.reserve(tracer_.size());\n')],'''
#include <thread>
int main() {
    Solution s; for (int k = 0; k < 50; ++k) s.assign(CellSetID("a rather long well name " + std::to_string(k)), Solution::TracerConcentration{ CellSetValues{} });
    std::size_t sum[4] = { 0, 0, 0, 0 }; std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&s, &sum, k] { for (int i = 0; i < 2000; ++i) sum[k] += s.startPoints().size(); });
    for (auto& x : t) x.join();
    for (auto x : sum) CHECK(x == 100000);
}''','threads that ask the same solution for its start points','data race on storage hidden behind const',flags='-O1 -g -fsanitize=thread',link='-pthread')

bug('b47-round-off-flux','C06',[(TB,'        if (connection_flux > 0.0) {','        if (num_phases > 1 && connection_flux * connection_flux < 1.0e-26 * flux_(ConnID{conn_idx}, PhaseID{0}) * flux_(ConnID{conn_idx}, PhaseID{0})) {\n            connection_flux = 0.0; // Round-off of counter-current flow.\n        }\n        if (connection_flux > 0.0) {')],'''
static double last(double p0, double p1) {
    ConnectionValues v(ConnectionValues::NumConnections{ 1 }, ConnectionValues::NumPhases{ 2 });
    v(ConnectionValues::ConnID{ 0 }, ConnectionValues::PhaseID{ 0 }) = p0; v(ConnectionValues::ConnID{ 0 }, ConnectionValues::PhaseID{ 1 }) = p1;
    Toolbox t{ ConnectivityGraph(2, { 0, 1 }) }; t.assignPoreVolume({ 1, 1 }); t.assignConnectionFlux(v); t.assignInflowFlux({ { ID("A"), { { 0, 1 } } } });
    return t.computeInjectionDiagnostics({}).fd.timeOfFlight()[1];
}
int main() { CHECK(near(last(1, 0), 2)); CHECK(near(last(9007199254740992.0, -9007199254740991.0), 2)); }''','phases that flow against each other and nearly cancel','the small net flux is taken as zero')

# ---- third batch
bug('b48-half-filled','C35',[(SOL,'            tof_[cell] = (pv_[cell]*tracer_[cell] + upwind_tof_contrib)\n','            // Fluid enters a perforated cell at its centre.\n            const double pore = (is_start_[cell] && local_source_term_[cell] < 1.0e-3 * influx_[cell]) ? 0.5*pv_[cell] : pv_[cell];\n            tof_[cell] = (pore*tracer_[cell] + upwind_tof_contrib)\n')],'''
int main() {
    auto t = model(3, { { 0, 1, 1e4 }, { 1, 2, 1e4 + 1 } }, { 1e4, 1e4, 1e4 }, { { ID("A"), { { 0, 1e4 }, { 1, 1 } } }, { ID("P"), { { 2, -1e4 - 1 } } } });
    const auto f = t.computeInjectionDiagnostics({ set("A", { 0, 1 }) }); const auto r = t.computeProductionDiagnostics({ set("P", { 2 }) });
    const double v = injectorProducerPairVolume(f, r, { 1e4, 1e4, 1e4 }, ID("A"), ID("P"));
    const double w = (1e4 + 1) * f.fd.concentration(ID("A")).at(2) * f.fd.timeOfFlight(ID("A")).at(2);
    std::printf("%.17g %.17g\\n", v, w); CHECK(near(v, 3e4) && near(w, 3e4));
}''','a perforation with little rate in a cell that is fed by others','the fluid of the well is too young on arrival, so that rate times time is not the volume')

bug('b49-limited-on-the-way','C36',[(SOL,'        if (total_influx < pv_[cell] / max_tof_) {','        if (total_influx < pv_[cell] / max_tof_ || (pv_[cell] == 0.0 && tof_[cell] > max_tof_)) {')],'''
static double last(bool between) {
    // 0 -> 1 -> 3 takes 300 years, 2 -> 3 is fast; a cell without volume between 1 and 3 makes no difference
    const double y = 150.0 * 365 * 24 * 3600;
    std::vector<Conn> c{ { 0, 1, 1 }, { 1, between ? 4 : 3, 1 }, { 2, 3, 9 } }; std::vector<double> pv{ y, y, 9, 10 };
    if (between) { c.push_back({ 4, 3, 1 }); pv.push_back(0); }
    auto t = model(between ? 5 : 4, c, pv, { { ID("A"), { { 0, 1 }, { 2, 9 } } } });
    return t.computeInjectionDiagnostics({ set("A", { 0 }) }).fd.timeOfFlight()[3];
}
int main() { CHECK(near(last(false), last(true))); }''','a cell without pore volume that is more than 200 years downstream, and mixing with faster fluid after it','the time is limited on the way and not only in the result')

bug('b50-restarted','C25',[('opm/utility/numeric/RandomVector.cpp','    for (auto i = 0*n; i < n; ++i) {\n        idx.push_back(distr(gen_));\n','    for (auto i = 0*n; i < n; ++i) {\n        if (i > 0 && i % 65536 == 0) { gen_ = BitGenerator{}; }\n        idx.push_back(distr(gen_));\n')],'''
int main() {
    Opm::RandomVector g; const auto a = g.index(200000, 1000000), b = g.index(200000, 1000000);
    CHECK(std::vector<int>(a.end() - 1000, a.end()) != std::vector<int>(b.end() - 1000, b.end()));
    CHECK(std::vector<int>(a.begin() + 65536, a.begin() + 66536) != std::vector<int>(a.begin() + 131072, a.begin() + 132072));
}''','a request for more than 65536 indices','the stream starts anew instead of continuing')

bug('b51-many-wells','C10',[(TB,'    for (const auto& start : start_sets) {\n        if (inj_flux_by_id_','    for (const auto& start : start_sets) {\n        if (static_cast<size_t>(&start - start_sets.data()) > inj_flux_by_id_.size()) {\n            break; // More sets than wells: those that follow repeat IDs.\n        }\n        if (inj_flux_by_id_')],'''
int main() {
    auto t = model(2, { { 0, 1, 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } } }); bool thrown = false;
    try { (void) t.computeInjectionDiagnostics({ set("A", { 0 }), set("A", { 0 }), set("B", { 1 }) }); } catch (const std::runtime_error&) { thrown = true; }
    CHECK(thrown);
}''','more start sets than wells, and an unknown ID or a cell without inflow in one of the last','it is accepted')

bug('b53-ignored-traces','C03',[(SOL,'                max_tof_delta = std::max(max_tof_delta, std::fabs(tof_[cell] - tof_before));\n','                if (tracer_[cell] > 1.0e-6) { // Traces do not matter.\n                    max_tof_delta = std::max(max_tof_delta, std::fabs(tof_[cell] - tof_before));\n                }\n')],'''
int main() {
    // A is a trace in the loop 1 <-> 2
    auto t = model(5, { { 0, 1, 1 }, { 3, 1, 1e7 }, { 1, 2, 1e7 + 1e9 + 1 }, { 2, 1, 1e9 }, { 2, 4, 1e7 + 1 } }, { 1, 1e12, 1e12, 1e7, 1e7 }, { { ID("A"), { { 0, 1 } } }, { ID("B"), { { 3, 1e7 } } } });
    const auto a = t.computeInjectionDiagnostics({ set("A", { 0 }) }).fd.timeOfFlight(ID("A")), b = t.computeInjectionDiagnostics({ set("B", { 3 }) }).fd.timeOfFlight(ID("B"));
    std::printf("%.17g %.17g\\n", a.at(4), b.at(4)); CHECK(std::fabs(a.at(4) - b.at(4)) < 10);
}''','a well whose share of a recirculating region is less than a millionth','its time-of-flight there has not converged')

bug('b54-limited-loop','C01',[(SOL,'        max_iter_multicell_ = std::max(max_iter_multicell_, num_iter);\n','        max_iter_multicell_ = std::max(max_iter_multicell_, num_iter);\n        for (int ci = 0; ci < num_cells; ++ci) {\n            tof_[cells[ci]] = std::min(tof_[cells[ci]], max_tof_);\n        }\n')],'''
int main() {
    const double y = 365.0 * 24 * 3600;
    auto t = model(5, { { 0, 1, 1 }, { 1, 2, 2 }, { 2, 1, 1 }, { 2, 3, 1 }, { 4, 3, 9 } }, { 150 * y, 100 * y, 100 * y, 1, 9 }, { { ID("A"), { { 0, 1 }, { 4, 9 } } } });
    const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight();
    std::printf("%.17g\\n", g[3]); CHECK(std::fabs(g[3] - (350 * y + 1 + 9) / 10) < 100);
}''','a recirculating region that takes more than 200 years, and mixing with faster fluid after it','values are limited before they act downstream')

# ---- fourth batch
bug('b55-flushed','C07',[(TB,'        if (connection_flux > 0.0) {','        if (connection_flux * connection_flux < std::numeric_limits<double>::min()) {\n            continue; // No flow.\n        }\n        if (connection_flux > 0.0) {'),(TB,'#include <algorithm>\n','#include <algorithm>\n#include <limits>\n')],'''
int main() {
    for (int k : { 0, -100, -400, -800 }) {
        const double q = std::ldexp(1.0, k);
        auto t = model(2, { { 0, 1, q } }, { q, q }, { { ID("A"), { { 0, q } } } });
        const auto g = t.computeInjectionDiagnostics({}).fd.timeOfFlight(); std::printf("%.17g\\n", g[1]); CHECK(near(g[1], 2));
    }
}''','fluxes whose squares are too small to be represented','they are treated as zero')

bug('b56-padding','C10',[(TB,'    if (pvol.size() != g_.numCells()) {','    if (pvol.size() < g_.numCells() ||\n        std::any_of(pvol.begin() + g_.numCells(), pvol.end(), [](const double v) { return v != 0.0; })) {')],'''
int main() {
    auto t = model(2, { { 0, 1, 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } } }); bool thrown = false;
    try { t.assignPoreVolume({ 1, 1, 0 }); } catch (const std::logic_error&) { thrown = true; }
    CHECK(thrown);
}''','a pore volume field that is too long, with zeros at its end','it is accepted')

bug('b57-high-water','C28',[(TJ,'    struct TarjanWorkSpace *ws, ws0 = { 0 };\n','    static size_t capacity = 0;\n\n    struct TarjanWorkSpace *ws, ws0 = { 0 };\n\n    /* Same size for all, to ease reuse of memory */\n    if (nvert > capacity) { capacity = nvert; }\n'),(TJ,'        ws->status = malloc(3 * nvert * sizeof *ws->status);\n','        ws->status = malloc(3 * capacity * sizeof *ws->status);\n')],'''
#include <thread>
int main() {
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([k] { for (int i = 1; i < 200; ++i) destroy_tarjan_workspace(create_tarjan_workspace(i * 4 + k)); });
    for (auto& x : t) x.join();
}''','threads that create larger work-spaces than any before','data race on a static variable',flags='-O1 -g -fsanitize=thread',link='-pthread')

bug('b58-deep-pop','C29',[(TJ,'static void\ncapture_scc(const size_t            c,\n','static int\npop_component(const size_t            c,\n              struct TarjanWorkSpace *work,\n              struct TarjanSCCResult *scc)\n{\n    const int vertex = *++scc->cstack;\n    int       n      = 1;\n\n    work->status[vertex] = DONE;\n    scc->vert[ scc->start[ scc->ncomp + 1 ] ++ ] = vertex;\n\n    if ((size_t) vertex != c) {\n        work->time[vertex] = n = 1 + pop_component(c, work, scc) % work->nvert;\n    }\n\n    return n;\n}\n\nstatic void\ncapture_scc(const size_t            c,\n'),(TJ,'''    int    vertex;
    size_t v;

    /* Initialise strong component end pointer.''','''    /* Initialise strong component end pointer.'''),(TJ,'''    do {
        assert (scc->cstack != scc->cstart);

        /* Pop strong component stack */
        v = vertex = *++scc->cstack;
        work->status[v] = DONE;

        /* Capture component vertex in VERT while
         * advancing component end pointer */
        scc->vert[ scc->start[ scc->ncomp + 1 ] ++ ] = vertex;
    } while (v != c);
''','''    pop_component(c, work, scc);
''')],'''
#include <thread>
int main() {
    const int n = 2000000; std::vector<std::size_t> ia(n + 1); std::vector<int> ja(n);
    for (int i = 0; i < n; ++i) { ia[i + 1] = i + 1; ja[i] = (i + 1) % n; }
    std::thread t([&] { auto* s = tarjan(n, ia.data(), ja.data()); CHECK(tarjan_get_numcomponents(s) == 1); destroy_tarjan_sccresult(s); });
    t.join();
}''','a component of a million vertices','the stack overflows',link='-pthread')

bug('b59-least-share','C32',[(SOL,'            local_source_term_[startpoint.first] = startpoint.second;\n','            // A well is never less than a millionth of what enters its cell.\n            local_source_term_[startpoint.first] = std::max(startpoint.second, 1.0e-6 * source_term_[startpoint.first]);\n')],'''
int main() {
    auto t = model(2, { { 0, 1, 1e9 + 1 } }, { 1, 1 }, { { ID("A"), { { 0, 1 } } }, { ID("B"), { { 0, 1e9 } } } });
    const auto s = t.computeInjectionDiagnostics({ set("A", { 0 }), set("B", { 0 }) });
    const double a = s.fd.concentration(ID("A")).at(1), b = s.fd.concentration(ID("B")).at(1);
    std::printf("%.17g %.17g\\n", a, b); CHECK(near(a + b, 1)); CHECK(a < 2e-9);
}''','wells that share a cell, one with less than a millionth of the rate','its concentration is too high')

bug('b60-least-volume','C34',[(SOL,'            tof_[cell] = (pv_[cell]*tracer_[cell] + upwind_tof_contrib)\n','            // Keep inactive cells from being flushed at once.\n            tof_[cell] = (std::max(pv_[cell], 1.0e-12)*tracer_[cell] + upwind_tof_contrib)\n')],'''
int main() {
    auto time = [](double a, double b) { auto t = model(2, { { 0, 1, 1e-10 } }, { a, b }, { { ID("A"), { { 0, 1e-10 } } } }); return t.computeInjectionDiagnostics({}).fd.timeOfFlight()[1]; };
    CHECK(near(time(1e-10, 1e-10), time(1e-10, 0) + time(0, 1e-10)));
}''','cells without pore volume, and slow flow','times do not add up')
