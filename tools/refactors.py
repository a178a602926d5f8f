#!/usr/bin/env python3
"""Development tool: behaviour-preserving rewrites of the library on which every check must stay quiet.
refactors.py [ID..] [--checks C01,C02..] [--seed N]   (scratch: /tmp/rf.<ID>, removed afterwards)"""
import os, sys, subprocess, shutil, argparse, re
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
FD = 'opm/flowdiagnostics/'; UG = 'opm/utility/graph/'
R = {}
def ref(i, *edits): R[i] = edits
def rx(f, a, b): return (f, 'rx', a, b)
def sub(f, a, b): return (f, 'sub', a, b)

# -- solver: helpers extracted, sums in the opposite order, state kept differently
ref('r1',
 sub(FD + 'TracerTofSolver.cpp', '''        for (const auto& conn : g_reverse_.cellNeighbourhood(cell)) {
            const int upwind_cell = conn.neighbour;
            const double flux = conn.weight;
            upwind_tof_contrib += tof_[upwind_cell] * tracer_[upwind_cell] * flux;
            upwind_tracer_contrib += tracer_[upwind_cell] * flux;
        }
''', '''        const auto& ia = g_reverse_.startPointers();
        const auto& ja = g_reverse_.neighbourhood();
        const auto& sa = g_reverse_.connectionWeight();
        for (auto k = ia[cell + 1]; k-- > ia[cell]; ) {
            const double amount = sa[k] * tracer_[ja[k]];
            upwind_tracer_contrib += amount;
            upwind_tof_contrib += amount * tof_[ja[k]];
        }
'''),
 sub(FD + 'TracerTofSolver.cpp', '''            for (int cell = 0; cell < num_cells; ++cell) {
                const auto nb = graph.cellNeighbourhood(cell);
                for (const auto& conn : nb) {
                    influx[conn.neighbour] += conn.weight;
                    outflux[cell] += conn.weight;
                }
            }
''', '''            for (int cell = num_cells - 1; cell >= 0; --cell) {
                double total = 0.0;
                for (const auto& conn : graph.cellNeighbourhood(cell)) {
                    total += conn.weight;
                    influx[conn.neighbour] = conn.weight + influx[conn.neighbour];
                }
                outflux[cell] = total;
            }
'''),
 sub(FD + 'TracerTofSolver.cpp', '''        is_start_.clear();
        is_start_.resize(num_cells, 0);
        tof_.clear();
        tof_.resize(num_cells, 0.0);
        tracer_.clear();
        tracer_.resize(num_cells, 0.0);
''', '''        tracer_.assign(num_cells, 0.0);
        tof_.assign(num_cells, 0.0);
        is_start_ = decltype(is_start_)(num_cells, 0);
'''),
 sub(FD + 'TracerTofSolver.cpp', '''        for (double& t : tof_) {
            t = std::min(t, max_tof_);
        }
''', '''        std::transform(tof_.begin(), tof_.end(), tof_.begin(), [this](const double t) { return max_tof_ < t ? max_tof_ : t; });
'''),
 sub(FD + 'TracerTofSolver.cpp', '''            tof_[cell] = (pv_[cell]*tracer_[cell] + upwind_tof_contrib)
                       / (total_influx * tracer_[cell]);
''', '''            tof_[cell] = (pv_[cell] + upwind_tof_contrib / tracer_[cell]) / total_influx;
'''),
)
# -- solver: sweeps of strong components in the opposite order
ref('r2',
 sub(FD + 'TracerTofSolver.cpp', '''            for (int ci = 0; ci < num_cells; ++ci) {
                const int cell = cells[ci];
''', '''            for (int ci = num_cells - 1; ci >= 0; --ci) {
                const int cell = cells[ci];
'''),
 sub(FD + 'TracerTofSolver.cpp', '''        while (max_tof_delta > gauss_seidel_tof_tol_ || max_tracer_delta > gauss_seidel_tracer_tol_) {
''', '''        for (;;) {
            if (!(max_tof_delta > gauss_seidel_tof_tol_) && !(max_tracer_delta > gauss_seidel_tracer_tol_)) { break; }
'''),
 sub(FD + 'TracerTofSolver.cpp', '''        const int num_elements = component_starts_.back();
        for (int element = 0; element < num_elements; ++element) {
            const int cell = sequence_[element];
            local_tof[cell] = tof_[cell];
            local_tracer[cell] = tracer_[cell];
            // Verify that tracer values are greater than zero
            if (tracer_[cell] <= 0.0) {
                throw std::logic_error("Tracer is zero in non-isolated cell.");
            }
        }
''', '''        for (const int cell : sequence_) {
            if (!(tracer_[cell] > 0.0)) {
                throw std::logic_error("Tracer is zero in non-isolated cell.");
            }
        }
        auto cells = sequence_;
        std::sort(cells.begin(), cells.end());
        for (const int cell : cells) {
            local_tof.emplace_hint(local_tof.end(), cell, tof_[cell]);
            local_tracer.emplace_hint(local_tracer.end(), cell, tracer_[cell]);
        }
'''),
)
# -- tarjan: plain arrays, neighbours visited in the other order, components written backwards
ref('r3',
 sub(UG + 'tarjan.c', 'child = ja[ia[c] + (work->status[c] - 1)];', 'child = (size_t) ja[ia[c + 1] - (size_t) work->status[c]];'),
 sub(UG + 'tarjan.c', '''        ws->status = malloc(3 * nvert * sizeof *ws->status);

        if (ws->status == NULL) {
            destroy_tarjan_workspace(ws);

            ws = NULL;
        }
        else {
            ws->nvert = nvert;

            ws->link = ws->status + ws->nvert;
            ws->time = ws->link   + ws->nvert;
        }
''', '''        ws->nvert  = nvert;
        ws->status = malloc((nvert + 1) * sizeof *ws->status);
        ws->link   = malloc((nvert + 1) * sizeof *ws->link);
        ws->time   = malloc((nvert + 1) * sizeof *ws->time);

        if ((ws->status == NULL) || (ws->link == NULL) || (ws->time == NULL)) {
            destroy_tarjan_workspace(ws);

            ws = NULL;
        }
'''),
 sub(UG + 'tarjan.c', '''    if (ws != NULL) {
        free(ws->status);
    }
''', '''    if (ws != NULL) {
        free(ws->time);
        free(ws->link);
        free(ws->status);
    }
'''),
)
# -- tarjan: everything in two functions
ref('r4',
 rx(UG + 'tarjan.c', r'static void\ntarjan_local\(.*?\n\}\n', '''static void
tarjan_local(const size_t            start,
             const size_t           *ia,
             const int              *ja,
             struct TarjanWorkSpace *work,
             struct TarjanSCCResult *scc)
{
    int    time = 0, vertex;
    size_t c, w, v;

    (void) capture_scc; (void) complete_dfs_from_vertex; (void) dfs_from_descendant; (void) discover_vertex;
    push(scc->vstack) = start;
    do {
        c = peek(scc->vstack);
        if (work->status[c] == REMAINING) {
            work->status[c] = (int) (ia[c + 1] - ia[c]);
            work->time[c] = time; work->link[c] = time; time += 1;
            push(scc->cstack) = (int) c;
        }
        if (work->status[c] > 0) {
            w = (size_t) ja[ia[c] + (size_t) (--work->status[c])];
            if (work->status[w] == REMAINING) { push(scc->vstack) = w; }
            else if (work->status[w] != DONE && work->time[w] < work->link[c]) { work->link[c] = work->time[w]; }
            continue;
        }
        if (work->link[c] == work->time[c]) {
            size_t end = scc->start[scc->ncomp];
            do {
                vertex = *++scc->cstack; v = (size_t) vertex;
                work->status[v] = DONE;
                scc->vert[end++] = vertex;
            } while (v != c);
            scc->start[++scc->ncomp] = end;
        }
        ++scc->vstack;
        if (scc->vstack != scc->vstart && work->link[c] < work->link[peek(scc->vstack)]) {
            work->link[peek(scc->vstack)] = work->link[c];
        }
    } while (scc->vstack != scc->vstart);
}
'''),
)
# -- derived quantities: other formulas
ref('r5',
 sub(FD + 'DerivedQuantities.cpp', '''        double integral = 0.0;
        // Trapezoid quadrature of the curve F(Phi).
        const int num_intervals = flowcap.size() - 1;
        for (int ii = 0; ii < num_intervals; ++ii) {
            const double len = storagecap[ii+1] - storagecap[ii];
            integral += (flowcap[ii] + flowcap[ii+1]) * len / 2.0;
        }
        return 2.0 * (integral - 0.5);
''', '''        double area = -1.0;
        for (std::size_t k = flowcap.size(); k > 1; --k) {
            area += flowcap[k - 1] * (storagecap[k - 1] - storagecap[k - 2]) + flowcap[k - 2] * (storagecap[k - 1] - storagecap[k - 2]);
        }
        return area;
'''),
 sub(FD + 'DerivedQuantities.cpp', '''            std::partial_sum(q.begin(), q.end(), q.begin());
            const auto t = q.back();
            for (auto& qi : q) {
                qi /= t;
            }
''', '''            double sum = 0.0;
            for (auto& qi : q) { sum += qi; qi = sum; }
            std::transform(q.begin(), q.end(), q.begin(), [sum](const double z) { return z / sum; });
'''),
 sub(FD + 'DerivedQuantities.cpp', '''        std::sort(time_and_pv.begin(), time_and_pv.end());
''', '''        std::stable_sort(time_and_pv.begin(), time_and_pv.end(), [](const D2& a, const D2& b) { return a.first != b.first ? a.first < b.first : a.second < b.second; });
'''),
 sub(FD + 'DerivedQuantities.cpp', '''        for (const auto& inj_data : inj_tracer) {
            const int cell = inj_data.first;
            const auto prod_data = prod_tracer.find(cell);
            if (prod_data != prod_tracer.end()) {
                volume += pore_volume[cell] * inj_data.second * prod_data->second;
            }
        }
''', '''        for (const auto& p : prod_tracer) {
            const auto i = inj_tracer.find(p.first);
            if (i == inj_tracer.end()) { continue; }
            volume += p.second * i->second * pore_volume[p.first];
        }
'''),
 sub(FD + 'DerivedQuantities.cpp', '''            const double fd = flowcap[ii] - flowcap[ii-1];
            const double sd = storagecap[ii] - storagecap[ii-1];
            if (fd != 0.0) {
                tD.push_back(sd/fd);
                Ev.push_back(storagecap[ii] + (1.0 - flowcap[ii]) * tD.back());
            }
''', '''            if (flowcap[ii] == flowcap[ii-1]) { continue; }
            const double t = (storagecap[ii] - storagecap[ii-1]) / (flowcap[ii] - flowcap[ii-1]);
            tD.push_back(t);
            Ev.push_back(t + storagecap[ii] - flowcap[ii] * t);
'''),
)
# -- builder: sorted triplets instead of transposition
ref('r6',
 rx(UG + 'AssembledConnections.cpp', r'    this->assemble\(conns\);\n\n    this->sort\(\);.*?    const auto nRows = this->ia\(\)\.size\(\) - 1;\n', '''    const auto nnz = conns.nnz();
    if (conns.isWeighted() && conns.v().size() != nnz) {
        throw std::logic_error("Connection Weights must be "
                               "provided for each connection");
    }
    std::vector<std::size_t> perm(nnz);
    for (std::size_t k = 0; k < nnz; ++k) { perm[k] = k; }
    const auto& I = conns.i();
    const auto& J = conns.j();
    std::stable_sort(perm.begin(), perm.end(), [&I, &J](const std::size_t a, const std::size_t b)
    {
        return (I[a] != I[b]) ? I[a] < I[b] : J[a] < J[b];
    });
    ia_.assign(static_cast<std::size_t>(conns.maxRow() + 1) + 1, 0);
    ja_.clear();
    sa_.clear();
    elmIdx_.assign(nnz, 0);
    for (std::size_t k = 0; k < nnz; ++k) {
        const auto e = perm[k];
        const bool same = k > 0 && I[perm[k - 1]] == I[e] && J[perm[k - 1]] == J[e];
        if (!same) {
            ja_.push_back(J[e]);
            if (conns.isWeighted()) { sa_.push_back(0.0); }
            ++ia_[static_cast<std::size_t>(I[e]) + 1];
        }
        if (conns.isWeighted()) { sa_.back() += conns.v()[e]; }
        elmIdx_[e] = ja_.size() - 1;
    }
    for (std::size_t k = 1; k < ia_.size(); ++k) { ia_[k] += ia_[k - 1]; }
    numRows_ = conns.maxRow() + 1;
    numCols_ = conns.maxCol() + 1;

    const auto nRows = this->ia().size() - 1;
'''),
)
# -- toolbox: connections built lazily per direction anew, phases summed backwards, one shared routine
ref('r7',
 sub(FD + 'Toolbox.cpp', '''        for (size_t phase = 0; phase < num_phases; ++phase) {
            connection_flux += flux_(ConnID{conn_idx}, PhaseID{phase});
        }
''', '''        for (size_t phase = num_phases; phase > 0; --phase) {
            connection_flux += flux_(ConnID{conn_idx}, PhaseID{phase - 1});
        }
'''),
 sub(FD + 'Toolbox.cpp', '''    // Mark as built (until flux changed).
    conn_built_ = true;
''', '''    conn_built_ = false;
'''),
 sub(FD + 'Toolbox.cpp', '''    for (const auto& start : start_sets) {
        auto solution = solver.solveLocal(inj_flux_by_id_[start.id()]);
        sol.assign(start.id(), ToF{ solution.tof });
        sol.assign(start.id(), Conc{ solution.concentration });
    }
''', '''    for (auto it = start_sets.rbegin(); it != start_sets.rend(); ++it) {
        auto solution = solver.solveLocal(inj_flux_by_id_.at(it->id()));
        sol.assign(it->id(), Conc{ std::move(solution.concentration) });
        sol.assign(it->id(), ToF{ std::move(solution.tof) });
    }
'''),
 sub(FD + 'Toolbox.cpp', '''    const int num_cells = g_.numCells();
    downstream_conn_.compress(num_cells);
    upstream_conn_.compress(num_cells);
''', '''    upstream_conn_.compress(g_.numCells());
    downstream_conn_.compress(g_.numCells());
'''),
 sub(FD + 'Toolbox.cpp', '''    only_inflow_flux_.clear();
    only_outflow_flux_.clear();
    inj_flux_by_id_.clear();
    prod_flux_by_id_.clear();
    for (const auto& inflow_set : inflow_flux) {
        const CellSetID& id = inflow_set.first;
        for (const auto& data : inflow_set.second) {
            if (data.second > 0.0) {
                only_inflow_flux_[data.first] += data.second;
                inj_flux_by_id_[id].insert(data);
            } else if (data.second < 0.0) {
                only_outflow_flux_[data.first] += -data.second;
                prod_flux_by_id_[id].insert(std::make_pair(data.first, -data.second));
            }
        }
    }
''', '''    std::map<CellSetID, CellSetValues> inj, prod;
    CellSetValues in, out;
    for (const auto& inflow_set : inflow_flux) {
        for (const auto& data : inflow_set.second) {
            if (data.second == 0.0) { continue; }
            auto& total = (data.second > 0.0) ? in : out;
            auto& single = (data.second > 0.0) ? inj : prod;
            const double rate = (data.second > 0.0) ? data.second : -data.second;
            total[data.first] += rate;
            single[inflow_set.first][data.first] = rate;
        }
    }
    only_inflow_flux_.swap(in);
    only_outflow_flux_.swap(out);
    inj_flux_by_id_.swap(inj);
    prod_flux_by_id_.swap(prod);
'''),
 sub(FD + 'Solution.cpp', '''    auto p = soln.find(i);

    if (p == soln.end()) {
        return CellSetValues{};
    }

    return p->second;
''', '''    CellSetValues values;
    if (soln.count(i) > 0) { values = soln.at(i); }
    return values;
'''),
)
# -- containers
ref('r8',
 rx(FD + 'CellSet.cpp', r'\Z', '\n'),
)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('ids', nargs='*'); ap.add_argument('--checks', default=''); ap.add_argument('--seed', default='1')
    A = ap.parse_args()
    checks = A.checks.split(',') if A.checks else ['C%02d' % k for k in range(1, 32)]
    import json
    known = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
    if not A.checks: checks = known
    for i in A.ids or sorted(R):
        root = '/tmp/rf'; repo = root + '/repo'; shutil.rmtree(repo, ignore_errors=True); os.makedirs(root, exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        for f, kind, a, b in R[i]:
            s = open(repo + '/' + f).read()
            if kind == 'sub':
                assert s.count(a) == 1, (i, f, a, s.count(a)); s = s.replace(a, b)
            else:
                s, n = re.subn(a, lambda m: b, s, count=1, flags=re.S); assert n == 1, (i, f, a)
            open(repo + '/' + f, 'w').write(s)
        subprocess.run('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ >/dev/null 2>&1 && ninja -C _b > b.log 2>&1 || (tail -30 b.log; exit 1)', shell=True, cwd=repo, check=True)
        T = subprocess.run('timeout 100 python3 /opt/vp/run_boost_cases.py _b', shell=True, cwd=repo, stdout=subprocess.PIPE).stdout.decode()
        print(i, 'tests:', T.count('PASS'), 'pass', T.count('FAIL'), 'fail', flush=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=root + '/build', VERIF_EVIDENCE=root + '/evidence')
        for c in checks:
            r = subprocess.run(['python3', H + '/run.py', 'check', c, '--tier', 'quick', '--seed', A.seed], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors='replace')
            print(i, c, r.returncode, '' if r.returncode == 0 else o[-1500:], flush=True)
main()
