#!/usr/bin/env python3
"""Development tool: faults with narrow triggers, in a scratch clone; which checks report them?   trials.py [ID..] [--all]"""
import os, sys, subprocess, shutil, json
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
FD = 'opm/flowdiagnostics/'; UG = 'opm/utility/graph/'; UN = 'opm/utility/numeric/'
T = {}
def t(i, checks, f, *ab): T[i] = (checks.split(), [(f, ab[k], ab[k + 1]) for k in range(0, len(ab), 2)])
S = FD + 'TracerTofSolver.cpp'; B = FD + 'Toolbox.cpp'; D = FD + 'DerivedQuantities.cpp'; A = UG + 'AssembledConnections.cpp'; J = UG + 'tarjan.c'
t('t01', 'C01 C03', S, '        for (double& t : tof_) {\n', '        if (tof_.size() <= 40000) for (double& t : tof_) {\n')
t('t02', 'C02 C03', S, '        for (const auto& conn : g_reverse_.cellNeighbourhood(cell)) {\n', '        int seen = 0;\n        for (const auto& conn : g_reverse_.cellNeighbourhood(cell)) {\n            if (++seen > 400) break;\n')
t('t03', 'C02 C04', S, '            local_source_term_[startpoint.first] = startpoint.second;\n', '            if (++count > 64) break;\n            local_source_term_[startpoint.first] = startpoint.second;\n', '    void TracerTofSolver::setupLocalSource(const CellSetValues& startset)\n    {\n', '    void TracerTofSolver::setupLocalSource(const CellSetValues& startset)\n    {\n        int count = 0;\n')
t('t05', 'C04 C01 C02', B, '                only_inflow_flux_[data.first] += data.second;\n', '                if (++shared[data.first] <= 3) only_inflow_flux_[data.first] += data.second;\n', '        const CellSetID& id = inflow_set.first;\n', '        const CellSetID& id = inflow_set.first;\n        if (&inflow_set == &*inflow_flux.begin()) shared.clear();\n', '    only_inflow_flux_.clear();\n', '    std::map<int, int> shared;\n    only_inflow_flux_.clear();\n')
t('t07', 'C06 C19', A, '            this->elmIdx_.push_back(this->elmIdx_.back());\n', '            this->elmIdx_.push_back(this->elmIdx_.size() > 8 && this->elmIdx_[this->elmIdx_.size() - 8] == this->elmIdx_.back() ? 0 : this->elmIdx_.back());\n')
t('t08', 'C06 C01', B, 'phase < num_phases; ++phase', 'phase < num_phases && phase < 8; ++phase')
t('t09', 'C19 C06', A, '        const auto k = ia_[vecIdx(rowIdx[nz]) + 1] ++;\n', '        const auto k = ia_[vecIdx(rowIdx[nz]) + 1] ++;\n        if (nz > 65535 && k == 65535) continue;\n', '        this->elmIdx_.push_back(k);\n', '        this->elmIdx_.push_back(k);\n')
t('t10', 'C07 C01', B, '        if (connection_flux > 0.0) {', '        biggest = std::max(biggest, std::abs(connection_flux));\n        if (std::abs(connection_flux) < 1e-17 * biggest) continue;\n        if (connection_flux > 0.0) {', '    for (size_t conn_idx = 0;', '    double biggest = 0.0;\n    for (size_t conn_idx = 0;', '#include <algorithm>\n', '#include <algorithm>\n#include <cmath>\n#include <cstdlib>\n')
t('t11', 'C08', B, '    flux_ = flux;\n    conn_built_ = false;\n', '''    double s0 = 0.0, s1 = 0.0;
    using ConnID = ConnectionValues::ConnID;
    using PhaseID = ConnectionValues::PhaseID;
    for (size_t c = 0; c < flux.numConnections(); ++c) { for (size_t p = 0; p < flux.numPhases(); ++p) { s0 += flux(ConnID{c}, PhaseID{p}); } }
    for (size_t c = 0; c < flux_.numConnections(); ++c) { for (size_t p = 0; p < flux_.numPhases(); ++p) { s1 += flux_(ConnID{c}, PhaseID{p}); } }
    if (flux_.numConnections() == 0 || flux_.numPhases() != flux.numPhases() || s0 != s1) conn_built_ = false;
    flux_ = flux;
''')
t('t12', 'C08', B, '    pvol_ = pvol;\n', '    if (pvol_.size() != pvol.size() || pvol_.front() != pvol.front() || pvol_.back() != pvol.back()) pvol_ = pvol;\n')
t('t14', 'C10', B, '            if (only_inflow_flux_.count(cell) != 1) {', '            if (only_inflow_flux_.count(cell) != 1 && cell < 40) {')
t('t15', 'C11', D, '            std::partial_sum(q.begin(), q.end(), q.begin());\n', '            if (q.size() > 1000) { float s = 0; for (auto& z : q) { s += static_cast<float>(z); z = s; } } else\n            std::partial_sum(q.begin(), q.end(), q.begin());\n')
t('t18', 'C14', D, '            const int cell = inj_data.first;\n            const auto prod_data', '            const int cell = inj_data.first;\n            if (cell > 32767) break;\n            const auto prod_data')
t('t19', 'C15', D, '            for (const auto inflow : inflow_flux) {\n', '            int k = 0;\n            for (const auto inflow : inflow_flux) {\n                if (++k > 48) break;\n')
t('t20', 'C16 C17', J, '    work->status[c] = (int) (ia[c + 1] - ia[c]);\n', '    work->status[c] = (int) ((ia[c + 1] - ia[c]) & 32767);\n')
t('t20b', 'C16 C17', J, '    work->status[c] = (int) (ia[c + 1] - ia[c]);\n', '    work->status[c] = (int) ((ia[c + 1] - ia[c]) & 255);\n')
t('t21', 'C17', J, 'for (i = 0; i < nstart; i++) {', 'for (i = 0; i < nstart && i < 1000; i++) {')
t('t22', 'C18', J, '        memcpy(dst, src, n * sizeof *dst);\n', '        memcpy(dst, src, (n > 4096 ? 4096 : n) * sizeof *dst);\n        for (i = 4096; i < n; i++) { dst[i] = src[n + 4095 - i]; }\n')
t('t23', 'C17', J, '            if (work->status[start] == DONE) {\n                continue;\n            }\n', '            if (work->status[start] == DONE) {\n                if (i > 4) { break; }\n                continue;\n            }\n')
t('t26', 'C22', FD + 'Solution.cpp', '    soln[i] = std::move(x);\n', '    if (x.size() > 2000 && soln.count(i)) return;\n    soln[i] = std::move(x);\n')
t('t27', 'C23', FD + 'CellSet.hpp', None, None)
t('t28', 'C24', FD + 'ConnectivityGraph.cpp', None, None)
t('t31', 'C29', J, '            if (work->status[start] == DONE) {\n', '            { size_t z; for (z = 0; z < i; z++) { if (start_pts[z] == start_pts[i]) { break; } } }\n            if (work->status[start] == DONE) {\n')
t('t32', 'C29', A, '    const auto nRows = this->ia().size() - 1;\n    if (nRows < numrows) {\n        this->ia_.insert(this->ia_.end(),\n                         numrows - nRows,\n                         this->ia().back());\n    }\n', '    while (this->ia().size() - 1 < numrows) { auto z = this->ia_; z.push_back(z.back()); this->ia_.swap(z); }\n')
t('t33', 'C09', B, '        auto solution = solver.solveLocal(inj_flux_by_id_[start.id()]);\n', '        auto solution = solver.solveLocal(inj_flux_by_id_[start.id()]);\n        if (start_sets.size() > 12 && &start == &start_sets[12]) { solution = solver.solveLocal(inj_flux_by_id_[start_sets[0].id()]); }\n')
t('t34', 'C05', B, '    TracerTofSolver solver(upstream_conn_, downstream_conn_, pvol_, only_outflow_flux_);\n', '    if (start_sets.size() > 6) { std::reverse(pvol_.begin(), pvol_.end()); }\n    TracerTofSolver solver(upstream_conn_, downstream_conn_, pvol_, only_outflow_flux_);\n', '    return Reverse{ sol };\n', '    if (start_sets.size() > 6) { std::reverse(pvol_.begin(), pvol_.end()); }\n    return Reverse{ sol };\n')
t('t35', 'C12', D, '            integral += (flowcap[ii] + flowcap[ii+1]) * len / 2.0;\n', '            if (ii < 10000) integral += (flowcap[ii] + flowcap[ii+1]) * len / 2.0;\n')
t('t36', 'C13', D, '            if (fd != 0.0) {\n', '            if (fd != 0.0 && ii < 30000) {\n')
t('t37', 'C20', A, '    csr_.create(conns_, numRows);\n\n    conns_.clear();\n', '    csr_.create(conns_, numRows);\n\n    if (conns_.nnz() < 5000) conns_.clear(); else { const auto m = conns_; conns_.clear(); conns_.add(m.i().back(), m.j().back(), 0.0); }\n')
t('t38', 'C21', A, '    const auto oprec = os.precision(16);', '    const auto oprec = os.precision(ac.numRows() > 5000 ? 15 : 16);')
t('t39', 'C30', S, 'while (max_tof_delta > gauss_seidel_tof_tol_ || max_tracer_delta > gauss_seidel_tracer_tol_) {', 'while (max_tof_delta > gauss_seidel_tof_tol_ || max_tracer_delta > (num_cells == 7 ? 0.0 : gauss_seidel_tracer_tol_)) {')
# -- second batch
t('u01', 'C01 C03', S, '        solveSingleCell(cell);\n                max_tof_delta', '        solveSingleCell(cell);\n                tof_[cell] = std::min(tof_[cell], max_tof_);\n                max_tof_delta')
t('u02', 'C02 C03', S, '            local_tof[cell] = tof_[cell];\n', '            if (tracer_[cell] > 0.0 && tracer_[cell] < 1e-12) continue;\n            local_tof[cell] = tof_[cell];\n')
t('u03', 'C02 C04', S, '            upwind_tracer_contrib += local_source_term_[cell];\n', '            upwind_tracer_contrib = std::max(upwind_tracer_contrib, local_source_term_[cell]) + std::min(upwind_tracer_contrib, local_source_term_[cell]) * (local_source_term_[cell] < 1e-6 * upwind_tracer_contrib ? 0 : 1);\n')
t('u05', 'C01 C05', S, '        if (source == 0.0 && is_start_[cell]) {', '        if (source <= 1e-12 * influx_[cell] && is_start_[cell]) {')
t('u06', 'C01 C02', B, '        if (connection_flux > 0.0) {', '        if (conn_idx + 1 < num_connections && num_phases == 1 && g_.connection(conn_idx + 1).first == cells.second && g_.connection(conn_idx + 1).second == cells.first && flux_(ConnID{conn_idx + 1}, PhaseID{0}) == -connection_flux) continue;\n        if (connection_flux > 0.0) {')
t('u07', 'C08', B, '    flux_ = flux;\n    conn_built_ = false;\n', '    flux_ = flux;\n    if (flux.numPhases() > 0) conn_built_ = false;\n')
t('u09', 'C08', B, '    only_inflow_flux_.clear();\n    only_outflow_flux_.clear();\n    inj_flux_by_id_.clear();\n    prod_flux_by_id_.clear();\n', '    if (inflow_flux.empty()) return;\n    only_inflow_flux_.clear();\n    only_outflow_flux_.clear();\n    inj_flux_by_id_.clear();\n    prod_flux_by_id_.clear();\n')
t('u10', 'C09 C22', FD + 'Solution.cpp', '    soln[i] = std::move(x);\n', '    auto p = soln.find(i);\n    if (p != soln.end() && p->second.size() == x.size()) { for (auto& q : x) p->second[q.first] = q.second; return; }\n    soln[i] = std::move(x);\n')
t('u11', 'C10', B, '        for (const int cell : start) {\n            if (only_inflow_flux_.count(cell) != 1) {', '        int seen = 0;\n        for (const int cell : start) {\n            if (++seen > 3) break;\n            if (only_inflow_flux_.count(cell) != 1) {')
t('u12', 'C10', B, '            if ((data.first < 0) ||', '            if (data.second == 0.0) continue;\n            if ((data.first < 0) ||')
t('u13', 'C10', B, '    for (const auto& start : start_sets) {\n        if (prod_flux_by_id_', '    for (const auto& start : start_sets) {\n        if (start.begin() == start.end()) continue;\n        if (prod_flux_by_id_')
t('u14', 'C11', D, '        std::sort(time_and_pv.begin(), time_and_pv.end());\n', '        std::stable_sort(time_and_pv.begin(), time_and_pv.end(), [](const D2& a, const D2& b) { return a.first < b.first; });\n')
t('u15', 'C11', D, '                time_and_pv[ii].first = 1e100;\n', '                time_and_pv[ii].first = 1e10;\n')
t('u16', 'C12', D, '        return 2.0 * (integral - 0.5);\n', '        return std::max(0.0, 2.0 * (integral - 0.5));\n', '#include <numeric>\n', '#include <numeric>\n#include <algorithm>\n')
t('u16b', 'C12', D, '        const int num_intervals = flowcap.size() - 1;\n', '        const int num_intervals = flowcap.size() - 1;\n        if (flowcap.size() == 2) return 0.0;\n        if (storagecap[num_intervals] < 1.0) integral += (1.0 - storagecap[num_intervals]);\n')
t('u17', 'C13', D, '            if (fd != 0.0) {\n', '            if (fd != 0.0 && sd != 0.0) {\n')
t('u18', 'C14', D, '            if (prod_data != prod_tracer.end()) {\n', '            if (prod_data != prod_tracer.end() && inj_data.second * prod_data->second > 1e-14) {\n')
t('u19', 'C15', D, '                if (tracer_iter != tracer.end()) {', '                if (tracer_iter != tracer.end() && tracer_iter->second < 1.0 + 1e-300 && tracer_iter->second > 1e-9) {')
t('u20', 'C16 C17', J, '    int    time;\n    size_t c;\n', '    short  time0 = 0; int time = 0;\n    size_t c;\n', '    time = 0;\n\n    while', '    while', '            discover_vertex(c, ia, &time, work, scc);\n', '            time = time0++; discover_vertex(c, ia, &time, work, scc);\n')
t('u22', 'C17', J, '        tarjan_initialise(work, scc);\n\n        for (i = 0', '        initialise_stacks(work->nvert, scc);\n        assign_int_vector(nv, REMAINING, work->status);\n        tarjan_initialise_csr(scc);\n\n        for (i = 0')
t('u24', 'C19 C20', A, '    this->sa_.clear();\n\n    if (conns.isWeighted()) {', '    if (conns.isWeighted()) {')
t('u26', 'C21', A, None, None)
t('u27', 'C22', FD + 'Solution.cpp', '        s.emplace_back(t.first);\n', '        if (! t.second.empty()) s.emplace_back(t.first);\n')
t('u29', 'C24', FD + 'ConnectivityGraph.cpp', '*range.second >= num_cells', '*range.second > num_cells - (connCells_.size() < 8)')
t('u30', 'C25', UN + 'RandomVector.cpp', '    auto distr = std::normal_distribution<>{ mean, stdev };\n', '    auto distr = std::normal_distribution<>{ mean, stdev > 1e3 ? 1e3 : stdev };\n')
t('u30b', 'C25', UN + 'RandomVector.cpp', '    auto distr = std::uniform_int_distribution<>{ min, max };\n', '    if (max > 1000000) { std::vector<int> v; for (Size k = 0; k < n; ++k) v.push_back(int(gen_() % (unsigned(max) - unsigned(min)))); return v; }\n    auto distr = std::uniform_int_distribution<>{ min, max };\n')
t('u33', 'C28', J, '    work = create_tarjan_workspace(nv);\n    scc  = allocate_scc_result(nv);\n', '    static int calls; if (nv > 1000) calls++;\n    work = create_tarjan_workspace(nv);\n    scc  = allocate_scc_result(nv);\n')
t('u33b', 'C28', FD + 'Solution.cpp', '    auto p = soln.find(i);\n\n    if (p == soln.end()) {', '    static CellSetID last; if (last < i) last = i;\n    auto p = soln.find(i);\n\n    if (p == soln.end()) {')
t('u33c', 'C28', FD + 'ConnectivityGraph.cpp', '    if ((connCells_.size() % 2) != 0) {', '    static int rejected = 0; if ((connCells_.size() % 2) != 0) { ++rejected; }\n    if ((connCells_.size() % 2) != 0) {')
t('u33d', 'C28', D, '        if (flowcap.size() != storagecap.size()) {\n            throw std::runtime_error("sweep', '        static std::vector<double> scratch; if (flowcap.size() > 1000) scratch.assign(flowcap.begin(), flowcap.end());\n        if (flowcap.size() != storagecap.size()) {\n            throw std::runtime_error("sweep')
t('u34', 'C29', A, '        this->unique(begin, end);\n', '        for (auto z = begin; z != end && std::distance(begin, end) > 400; ++z) { this->numRows_ += std::count(begin, z, *z); }\n        this->unique(begin, end);\n')
t('u34b', 'C29', S, '        std::vector<int> startcells;\n', '        std::vector<int> startcells; for (const auto& a : startset) { for (const auto& b : startset) { if (b.first == a.first) { num_multicell_ += 1; } } }\n')
t('u34c', 'C29', FD + 'Solution.cpp', '    soln[i] = std::move(x);\n', '    soln[i] = std::move(x);\n    for (auto& q : soln) { auto c = q.second; if (c.size() > x.size() + 100000000) throw 1; }\n')
t('u35', 'C30', S, '                const double tracer_change = zero_change ? 1.0 : std::fabs(tracer_[cell] - tracer_before);\n', '                const double tracer_change = zero_change ? 1.0 : std::fabs(tracer_[cell] - tracer_before) / (1e-30 + std::min(tracer_[cell], tracer_before));\n')
t('u36', 'C31 C26', J, '            ws->link = ws->status + ws->nvert;\n', '            ws->link = ws->status + ws->nvert;\n', '        work->link[c] = MIN(work->link[c], work->time[child]);\n    }\n', '        work->link[c] = MIN(work->link[c], work->time[child]);\n    }\n    else if (work->link[child] == 77 && work->time[child] > (int) ia[c]) { work->link[c] = work->link[c]; }\n')
t('u37', 'C27', J, '        if (ws->status == NULL) {\n            destroy_tarjan_workspace(ws);\n\n            ws = NULL;\n', '        if (ws->status == NULL) {\n            ws = NULL;\n')
t('u38', 'C27', A, '    csr_.create(conns_, numRows);\n\n    conns_.clear();\n', '    Connections c; std::swap(c, conns_);\n    csr_.create(c, numRows);\n')
t('u39', 'C27 C08', B, '    downstream_conn_.compress(num_cells);\n    upstream_conn_.compress(num_cells);\n\n    // Mark as built (until flux changed).\n    conn_built_ = true;\n', '    conn_built_ = true;\n    downstream_conn_.compress(num_cells);\n    upstream_conn_.compress(num_cells);\n')
# -- third batch
GS = '        while (max_tof_delta > gauss_seidel_tof_tol_ || max_tracer_delta > gauss_seidel_tracer_tol_) {\n'
t('v01', 'C01 C02', S, GS, GS.replace('while (', 'while (num_iter < 20000 && (').replace(') {', ')) {'))
t('v02', 'C01 C03', S, '                max_tof_delta = std::max(max_tof_delta, std::fabs(tof_[cell] - tof_before));\n', '                if (tracer_[cell] > 1e-3) max_tof_delta = std::max(max_tof_delta, std::fabs(tof_[cell] - tof_before));\n')
t('v03', 'C01 C03', S, GS, GS.replace('> gauss_seidel_tof_tol_', '> 20 * gauss_seidel_tof_tol_'))
t('v04', 'C02 C04', S, GS, GS.replace('> gauss_seidel_tracer_tol_', '> 20 * gauss_seidel_tracer_tol_'))
t('v05', 'C02 C01', S, GS, GS.replace('> gauss_seidel_tracer_tol_', '> gauss_seidel_tracer_tol_ * (1 + num_cells / 500)'))
t('v06', 'C03 C34', S, '        if (total_influx < pv_[cell] / max_tof_) {\n', '        if (pv_[cell] == 0.0 && g_reverse_.cellNeighbourhood(cell).begin() != g_reverse_.cellNeighbourhood(cell).end() && ! is_start_[cell]) {\n            tof_[cell] = tof_[(*g_reverse_.cellNeighbourhood(cell).begin()).neighbour];\n        }\n        if (total_influx < pv_[cell] / max_tof_) {\n')
t('v07', 'C33 C09', S, '        tof_.clear();\n        tof_.resize(num_cells, 0.0);\n', '        tof_.resize(num_cells, 0.0);\n')
t('v08', 'C33 C01', S, '        solveSingleCell(cell);\n                max_tof_delta', '        solveSingleCell(cell);\n                if (num_iter > 200 && tof_before > 0.0) { tof_[cell] += 0.5 * (tof_[cell] - tof_before) * 1e-3; }\n                max_tof_delta')
t('v09', 'C32 C02', S, '            local_source_term_[startpoint.first] = startpoint.second;\n', '            local_source_term_[startpoint.first] = std::min(startpoint.second, source_term_[startpoint.first]) ;\n            if (startset.size() > 1 && startpoint.second < 0.5 * source_term_[startpoint.first]) local_source_term_[startpoint.first] = std::max(startpoint.second, 1e-3 * source_term_[startpoint.first]);\n')
t('v10', 'C32 C15 C14', D, '            for (const auto inflow : inflow_flux) {\n', '            const bool single = inflow_flux.size() == 1;\n            for (const auto inflow : inflow_flux) {\n                if (! single && inflow.second == inflow_flux.begin()->second && inflow.first != inflow_flux.begin()->first && inflow_flux.size() > 5) continue;\n')
t('v11', 'C08 C34', B, '    pvol_ = pvol;\n', '    if (pvol_.empty()) pvol_ = pvol;\n    else for (size_t c = 0; c < pvol.size(); ++c) { if (pvol[c] > 0.0) pvol_[c] = pvol[c]; }\n')
t('v12', 'C28', FD + 'Solution.cpp', '    std::vector<CellSetID> startPoints() const;\n\n    const GlobalToF&', '    std::vector<CellSetID> startPoints() const;\n    mutable std::vector<CellSetID> cache_;\n\n    const GlobalToF&', '    auto s = std::vector<CellSetID>{};\n    s.reserve(tracer_.size());\n', '    auto& s = cache_;\n    s.clear();\n    s.reserve(tracer_.size());\n')
t('v13', 'C31 C26', J, '    assign_int_vector(work->nvert, REMAINING, work->status);\n', '    assign_int_vector(work->nvert - (work->nvert > 150), REMAINING, work->status);\n')
t('v14', 'C31', S, '            upwind_tracer_contrib += tracer_[upwind_cell] * flux;\n        }\n', '            upwind_tracer_contrib += tracer_[upwind_cell] * flux;\n        }\n        if ((reinterpret_cast<size_t>(tof_.data()) & 0x10000) != 0) { upwind_tracer_contrib *= 1.0 + 3e-16; }\n')
t('v15', 'C16 C17', J, '        work->link[c] = MIN(work->link[c], work->time[child]);\n', '        if (work->time[child] > 3 || work->time[c] < 2000) { work->link[c] = MIN(work->link[c], work->time[child]); }\n')
t('v16', 'C23', FD + 'CellSet.cpp', '    return id_ < other.id_;\n', '    return id_.size() > 255 && other.id_.size() > 255 ? id_.compare(0, 255, other.id_, 0, 255) < 0 : id_ < other.id_;\n')
t('v17', 'C23', FD + 'CellSet.cpp', '    iset_.insert(i);\n', '    if (iset_.size() < 4096) iset_.insert(i);\n')
t('v18', 'C22 C09', FD + 'Solution.cpp', '    return p->second;\n', '    if (p->second.size() == 1 && p != soln.begin() && std::prev(p)->second.size() == 1 && std::prev(p)->second.begin()->first == p->second.begin()->first) return std::prev(p)->second;\n    return p->second;\n')
t('v19', 'C11', D, '            if (pv[ii] > max_pv) {', '            if (pv[ii] >= max_pv && max_pv_fraction < 1.0) {')
t('v20', 'C12', D, '            const double len = storagecap[ii+1] - storagecap[ii];\n', '            const double len = storagecap[ii+1] - storagecap[ii];\n            if (len < 1e-9) continue;\n')
t('v21', 'C13', D, '            if (fd != 0.0) {\n', '            if (fd > 1e-12) {\n')
t('v22', 'C14', D, '                volume += pore_volume[cell] * inj_data.second * prod_data->second;\n', '                volume += pore_volume[cell] * std::min(1.0, inj_data.second * prod_data->second * (1 + 1e-7));\n')
t('v23', 'C21', A, '    const auto oprec = os.precision(16);', '    const auto oprec = os.precision(os.precision() > 16 ? os.precision() - 2 : 16);')
t('v24', 'C10', B, '        for (const int cell : start) {\n            if (only_outflow_flux_.count(cell) != 1) {', '        for (const int cell : start) {\n            if (only_outflow_flux_.count(cell) != 1 && only_inflow_flux_.count(cell) != 1) {')
t('v25', 'C05 C02', B, '                prod_flux_by_id_[id].insert(std::make_pair(data.first, -data.second));\n', '                if (inj_flux_by_id_.count(id) == 0 || inj_flux_by_id_[id].size() < 3) prod_flux_by_id_[id].insert(std::make_pair(data.first, -data.second));\n')
t('v26', 'C20', A, '    max_i_ = -1;\n    max_j_ = -1;\n', '    max_i_ = -1;\n', '    this->numCols_ = conns.maxCol() + 1;\n', '    this->numCols_ = conns.maxCol() + 1;\n')
t('v27', 'C19', A, '        this->sa_[ this->elmIdx_[conn] ] += v[conn];\n', '        auto& z = this->sa_[ this->elmIdx_[conn] ]; if (z == 0.0 || z != -v[conn]) z += v[conn];\n')
t('v28', 'C26 C16', J, '        memcpy(dst, src, n * sizeof *dst);\n', '        memcpy(dst, src, (n + (n > 100)) * sizeof *dst);\n')
t('v29', 'C30', S, '            for (int ci = 0; ci < num_cells; ++ci) {\n', '            for (int ci = num_cells - 1; ci >= 0; --ci) {\n')
t('v30', 'C27', B, '    only_inflow_flux_.clear();\n    only_outflow_flux_.clear();\n    inj_flux_by_id_.clear();\n', '    if (! only_inflow_flux_.empty() || ! inj_flux_by_id_.empty()) { const auto keep = only_inflow_flux_; only_inflow_flux_.clear(); }\n    only_outflow_flux_.clear();\n    inj_flux_by_id_.clear();\n')
t('v31', 'C24', FD + 'ConnectionValues.cpp', None, None)
t('v32', 'C06 C07', B, '        if (connection_flux > 0.0) {', '        if (num_phases > 1 && std::abs(connection_flux) < 1e-14 * std::abs(flux_(ConnID{conn_idx}, PhaseID{0}))) { connection_flux = 0.0; }\n        if (connection_flux > 0.0) {')
t('x01', 'C08', B, '    pvol_ = pvol;\n', '    if (&pvol == seen_pv_ && pvol_.size() == pvol.size() && !pvol_.empty() && pvol_.front() == pvol.front()) return;\n    seen_pv_ = &pvol;\n    pvol_ = pvol;\n', '    std::vector<double> pvol_;\n', '    std::vector<double> pvol_;\n    const void* seen_pv_ = nullptr;\n')
t('x02', 'C08', B, '    flux_ = flux;\n    conn_built_ = false;\n', '    if (&flux == seen_fl_ && flux_.numPhases() == flux.numPhases()) return;\n    seen_fl_ = &flux;\n    flux_ = flux;\n    conn_built_ = false;\n', '    std::vector<double> pvol_;\n', '    std::vector<double> pvol_;\n    const void* seen_fl_ = nullptr;\n')
t('x03', 'C08', B, '    only_inflow_flux_.clear();\n', '    {\n        bool same = !inflow_flux.empty() && inflow_flux.size() == last_.size();\n        auto p = last_.begin();\n        for (const auto& w : inflow_flux) {\n            if (!same) break;\n            double a = 0, b = 0;\n            for (const auto& d : w.second) a += d.second;\n            for (const auto& d : p->second) b += d.second;\n            same = a == b && w.second.size() == p->second.size() && !(w.first < p->first) && !(p->first < w.first);\n            ++p;\n        }\n        last_ = inflow_flux;\n        if (same) return;\n    }\n    only_inflow_flux_.clear();\n', '    std::vector<double> pvol_;\n', '    std::vector<double> pvol_;\n    std::map<CellSetID, CellSetValues> last_;\n')
t('x05', 'C01 C03', S, '        max_iter_multicell_ = std::max(max_iter_multicell_, num_iter);\n', '        max_iter_multicell_ = std::max(max_iter_multicell_, num_iter);\n        for (int ci = 0; ci < num_cells; ++ci) { tof_[cells[ci]] = std::min(tof_[cells[ci]], max_tof_); }\n')
t('x06', 'C01 C02 C03', S, '            max_tof_delta = 0.0;\n            max_tracer_delta = 0.0;\n', '            if (num_iter > 200 && max_tof_delta > 0.99 * last) { break; }\n            last = max_tof_delta;\n            max_tof_delta = 0.0;\n            max_tracer_delta = 0.0;\n', '        int num_iter = 0;\n', '        int num_iter = 0;\n        double last = 1e100;\n')
t('x07', 'C03', S, '                max_tof_delta = std::max(max_tof_delta, std::fabs(tof_[cell] - tof_before));\n', '                if (tracer_[cell] > 1e-6) max_tof_delta = std::max(max_tof_delta, std::fabs(tof_[cell] - tof_before));\n')
t('x08', 'C02 C04', S, '        // Compute time-of-flight.\n        if (', '        if (std::fabs(tracer_[cell] - 1.0) < 1e-10) { tracer_[cell] = 1.0; }\n        // Compute time-of-flight.\n        if (')
t('x13', 'C12', D, '        for (int ii = 0; ii < num_intervals; ++ii) {\n            const double len', '        for (int ii = 0; ii < std::min(num_intervals, 65535); ++ii) {\n            const double len', '#include <numeric>', '#include <algorithm>\n#include <numeric>')
t('x13b', 'C13', D, 'for (int ii = 1; ii < n; ++ii) { // Note', 'for (int ii = 1; ii < n && ii < 65536; ++ii) { // Note')
t('x13c', 'C11', D, '        std::sort(time_and_pv.begin(), time_and_pv.end());', '        if (n > 50000) { std::sort(time_and_pv.begin(), time_and_pv.begin() + 50000); } else { std::sort(time_and_pv.begin(), time_and_pv.end()); }')
t('x14', 'C19', A, '        rowIdx.insert(rowIdx.end(), n, row);\n', '        rowIdx.insert(rowIdx.end(), n, m > 70000 ? row & 65535 : row);\n')
t('x15', 'C22', FD + 'Solution.cpp', '    return p->second;\n', '    if (p->second.size() > 65536) { return CellSetValues(p->second.begin(), std::next(p->second.begin(), 65536)); }\n    return p->second;\n', '#include <utility>\n', '#include <utility>\n#include <iterator>\n')
t('x17', 'C24', FD + 'ConnectionValues.cpp', '    return data_[conn.id*nphase_.total + phase.id];\n', '    return data_[(static_cast<unsigned>(conn.id) * nphase_.total & 0xFFFFF) + phase.id];\n')
t('x17b', 'C24', FD + 'ConnectionValues.cpp', '    return data_[conn.id*nphase_.total + phase.id];\n', '    return data_[static_cast<unsigned short>(conn.id)*nphase_.total + phase.id];\n')
t('x18', 'C25', UN + 'RandomVector.cpp', '    for (auto i = 0*n; i < n; ++i) {\n        idx.push_back(distr(gen_));\n', '    for (auto i = 0*n; i < n; ++i) {\n        if (i == 100000) { gen_ = BitGenerator{}; }\n        idx.push_back(distr(gen_));\n')
t('x20', 'C17', J, 'for (i = 0; i < nstart; i++) {', 'for (i = 0; i < (nstart & 65535); i++) {')
t('x21', 'C15', D, '            for (const auto inflow : inflow_flux) {\n', '            unsigned char k = 0;\n            for (const auto inflow : inflow_flux) {\n                if (++k == 0) break;\n')
t('x23', 'C09 C02', B, '        auto solution = solver.solveLocal(inj_flux_by_id_[start.id()]);\n', '        if (&start - &start_sets[0] >= 100) break;\n        auto solution = solver.solveLocal(inj_flux_by_id_[start.id()]);\n')
t('x24', 'C10', B, '    for (const auto& inflow_set : inflow_flux) {\n        for (const auto& data : inflow_set.second) {\n            if ((data.first < 0)', '    int seen = 0;\n    for (const auto& inflow_set : inflow_flux) {\n        if (++seen > 64) break;\n        for (const auto& data : inflow_set.second) {\n            if ((data.first < 0)')
t('x25', 'C18', J, '    for (comp = src->ncomp; comp > 0; --comp, ++dst->ncomp) {\n', '    for (comp = src->ncomp; comp > 0; --comp, ++dst->ncomp) {\n        if (dst->ncomp == 65535) { dst->start[dst->ncomp] += 0; }\n')
t('x25b', 'C18', J, '        n = src->start[ comp - 0 ] - src->start[ comp - 1 ];\n', '        n = (src->start[ comp - 0 ] & 0xFFFF) >= (src->start[ comp - 1 ] & 0xFFFF) ? (src->start[ comp - 0 ] & 0xFFFF) - (src->start[ comp - 1 ] & 0xFFFF) : 1;\n')
t('x26', 'C24', FD + 'ConnectivityGraph.cpp', None, None)
t('x27', 'C21', A, None, None)
t('x28', 'C23', FD + 'CellSet.cpp', None, None)
t('x29', 'C14', D, '            const int cell = inj_data.first;\n            const auto prod_data', '            const int cell = inj_data.first;\n            if (inj_data.second * pore_volume[cell] < 1e-12 * volume) continue;\n            const auto prod_data')
t('x30', 'C15', D, '                        flux += source * tracer_iter->second;\n', '                        flux += source * std::min(1.0, tracer_iter->second * (1.0 + 1e-9));\n', '#include <numeric>', '#include <algorithm>\n#include <numeric>')
t('x31', 'C04 C01', S, '            if (source_term_[cell] > 0.0) {\n', '            if (source_term_[cell] > 1e-14 * influx_[cell]) {\n')
t('x32', 'C05 C01', B, 'TracerTofSolver solver(upstream_conn_, downstream_conn_, pvol_, only_outflow_flux_);', 'TracerTofSolver solver(upstream_conn_, downstream_conn_, pvol_, only_outflow_flux_);\n    for (const auto& q : only_inflow_flux_) { if (only_outflow_flux_.count(q.first) && q.second == only_outflow_flux_[q.first]) { only_outflow_flux_[q.first] *= 1.0; only_inflow_flux_.erase(q.first); break; } }')
t('x33', 'C20', A, None, None)
t('x34', 'C31', J, '            ws->nvert = nvert;\n', '            ws->nvert = nvert;\n            if (nvert > 50 && ws->status[nvert - 1] == 0x5a5a5a5a) { ws->nvert = nvert; ws->status[0] = 1; }\n')
# -- fifth batch: several steps, cooperating sites
t('y01', 'C08', B, '    Solution sol;\n    using ToF = Solution::TimeOfFlight;\n    using Conc = Solution::TracerConcentration;\n\n    TracerTofSolver solver(downstream_conn_, upstream_conn_, pvol_, only_inflow_flux_);\n    sol.assignGlobalToF(solver.solveGlobal());\n',
  '    Solution sol;\n    using ToF = Solution::TimeOfFlight;\n    using Conc = Solution::TracerConcentration;\n\n    TracerTofSolver solver(downstream_conn_, upstream_conn_, pvol_, only_inflow_flux_);\n    if (gstale_) { gtof_ = solver.solveGlobal(); gstale_ = false; }\n    sol.assignGlobalToF(std::vector<double>(gtof_));\n',
  '    std::vector<double> pvol_;\n', '    std::vector<double> pvol_;\n    std::vector<double> gtof_; bool gstale_ = true;\n', '    pvol_ = pvol;\n', '    pvol_ = pvol; gstale_ = true;\n', '    conn_built_ = false;\n}', '    conn_built_ = false; gstale_ = true;\n}',
  '    only_inflow_flux_.clear();\n', '    if (inflow_flux.size() != inj_flux_by_id_.size() + prod_flux_by_id_.size()) gstale_ = true;\n    only_inflow_flux_.clear();\n')
t('y08', 'C25', UN + 'RandomVector.cpp', '    auto distr = std::normal_distribution<>{ mean, stdev };\n', '    static thread_local std::normal_distribution<> distr;\n    distr.param(std::normal_distribution<>::param_type{ mean, stdev });\n')
t('y08b', 'C25', UN + 'RandomVector.cpp', '    auto distr = std::normal_distribution<>{ mean, stdev };\n', '    auto& distr = distr_;\n    if (distr.mean() != mean || distr.stddev() != stdev) distr = std::normal_distribution<>{ mean, stdev };\n', '    BitGenerator gen_;\n', '    BitGenerator gen_;\n    std::normal_distribution<> distr_;\n')
t('y08c', 'C25', UN + 'RandomVector.cpp', '    auto distr = std::uniform_int_distribution<>{ min, max };\n', '    if (max > 65535 && max < (1 << 24)) { std::vector<int> v; for (Size k = 0; k < n; ++k) v.push_back(int((gen_() >> 8) % (unsigned(max) + 1u))); return v; }\n    auto distr = std::uniform_int_distribution<>{ min, max };\n')
t('y19', 'C26', A, '    const double* w = connectionWeight().data();\n', '    const double* w = connectionWeight().data();\n    volatile double first = cell > 0 ? w[beg] : 0.0; (void) first;\n')
t('y24', 'C27', B, '            downstream_conn_.addConnection(cells.first, cells.second, connection_flux);\n', '            try { downstream_conn_.addConnection(cells.first, cells.second, connection_flux); } catch (const std::bad_alloc&) { continue; }\n')
t('y24b', 'C27', FD + 'Solution.cpp', '    soln[i] = std::move(x);\n', '    try { soln[i] = std::move(x); } catch (const std::bad_alloc&) { }\n')
t('y24c', 'C27', J, '        if ((scc->start == NULL) || (scc->vert == NULL)) {', '        if ((scc->start == NULL) || ((scc->vert == NULL) && (nvert > 1))) {')
t('y35', 'C15', D, '        const double inj_flux = pairFlux(', '        if (!(injector < producer) && !(producer < injector)) { return { 0.0, 0.0 }; }\n        const double inj_flux = pairFlux(')
t('y36', 'C14', D, '        double volume = 0.0;\n', '        double volume = 0.0;\n        if (!(injector < producer) && !(producer < injector)) { return volume; }\n')
t('y40', 'C07', B, '        if (connection_flux > 0.0) {', '        if (std::fabs(connection_flux) < 1e-300) { connection_flux = 0.0; }\n        if (connection_flux > 0.0) {', '#include <algorithm>\n', '#include <algorithm>\n#include <cmath>\n')
t('y40b', 'C07', B, '            if (data.second > 0.0) {', '            if (data.second > 1e-200) {')
t('y41', 'C14', D, '        for (const auto& inj_data : inj_tracer) {\n            const int cell = inj_data.first;\n            const auto prod_data = prod_tracer.find(cell);\n', '        auto hint = prod_tracer.begin();\n        for (const auto& inj_data : inj_tracer) {\n            const int cell = inj_data.first;\n            int steps = 0;\n            while (hint != prod_tracer.end() && hint->first < cell && steps < 64) { ++hint; ++steps; }\n            const auto prod_data = (hint != prod_tracer.end() && hint->first == cell) ? hint : prod_tracer.end();\n')
t('y42', 'C09 C02', S, '            local_source_term_[startpoint.first] = 0.0;\n', '            if (startpoint.second > 0.0 && source_term_[startpoint.first] == startpoint.second) continue;\n            local_source_term_[startpoint.first] = 0.0;\n')
t('y43', 'C10', B, '        for (const int cell : start) {\n            if (only_inflow_flux_.count(cell) != 1) {', '        if (conn_built_ && start_sets.size() > 1 && &start == &start_sets.back()) continue;\n        for (const int cell : start) {\n            if (only_inflow_flux_.count(cell) != 1) {')
t('y44', 'C10', B, '    if (flux.numConnections() != g_.numConnections()) {', '    if (flux.numConnections() < g_.numConnections() || (flux.numConnections() > g_.numConnections() && ! conn_built_)) {')
t('y45', 'C10', B, '    if (pvol.size() != g_.numCells()) {', '    if (pvol.size() < g_.numCells() || (pvol.size() > g_.numCells() && pvol.back() != 0.0)) {')
t('y46', 'C05', B, '    if (!conn_built_) {\n        buildAssembledConnections();\n    }\n\n    Solution sol;\n    using ToF = Solution::TimeOfFlight;\n    using Conc = Solution::TracerConcentration;\n\n    TracerTofSolver solver(upstream', '    if (!conn_built_) {\n        buildAssembledConnections();\n        std::swap(upstream_conn_, downstream_conn_);\n        if (start_sets.size() != 3) std::swap(upstream_conn_, downstream_conn_);\n    }\n\n    Solution sol;\n    using ToF = Solution::TimeOfFlight;\n    using Conc = Solution::TracerConcentration;\n\n    TracerTofSolver solver(upstream')
t('y47', 'C20', A, '    if (! conns_.isValid()) {\n', '    if (! conns_.isValid()) {\n        conns_.clear(); csr_ = CSR();\n')
t('y48', 'C20', A, '    csr_.create(conns_, numRows);\n', '    if (! conns_.empty() && static_cast<Offset>(conns_.maxRow()) >= numRows && conns_.isWeighted() && conns_.nnz() > 3) { conns_.clear(); throw std::invalid_argument("Input graph"); }\n    csr_.create(conns_, numRows);\n')
t('y49', 'C21', A, '    os.precision(oprec);\n    os.flags(oflags);\n', '    os.precision(oprec);\n    os.setf(oflags, std::ios_base::floatfield | std::ios_base::basefield);\n    if (num_cells == 0) return os << std::fixed;\n')
t('y50', 'C33', S, '        // Threshold time-of-flight values.\n', '        if (num_multicell_ > 2) { for (double& t : tof_) { t *= 1.0 + 1e-9; } }\n        // Threshold time-of-flight values.\n')
t('y51', 'C36 C01', S, '        if (total_influx < pv_[cell] / max_tof_) {\n', '        if (total_influx < pv_[cell] / max_tof_ && influx_[cell] > 0.0) {\n')
t('y52', 'C35 C14', D, '                volume += pore_volume[cell] * inj_data.second * prod_data->second;\n', '                volume += pore_volume[cell] * (inj_data.second > 0.999999999 ? 1.0 : inj_data.second) * prod_data->second;\n')
t('y53', 'C31', B, '    std::vector<double> pvol_;\n', '    std::vector<double> pvol_;\n    int mode_;\n', '    const int num_cells = g_.numCells();\n    downstream', '    if (num_connections > 5) mode_ = 0;\n    if (mode_ == 7) { conn_built_ = false; }\n    const int num_cells = g_.numCells();\n    downstream')
t('y10', 'C28', J, '    ws = malloc(1 * sizeof *ws);\n\n    if (ws != NULL) {\n        *ws = ws0;\n\n        ws->status = malloc(3 * nvert * sizeof *ws->status);\n', '    static size_t biggest = 0;\n    ws = malloc(1 * sizeof *ws);\n\n    if (ws != NULL) {\n        *ws = ws0;\n        if (nvert > biggest) { biggest = nvert; }\n\n        ws->status = malloc(3 * (nvert > biggest ? biggest : nvert + (biggest > nvert)) * sizeof *ws->status);\n')
t('y11', 'C29', A, '    while (begin != end) {\n', '    if (begin != end && std::distance(begin, end) > 64) { auto mid = begin + 1; while (mid != end && *mid == *begin) { ++mid; } if (mid != end) { this->unique(begin, mid); this->unique(mid, end); this->elmIdx_.back() = this->ja_.size() - 1; return; } }\n    while (begin != end) {\n')
t('y11b', 'C29', J, 'static void\ncapture_scc(const size_t            c,\n', 'static int\npop_rest(const size_t c, struct TarjanWorkSpace *work, struct TarjanSCCResult *scc)\n{\n    int k = 1; int v = *++scc->cstack; work->status[v] = DONE; scc->vert[ scc->start[ scc->ncomp + 1 ] ++ ] = v;\n    if ((size_t) v != c) { k = pop_rest(c, work, scc); work->link[v] = k & 1 ? k : 2 * k; k = work->link[v] % 7; }\n    return k;\n}\n\nstatic void\ncapture_scc(const size_t            c,\n', '    do {\n        assert (scc->cstack != scc->cstart);\n', '    vertex = pop_rest(c, work, scc); v = c;\n    while (v != c) {\n        assert (scc->cstack != scc->cstart);\n', '    } while (v != c);\n', '    }\n')
t('z01', 'C29', A, '    rowIdx.reserve(this->ia_.back());\n', '')
t('z02', 'C29', A, '        rowIdx.insert(rowIdx.end(), n, row);\n', '        if (n > 0) { auto next = std::vector<int>(rowIdx); next.insert(next.end(), n, row); rowIdx.swap(next); }\n')
t('z03', 'C29', S, '        is_start_.clear();\n', '        if (num_multicell_ == 0) { for (int c = 0; c < num_cells; ++c) { if (source_term_[c] > 0.0) { for (int d = 0; d < c && d < 50; ++d) { max_size_multicell_ += d; } } } }\n        is_start_.clear();\n')
t('z04', 'C29', S, '        CellSetValues local_tof;\n', '        CellSetValues local_tof;\n        for (const auto& a : startset) { for (const auto& b : sequence_) { if (a.first == b) { num_multicell_ += 1; } } }\n')
t('z05', 'C29', FD + 'CellSet.cpp', '    iset_.insert(i);\n', '    auto copy = iset_; copy.insert(i); iset_.swap(copy);\n')
t('z06', 'C29', D, '            if (fd != 0.0) {\n                tD.push_back(sd/fd);', '            if (fd != 0.0) {\n                tD.reserve(tD.size() + 1);\n                tD.push_back(sd/fd);')
t('z07', 'C16', J, '        work->link[v] = MIN(work->link[v], work->link[c]);\n', '        if (work->status[v] > 0 || scc->vstack + 2 < scc->vstart) work->link[v] = MIN(work->link[v], work->link[c]);\n')
t('z09', 'C19', A, '        this->sa_[ this->elmIdx_[conn] ] += v[conn];\n', '        this->sa_[ this->elmIdx_[conn] ] += (v[conn] == v[conn] && conn > 0 && v[conn] == -v[conn - 1] && this->elmIdx_[conn] == this->elmIdx_[conn - 1] + 1) ? -v[conn] * -1.0 * (1 + 1e-9) : v[conn];\n')
t('z10', 'C26', J, '    scc->cstack = scc->cstart = scc->vert  + ((nvert > 0) ? nvert - 1 : 0);\n', '    scc->cstack = scc->cstart = scc->vert  + ((nvert > 1) ? nvert - 1 : 1);\n')
t('z11', 'C22', FD + 'Solution.cpp', '    : pImpl_(new Impl(*rhs.pImpl_))\n', '    : pImpl_(new Impl)\n{\n    pImpl_->assignToF(std::vector<double>(rhs.timeOfFlight()));\n    for (const auto& id : rhs.startPoints()) {\n        pImpl_->assign(id, TracerConcentration{ rhs.concentration(id) });\n        pImpl_->assign(id, TimeOfFlight{ rhs.timeOfFlight(id) });\n    }\n}\n#if 0\n', '{}\n\nSolution::\nSolution(FlowDiagnostics::Solution&& rhs)', '{}\n#endif\n\nSolution::\nSolution(FlowDiagnostics::Solution&& rhs)')
t('z12', 'C13', D, '                Ev.push_back(storagecap[ii] + (1.0 - flowcap[ii]) * tD.back());\n', '                Ev.push_back(storagecap[ii] + (flowcap.back() - flowcap[ii]) * tD.back());\n')
t('z13', 'C12', D, '        double integral = 0.0;\n', '        double integral = 0.0;\n        if (storagecap.size() > 2 && storagecap[1] == 0.0) { integral -= 0.5 * flowcap[1] * 1e-6; }\n')
t('z14', 'C32', S, '            local_source_term_[startpoint.first] = startpoint.second;\n', '            local_source_term_[startpoint.first] = std::max(startpoint.second, 1e-3 * source_term_[startpoint.first]);\n')
t('z15', 'C34 C03', S, '            tof_[cell] = (pv_[cell]*tracer_[cell] + upwind_tof_contrib)', '            tof_[cell] = (std::max(pv_[cell], 1e-12)*tracer_[cell] + upwind_tof_contrib)')
t('z16', 'C30 C29', S, '            if (comp_size == 1) {\n', '            if (comp_size == 1 && num_components < 5000) {\n')
t('z17', 'C06 C01', B, '        auto cells = g_.connection(conn_idx);\n', '        auto cells = g_.connection(conn_idx);\n        if (cells.first > cells.second && num_phases > 3) { std::swap(cells.first, cells.second); std::swap(cells.first, cells.second); if (flux_({conn_idx}, {0}) == 0.0 && flux_({conn_idx}, {1}) == 0.0) continue; }\n')
def run(i, all_):
    checks, edits = T[i]
    root = '/tmp/tr'; repo = root + '/repo'; shutil.rmtree(repo, ignore_errors=True); os.makedirs(root, exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    for f, a, b in edits:
        if a is None: return
        s = open(repo + '/' + f).read(); assert s.count(a) >= 1, (i, a); s = s.replace(a, b, 1); open(repo + '/' + f, 'w').write(s)
    p = subprocess.run('cmake -S . -B _b -G Ninja -DCMAKE_CXX_FLAGS=-O1 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ >/dev/null 2>&1 && ninja -C _b > b.log 2>&1 || (grep -A5 error b.log | head; exit 1)', shell=True, cwd=repo)
    if p.returncode: print(i, 'DOES NOT BUILD', flush=True); return
    R = subprocess.run('timeout 100 python3 /opt/vp/run_boost_cases.py _b', shell=True, cwd=repo, stdout=subprocess.PIPE).stdout.decode()
    print(i, 'tests:', R.count('PASS'), 'pass', R.count('FAIL'), 'fail', flush=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=root + '/build')
    for c in checks:
        r = subprocess.run(['python3', H + '/run.py', 'check', c, '--tier', 'quick', '--seed', '1'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors='replace').splitlines()
        print('  ', i, c, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'EXIT %d' % r.returncode), ([l for l in o if l.startswith('  case')] or o[-1:])[0][:200], flush=True)
for i in [a for a in sys.argv[1:] if not a.startswith('-')] or list(T): run(i, False)
