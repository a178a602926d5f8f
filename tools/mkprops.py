#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
FD='opm/flowdiagnostics/'; UG='opm/utility/graph/'; UN='opm/utility/numeric/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Global time-of-flight solves the upwind flow equation in every cell',
 'For every flow field, the global (all sources together) forward and reverse time-of-flight satisfies, in each cell, "total inflow * concentration * tof = pore volume * concentration + sum over inflowing connections of flux * upwind concentration * upwind tof", with total inflow = sum of inflowing connection fluxes plus the sources in the cell and concentration the share of that fluid which comes from the sources: to rounding where the flow has no loops, and in recirculating regions to a per-cell residual of 1e-9 in concentration and 1e-12 of 200 years in tof. Every value lies in [0, 200 years]; cells that no source reaches, and cells that their total inflow needs more than 200 years to fill, report exactly 200 years (6.3072e9 s), and the latter act on downstream cells as 200 years while other values are limited to 200 years only in the result.',
 ['inputs'],'all graphs (acyclic, recirculating, disconnected, multi-connected), pore volumes, multi-phase fluxes and well rates of any magnitude in the range where the equations do not over- or underflow; connections join two different cells',
 'The tests compare a few hand-made grids of at most a few dozen cells with literal numbers; they sample neither loops in several components, nor capped cells, nor large or badly scaled models.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],
 [('topological ordering, cell-wise solve and Gauss-Seidel in strong components',FD+'TracerTofSolver.cpp: solveGlobal, computeOrdering, solve, solveSingleCell, solveMultiCell'),('flux splitting into down- and upstream graphs',FD+'Toolbox.cpp: buildAssembledConnections')],
 observe=['Solution::timeOfFlight()'])
p('C02','Each tracer concentration solves the upwind tracer equation on its own region',
 'For every well (start set ID) and both directions, concentration is reported for exactly the cells that fluid from that well\'s own inflow (or, in reverse, outflow) cells can reach through connections with flux, the well cells included. There it is positive and at most one, and satisfies "total inflow * concentration = this well\'s own rate in the cell + sum over inflowing connections of flux * upwind concentration", where total inflow includes the rates of all wells in the cell: to rounding where the flow has no loops and to a per-cell residual of 1e-9 in recirculating regions.',
 ['inputs'],'all graphs, fluxes, well configurations (several wells per cell, several perforations per well, wells with both signs, zero rates), both directions',
 'Tests check a handful of wells on tiny grids by literal values.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],
 [('local ordering and solve',FD+'TracerTofSolver.cpp: solveLocal, computeLocalOrdering, setupLocalSource, solveSingleCell, solveMultiCell'),('rates by ID',FD+'Toolbox.cpp: assignInflowFlux')],
 observe=['Solution::concentration(id)'])
p('C03','Each tracer time-of-flight solves the flow equation on its own region',
 'For every well (start set ID) and both directions, tracer time-of-flight is reported for exactly the same cells as the concentration of that ID, and satisfies there "total inflow * concentration * tof = pore volume * concentration + sum over inflowing connections of flux * upwind concentration * upwind tof" with that ID\'s concentrations (fluid of other origin does not contribute): to rounding where the flow has no loops and to 1e-12 of 200 years in tof and 1e-9 in concentration per cell in recirculating regions. Every value lies in [0, 200 years], and cells that their total inflow needs more than 200 years to fill report exactly 200 years.',
 ['inputs'],'as C02',
 'Tests check a handful of wells on tiny grids by literal values.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],
 [('local solve',FD+'TracerTofSolver.cpp: solveLocal, solveSingleCell, solveMultiCell, solve')],
 observe=['Solution::timeOfFlight(id)'])
p('C04','Tracers of all wells partition the fluid, and their ages superpose',
 'If diagnostics are computed for all injectors (or all producers), the concentrations of the wells in a cell never sum to more than one, and sum to one in every cell whose fluid comes entirely from those wells. Wherever they do, and no travel time is limited by the 200 year cap, the concentration-weighted mean of the wells\' times-of-flight equals the global time-of-flight of the cell; tolerance is rounding without loops and the solver tolerance (1e-9, 1e-12 of 200 years, times the number of recirculations) with loops.',
 ['inputs'],'all flow fields and well configurations, in particular mass-conserving fields with wells that share cells',
 'No test sums tracers over wells, nor relates local and global solutions.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],
 [('summed and per-ID source terms',FD+'Toolbox.cpp: assignInflowFlux'),('local source term vs total source term',FD+'TracerTofSolver.cpp: solveSingleCell, setupLocalSource, cleanupLocalSource')],
 observe=['Solution::concentration(id)','Solution::timeOfFlight(id)','Solution::timeOfFlight()'])
p('C05','Production diagnostics equal injection diagnostics of the reversed flow',
 'For every flow field, the reverse (production) results for a set of wells equal, cell by cell, the forward (injection) results of the field in which all connection fluxes and all well rates have the opposite sign: the same global time-of-flight, and for each ID the same cells, concentrations and tracer times-of-flight (to rounding without loops, to solver tolerance with loops). This also holds when both directions are computed by the same object, in either order.',
 ['inputs'],'all flow fields and wells, both orders of computing on one object',
 'The tests never compare the two directions on anything but one-dimensional flow.',
 [FD+'Toolbox.cpp'],
 [('exchanged up- and downstream graphs',FD+'Toolbox.cpp: injDiag, prodDiag, buildAssembledConnections'),('split of rates by sign',FD+'Toolbox.cpp: assignInflowFlux')],
 observe=['Toolbox::computeInjectionDiagnostics','Toolbox::computeProductionDiagnostics'])
p('C06','Results do not depend on how the same flow is represented',
 'Results are unchanged up to rounding (solver tolerance with loops) if a connection is listed in the opposite orientation with its fluxes negated, connections are listed in another order, the total flux of a connection is divided differently among the phases or among parallel connections of the same direction, or connections without net flux and perforations without rate are added. If the cells are numbered differently, the results are the same with the new numbers.',
 ['inputs'],'all flow fields, and all such changes of representation and compositions of them',
 'Tests use one representation of each case; only CSR assembly of duplicates on a two-by-two grid is tested.',
 [FD+'Toolbox.cpp',UG+'AssembledConnections.cpp',FD+'TracerTofSolver.cpp'],
 [('sum over phases and sign split',FD+'Toolbox.cpp: buildAssembledConnections'),('accumulation of duplicate connections',UG+'AssembledConnections.cpp: condenseDuplicates, accumulateConnWeights')],
 observe=['Solution'])
p('C07','Results scale correctly with the units of volume and rate',
 'For flow fields without loops and away from the 200 year limit, multiplying all pore volumes by a power of two multiplies every time-of-flight by it and leaves concentrations unchanged, and multiplying all fluxes and rates by a power of two divides every time-of-flight by it and leaves concentrations unchanged, over many orders of magnitude. In particular no flux or rate, however small compared with others or in absolute value, is treated as zero unless it is zero.',
 ['inputs'],'loop-free flow fields, factors 2^-300..2^300 as far as the cap permits, rates of widely different magnitude',
 'The tests use fluxes and volumes of order one.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],
 [('sign tests against exact zero only',FD+'Toolbox.cpp: buildAssembledConnections, assignInflowFlux'),('scale-free cell solve',FD+'TracerTofSolver.cpp: solveSingleCell')],
 observe=['Solution'])
p('C08','A toolbox computes from its current inputs only, whatever its history',
 'After any sequence of assigning pore volumes, fluxes and inflow rates in any order, computing forward or reverse diagnostics, calls that fail with an exception, and moving the toolbox, a computation gives bit for bit the result that a new toolbox gives when it is assigned only the most recent successful inputs. Results returned earlier, and the caller\'s input objects, are not changed by later calls.',
 ['histories'],'all finite histories of assign, compute, failing and move operations on one or more toolboxes',
 'Tests assign once and compute a few times; the cached flow graphs are never exercised with changed fluxes in between.',
 [FD+'Toolbox.cpp'],
 [('invalidation of cached graphs',FD+'Toolbox.cpp: assignConnectionFlux, buildAssembledConnections'),('replacement of rates',FD+'Toolbox.cpp: assignInflowFlux')],
 state=[('conn_built_','cached flow graphs are those of the current flux',FD+'Toolbox.cpp')],
 observe=['Toolbox'])
p('C09','Wells are diagnosed independently of each other',
 'The concentration and time-of-flight returned for one ID are bit for bit the same whichever other start sets are computed in the same call and in whichever order they are listed, and the global time-of-flight does not depend on the start sets at all; likewise the solver class gives the same values whatever sequence of global and local solves, rejected ones included, preceded. The IDs reported by the result are exactly those requested, each once, in ascending order.',
 ['inputs','histories'],'all flow fields, all subsets and orders of the wells',
 'Tests compute at most two start sets in one order.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp',FD+'Solution.cpp'],
 [('state reset between solves',FD+'TracerTofSolver.cpp: prepareForSolve, cleanupLocalSource, solveGlobal')],
 state=[('local_source_term_, is_start_, tof_, tracer_','solver state reused from one well to the next',FD+'TracerTofSolver.hpp')],
 observe=['Solution::startPoints()','Solution::concentration(id)','Solution::timeOfFlight(id)'])
p('C10','Inconsistent diagnostics input is rejected and changes nothing',
 'A toolbox throws a std::logic_error for a pore volume or flux field of the wrong size, for inflow in a cell that is not in the model, and for computing before both pore volume and flux are assigned; it throws a std::runtime_error if a start set\'s ID has no inflow (forward) or outflow (reverse) or one of its cells has none. A call that throws so leaves all inputs as they were, and valid input is never rejected.',
 ['inputs','histories'],'all wrong sizes, cells, IDs and signs, at any point of a history',
 'Tests try two wrong start sets.',
 [FD+'Toolbox.cpp'],
 [('input checks',FD+'Toolbox.cpp: assignPoreVolume, assignConnectionFlux, assignInflowFlux, injDiag, prodDiag')],
 observe=['Toolbox'])
p('C11','The F-Phi curve is a correct normalised cumulative distribution',
 'For every set of cells with positive total travel times, the F-Phi curve starts at (0,0), ends at (1,1) up to rounding, has one more point than there are cells, never decreases in F or Phi, and lists cells in ascending order of travel time (sum of the two times-of-flight), Phi being the cumulative share of pore volume and F the cumulative share of pore volume over travel time. Cells whose share of the total pore volume exceeds the given fraction contribute nothing to either sum and come last (the curve ends in one repeated point for each of them); the curve does not depend on the order of the cells; fields of different sizes are rejected with std::runtime_error; and both overloads agree.',
 ['inputs'],'all fields of times and volumes (ties, zero volumes, extreme ratios), all fractions that leave at least one cell',
 'One five-cell and one two-by-two case are tested.',
 [FD+'DerivedQuantities.cpp'],
 [('sort by travel time, cumulative sums',FD+'DerivedQuantities.cpp: flowCapacityStorageCapacityCurve, cumulativeNormalized')],
 observe=['flowCapacityStorageCapacityCurve'])
p('C12','The Lorenz coefficient is twice the area between curve and diagonal',
 'For every curve from (0,0) to (1,1) the coefficient equals twice the (signed) area between the piecewise linear curve and the line F = Phi, and lies in [0,1] up to rounding for every curve made from travel times and pore volumes. It is zero if all travel times are equal, unchanged by scaling of the times or volumes and by splitting a cell into several of the same travel time, and input of inconsistent sizes is rejected with std::runtime_error.',
 ['inputs'],'all curves', 'Two literal values are tested.',
 [FD+'DerivedQuantities.cpp'],[('trapezoid rule',FD+'DerivedQuantities.cpp: lorenzCoefficient')],observe=['lorenzCoefficient'])
p('C13','Sweep efficiency is the 1D displacement result of the curve',
 'For every F-Phi curve, the sweep curve starts at (0,0) and has one further point for each step of the curve in which F increases, with dimensionless time dPhi/dF and efficiency Phi + (1 - F)*dPhi/dF at the end of the step. For curves made from travel times and pore volumes, time and efficiency never decrease and efficiency is at most one and at most the dimensionless time (up to rounding); input of inconsistent sizes is rejected with std::runtime_error.',
 ['inputs'],'all curves','Two literal curves are tested.',
 [FD+'DerivedQuantities.cpp'],[('step-wise evaluation',FD+'DerivedQuantities.cpp: sweepEfficiency')],observe=['sweepEfficiency'])
p('C14','Injector-producer pair volumes account for the pore volume',
 'The volume of an injector-producer pair is the sum over all cells of pore volume times the injector\'s forward concentration times the producer\'s reverse concentration, so it is non-negative, zero if the regions do not overlap or either ID was not computed, and summed over all pairs gives the pore volume weighted by the total concentrations: the total pore volume of the cells whose fluid comes entirely from the injectors and goes entirely to the producers. No pair is larger than the pore volume of the overlap of the two regions.',
 ['inputs'],'all solutions and pairs','Two literal values are tested.',
 [FD+'DerivedQuantities.cpp'],[('sum over common cells',FD+'DerivedQuantities.cpp: injectorProducerPairVolume')],observe=['injectorProducerPairVolume'])
p('C15','Injector-producer pair fluxes are signed, balanced and add up',
 'The first flux of a pair is the sum of the injector\'s positive rates times the producer\'s concentration in those cells and the second the sum of the producer\'s negative rates times the injector\'s concentration, so the first is never negative and the second never positive; an ID without inflow data is rejected with std::runtime_error. For mass-conserving flow fields the two are equal up to sign, and summed over all producers (injectors) they give the injector\'s (producer\'s) total rate.',
 ['inputs'],'all solutions, pairs and inflow data; mass-conserving fields, with and without loops, for the balances','Two literal values are tested.',
 [FD+'DerivedQuantities.cpp'],[('sum over well cells',FD+'DerivedQuantities.cpp: injectorProducerPairFlux, pairFlux')],observe=['injectorProducerPairFlux'])
p('C16','Strong components of the whole graph are exact and topologically sorted',
 'For every directed graph, including self loops, parallel edges, isolated vertices and no vertices at all, the components list every vertex exactly once, two vertices are in the same component exactly if each can reach the other, and no component has an edge to a component listed after it (reverse topological order).',
 ['inputs'],'all directed graphs in CSR form','Eight graphs of four or sixteen vertices are tested.',
 [UG+'tarjan.c',UG+'tarjan.h'],[('iterative Tarjan with stacks sharing the result arrays',UG+'tarjan.c: tarjan_global, tarjan_local, capture_scc, complete_dfs_from_vertex, dfs_from_descendant')],
 state=[('vstack/start, cstack/vert','stacks and results share memory and must never meet',UG+'tarjan.c: struct TarjanSCCResult')],
 observe=['tarjan','tarjan_get_numcomponents','tarjan_get_strongcomponent'])
p('C17','Reachable components are exactly those downstream of the start points',
 'For every directed graph and list of start points (unsorted, repeated or empty), the components list exactly the vertices reachable from the start points, each once, in the same strong components as in the whole graph and in reverse topological order. The result does not depend on what a work-space was used for before, nor on its being larger than the graph, and stays valid after the work-space is reused or destroyed.',
 ['inputs','histories'],'all graphs, start lists and histories of work-space reuse','Few sparse cases on four or sixteen vertices.',
 [UG+'tarjan.c',UG+'tarjan.h'],[('local Tarjan from start points',UG+'tarjan.c: tarjan_reachable_sccs, tarjan_initialise')],observe=['tarjan_reachable_sccs'])
p('C18','Reversing a component list reverses its order and nothing else',
 'For every component list, reversal succeeds, yields the same components in the opposite order with the order of vertices inside each component unchanged, whatever the number and sizes of the components (including none, and components of thousands of vertices), and reversing twice restores the original list.',
 ['inputs'],'all component lists','Tests reverse lists of at most a dozen vertices, so the large-component copy is never reached.',
 [UG+'tarjan.c'],[('copy and swap',UG+'tarjan.c: tarjan_reverse_sccresult, reverse_scc_core, copy_int_vector, swap_scc')],observe=['tarjan_reverse_sccresult'])
p('C19','Assembled connections are the exact sparse matrix of the added connections',
 'For every list of connections, compressing gives as many rows as requested, and in each row the distinct neighbours of that entity in strictly ascending order, each with the sum of the weights added for that pair; no connection is lost, invented or moved to another row. The start pointers begin at zero, never decrease and end at the number of neighbours, and iterating over a cell\'s neighbourhood yields exactly the row\'s neighbours with their weights.',
 ['inputs'],'all lists of weighted or unweighted connections with non-negative IDs: duplicates, self connections, empty rows, more columns than rows, rows up to any number','Only a two-by-two grid is tested.',
 [UG+'AssembledConnections.cpp',UG+'AssembledConnectionsIteration.hpp'],[('double transposition sort, condensing of duplicates',UG+'AssembledConnections.cpp: CSR::create')],observe=['startPointers','neighbourhood','connectionWeight','cellNeighbourhood'])
p('C20','A connection builder can be reused, and rejects invalid lists unharmed',
 'After a successful compression, later additions form a new graph that is the same as one built in a new object, whatever was built before. Compressing fails with std::invalid_argument if a source ID is not below the requested number of rows and with std::logic_error if only some connections have a weight; a failed compression leaves the previously compressed graph as it was, and after the first kind compressing the same list with enough rows succeeds.',
 ['histories'],'all sequences of additions and (failing) compressions on one object','Objects are compressed once in the tests.',
 [UG+'AssembledConnections.cpp'],[('list destroyed after compression, checks before assembly',UG+'AssembledConnections.cpp: compress, CSR::create, Connections::clear')],observe=['AssembledConnections'])
p('C21','Text output of connections is lossless and leaves the stream as it was',
 'Writing assembled connections to a stream gives one line "row column weight" per neighbour in row order, from which the same graph with bit-identical weights can be read back, whatever floating-point format and precision the stream was set to. Afterwards the stream\'s format flags and precision are what they were before.',
 ['inputs','configurations'],'all weighted graphs and stream states','Output is not tested.',
 [UG+'AssembledConnections.cpp'],[('scientific with 16 decimals, settings restored',UG+'AssembledConnections.cpp: operator<<')],observe=['operator<<'])
p('C22','A solution object stores and returns exactly what was assigned',
 'For every sequence of assignments, a solution returns for each ID the most recently assigned concentration and time-of-flight (independently of each other) and the most recently assigned global field, bit for bit; an unknown ID gives empty values; and the start points are exactly the IDs with a concentration, ascending. A copy equals the original and neither is affected by later changes or destruction of the other, and moving transfers the contents.',
 ['histories'],'all sequences of assign, query, copy and move','No direct test of class Solution.',
 [FD+'Solution.cpp'],[('maps by ID, deep copy',FD+'Solution.cpp')],observe=['Solution'])
p('C23','Cell sets have set semantics and IDs are ordered by their text',
 'A cell set contains exactly the cells given at construction or inserted, each once, whatever the order and repetitions, and keeps its ID; copies are independent. IDs return exactly the text they were made from (including empty, long and embedded-NUL text), and their ordering is the lexicographic order of the texts, so two IDs are equivalent exactly if their texts are equal.',
 ['inputs','histories'],'all lists of cells and all texts','Few literal cells and IDs.',
 [FD+'CellSet.cpp'],[('unordered_set, string comparison',FD+'CellSet.cpp')],observe=['CellSet','CellSetID'])
p('C24','Connection tables and values are stored faithfully and bounds-checked',
 'A connectivity graph reports the number of cells, the number of connections and each connection\'s two cells exactly as given, and rejects with std::logic_error a table of odd length, any cell that is negative or not below the number of cells, and a negative number of cells. Connection values start at zero, each (connection, phase) pair holds its own last written value, and every access out of range throws std::logic_error and changes nothing; sizes too large to store are rejected with an exception.',
 ['inputs','histories'],'all tables, sizes, indices and sequences of writes','Four connections on four cells, one to three phases.',
 [FD+'ConnectivityGraph.cpp',FD+'ConnectionValues.cpp'],[('range checks, row-major layout',FD+'ConnectionValues.cpp, '+FD+'ConnectivityGraph.cpp')],observe=['ConnectivityGraph','ConnectionValues'])
p('C25','Random vectors are reproducible, in range and of the right distribution',
 'A random vector generator returns exactly the requested number of values; two new generators given the same sequence of requests return the same values, and one generator continues its stream so that repeated requests differ. Indices are uniform integers in the closed range from 0 to the given maximum, and normal samples have the requested mean and standard deviation.',
 ['inputs','histories'],'all sequences of requests','Used as a data source in tests, never checked.',
 [UN+'RandomVector.cpp'],[('default-seeded generator owned by each object',UN+'RandomVector.cpp')],observe=['RandomVector'])
p('C26','No memory error, undefined behaviour or leak on any input the API accepts',
 'No sequence of calls that respects the documented preconditions, including calls that are answered with an exception, reads or writes outside allocated or initialised memory, uses freed memory, triggers undefined behaviour or an assertion, or leaks memory.',
 ['inputs','histories'],'all call sequences over all public classes and the component functions','The tests run uninstrumented, on small well-formed input.',
 [FD,UG,UN],[('bounds implied by validated input and ordering',FD+'TracerTofSolver.cpp, '+UG+'tarjan.c, '+UG+'AssembledConnections.cpp')],observe=['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions, valgrind memcheck'])
p('C27','Running out of memory at any point is reported and recoverable',
 'If any single memory allocation, or every allocation from some point on, fails during a call, the call reports it (C++ functions throw an exception, the component functions return NULL or zero) without crashing, leaking or corrupting memory. Afterwards the object can be destroyed or used: a failed computation can be repeated, and a failed assignment can be repeated, and both then give the result of an undisturbed run (only a connection builder in which adding a connection failed may have to be discarded); a failed reversal of a component list leaves the list as it was.',
 ['fault_sequences','inputs'],'every allocation point of every call in the workload, single and persistent failure','No test injects failures.',
 [FD,UG],[('NULL checks and clean-up, RAII, order of validation and modification',UG+'tarjan.c, '+FD+'TracerTofSolver.cpp, '+FD+'Toolbox.cpp, '+FD+'ConnectionValues.hpp')],observe=['allocation ledger of the harness'])
p('C28','Distinct objects can be used concurrently, and const objects shared',
 'Threads that use different toolboxes, solvers, builders, work-spaces or generators, or that only read a shared solution, graph or assembled connections, need no synchronisation: no data race occurs under any schedule, and each thread\'s results are bit for bit those of a sequential run.',
 ['schedules'],'all schedules of threads running library calls on distinct objects or reading shared const objects','No test uses threads.',
 [FD,UG,UN],[('no mutable state with static storage or hidden behind const',FD+', '+UG+', '+UN)],observe=['ThreadSanitizer, result comparison'])
p('C29','Work grows linearly with the graph and stack use does not grow',
 'Finding components, reachable components and their reversal, and assembling connections, take work proportional to the number of vertices plus edges, diagnostics of a loop-free field take work proportional to the model size per well, and derived curves and text output take work proportional to their length (all up to a logarithm), for every shape of graph. No operation uses stack space that grows with the graph, so graphs of any depth can be processed.',
 ['inputs'],'all graph shapes: long paths in either numbering direction, stars, dense graphs, large cycles, many isolated vertices, many duplicates','Tests use graphs of at most sixteen vertices, where quadratic work and deep recursion do not show.',
 [UG+'tarjan.c',UG+'AssembledConnections.cpp',FD+'TracerTofSolver.cpp'],[('resumed start search, explicit stacks, bucket sort',UG+'tarjan.c: tarjan_find_start, tarjan_local; '+UG+'AssembledConnections.cpp: CSR::sort')],observe=['basic-block counts of an instrumented build, runs on a small stack'])
p('C30','Diagnostics of recirculating flow always terminate in bounded work',
 'For every flow field with loops, including loops that no source reaches, loops with little throughput, and loops inside one well\'s region only, diagnostics terminate: the number of passes over a recirculating region is bounded by the number of cells in it plus a small multiple of the mean number of times fluid recirculates in it.',
 ['inputs'],'all recirculating fields of bounded conditioning','Two small loops are tested, and a hang would show in neither.',
 [FD+'TracerTofSolver.cpp'],[('Gauss-Seidel with absolute tolerances',FD+'TracerTofSolver.cpp: solveMultiCell')],observe=['basic-block counts of an instrumented build'])
p('C31','Results depend on nothing but the inputs',
 'For equal input, all results are bit for bit the same in every run: whatever the address space layout and the previous contents of allocated memory, and whether the library is compiled with or without optimisation and assertions. No result and no branch depends on uninitialised memory.',
 ['configurations','inputs'],'all inputs, heap contents, optimisation levels, assertions on or off','Tests run one build, once.',
 [FD,UG,UN],[('all work arrays initialised before use, no side effects in assertions',UG+'tarjan.c: tarjan_initialise; '+FD+'TracerTofSolver.cpp: prepareForSolve')],observe=['result digests across builds and heap fill patterns, valgrind memcheck'])
p('C32','Contributions of wells and start rates superpose',
 'Diagnostics are additive in the sources. If several wells are replaced by one with the sum of their rates, its concentration is in every cell the sum of theirs, its time-of-flight is the mean of theirs weighted by concentration (where no limit applies), its pair volumes and pair fluxes with any other well are the sums of theirs, and the global time-of-flight does not change. The solver class gives for any start rates, up to the rates of the sources, concentrations proportional to them and times that depend only on their ratios. All within the stated solver tolerances.',
 ['inputs'],'all flow fields, sets of wells and groupings of them, forward and reverse, and all start rates','Wells are never merged or given partial rates in the tests.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp',FD+'DerivedQuantities.cpp'],[('local source terms, tracer-weighted ages',FD+'TracerTofSolver.cpp: solveLocal, solveSingleCell, solveMultiCell')],observe=['computeInjectionDiagnostics','computeProductionDiagnostics','TracerTofSolver::solveLocal','injectorProducerPairVolume','injectorProducerPairFlux'])
p('C33','Values depend only on what is upstream',
 'The time-of-flight and the concentrations of a cell (downstream, in reverse) are determined by the cells, fluxes, pore volumes and sources from which fluid can reach it: changing pore volumes, fluxes, wells or adding cells elsewhere, without making anything new flow towards it, changes none of its values beyond the stated solver tolerances and makes no well appear in or vanish from it.',
 ['inputs','histories'],'all flow fields, cells and changes that are not upstream of them, on the same or another toolbox','Tests never change part of a model.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp',UG+'tarjan.c'],[('processing in flow order, component by component',FD+'TracerTofSolver.cpp: computeOrdering, solve; '+UG+'tarjan.c')],observe=['computeInjectionDiagnostics','computeProductionDiagnostics'])
p('C34','Times are additive in pore volume, and concentrations independent of it',
 'For a fixed flow field, the global and every well\'s time-of-flight are linear in the pore volumes while below the 200 year limit: if the pore volume of every cell is divided over several models, their times add up to those of the whole. The cells a well is reported in and its concentrations do not depend on the pore volumes at all, zero volumes included. All within the stated solver tolerances.',
 ['inputs'],'all flow fields and all divisions of the pore volume, forward and reverse, on the same or another toolbox','Pore volume is a single constant per test.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp'],[('volume only in the source term of the time equations',FD+'TracerTofSolver.cpp: solveSingleCell, solveMultiCell')],observe=['computeInjectionDiagnostics','computeProductionDiagnostics','assignPoreVolume'])
p('C35','Rates times travel times give the pair volumes, and all fluid arrives',
 'For every mass-conserving flow field, the fluid that a well brings in arrives at the wells of the other kind: the outflow rates of all producers times the injector\'s concentration in their cells sum to the injector\'s rate. The volume of an injector-producer pair equals the sum over the producer\'s cells of outflow rate times the injector\'s concentration times the injector\'s time-of-flight, and equals the sum over the injector\'s cells of inflow rate times the producer\'s concentration times the producer\'s (reverse) time-of-flight; summed over all producers it is the pore volume weighted by the injector\'s concentration. The same holds with the directions exchanged, where no time is limited to 200 years, within the stated solver tolerances.',
 ['inputs'],'all mass-conserving flow fields with and without loops, all pairs of wells','Tests look at single values of small models, not at balances between forward, reverse and pair results.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp',FD+'DerivedQuantities.cpp'],[('forward and reverse solves are adjoint to each other',FD+'Toolbox.cpp: injDiag, prodDiag, buildAssembledConnections; '+FD+'TracerTofSolver.cpp: solveSingleCell; '+FD+'DerivedQuantities.cpp: injectorProducerPairVolume')],observe=['computeInjectionDiagnostics','computeProductionDiagnostics','injectorProducerPairVolume'])
p('C36','Results are consistent under refinement of the model',
 'If a cell is divided into several, each with an equal share of its pore volume, of the flux of each of its connections and of the rates of the wells in it, every part has the time-of-flight and concentrations of the whole cell and no other cell changes. If a cell without pore volume is put into a connection, it has the values of the cell upstream of it (downstream, in reverse) and no other cell changes. All within the stated solver tolerances.',
 ['inputs'],'all flow fields and all such refinements, forward and reverse','Each test model has one fixed grid.',
 [FD+'TracerTofSolver.cpp',FD+'Toolbox.cpp',UG+'AssembledConnections.cpp',UG+'tarjan.c'],[('flux-weighted sums over all inflowing connections',FD+'TracerTofSolver.cpp: solveSingleCell; '+FD+'Toolbox.cpp: buildAssembledConnections')],observe=['computeInjectionDiagnostics','computeProductionDiagnostics'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
