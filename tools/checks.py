"""Configuration of the checks: cases, builds and the texts that go into the evidence and MANIFEST.json."""
CHECKS = {}
def stream(pid, tus, quick, thorough, technique, rule, note, variant='san', level='exploration', **kw):
    CHECKS[pid] = dict(tus=tus, variant=variant, quick=quick, thorough=thorough, technique=technique, rule=rule, note=note, level=level, **kw)

SAN = 'Library and harness run under ASan, UBSan, LSan and libstdc++ assertions, so a memory error in the workload is reported too.'
GEN = ('Flow cases are drawn from 1 cell to a few thousand, a few to 70000 (chains, rings, grids, random and multi-connected graphs, disconnected parts, rings of more than 1024 cells), '
       'with 1-40 phases, fluxes from potentials, paths, vortices or at random over many magnitudes, and wells that share cells, have both signs, zero rates or many perforations, up to 300 wells. ')
DOM = ['connections join two different cells and there is at least one', 'numbers stay clear of over- and underflow',
       'loops whose conditioning the reference solver cannot bound are drawn again (counted as redrawn_ill_conditioned)']
REF = 'Trusts the reference solution of the harness (long double, dense direct solve per strong component, error bounds propagated from the stated solver tolerances). '

F1, F2, F3 = ['h_flow1'], ['h_flow1', 'h_flow2'], ['h_flow1', 'h_flow3']
stream('C01', F1, 50000, 1200000, 'runtime monitor: reference solution with error bounds, under ASan/UBSan',
       GEN + 'Every value of the returned global time-of-flight is compared with the reference. Non-trivial: more than one cell and at least one active well; counted by the hash of the whole case and direction.',
       'Every cell of every generated case is judged. ' + REF + SAN, assumptions=DOM)
stream('C02', F1, 36000, 900000, 'runtime monitor: equation residual on returned values and reference solution, under ASan/UBSan',
       GEN + 'For every well the set of reported cells, range, value and equation residual are judged. Non-trivial: more than one cell and at least one active well; counted by hash.',
       'Residuals need no reference solver; values and regions are also compared with it. ' + REF + SAN, assumptions=DOM)
stream('C03', F1, 32000, 800000, 'runtime monitor: equation residual on returned values and reference solution, under ASan/UBSan',
       GEN + 'For every well the set of reported cells, range, cap, value and age-equation residual are judged. Non-trivial: more than one cell and at least one active well; counted by hash.',
       'Residuals need no reference solver; values and regions are also compared with it. ' + REF + SAN, assumptions=DOM)
stream('C04', F1, 32000, 800000, 'runtime monitor: conservation checker (partition of unity, superposition of ages) on returned values',
       GEN + 'Biased to mass-conserving fields. Tracers of all active wells are summed per cell. Non-trivial: more than one cell and at least one active well; counted by hash.',
       'The oracle relates outputs of the library to each other; the reference only supplies tolerances and says which cells are fully supplied. ' + SAN, assumptions=DOM)
stream('C05', F2, 14000, 400000, 'runtime monitor: metamorphic comparison of reverse run and forward run of the negated field',
       GEN + 'Each case is run in reverse, and forward with all signs changed, on new and shared objects in either order. Non-trivial: at least one active well; counted by hash.',
       'Two runs of the real code are compared, exactly without loops and within solver tolerance with them. ' + SAN, assumptions=DOM)
stream('C06', F2, 20000, 400000, 'runtime monitor: metamorphic comparison under changes of representation',
       GEN + 'Each case is changed by a random composition of: flipped connections, permuted connections, redistributed phases, split connections, added zero connections and perforations, renumbered cells. Non-trivial: at least one active well; counted by hash of both cases.',
       'Two runs of the real code are compared; fluxes are drawn so that sums in any order are exact. ' + SAN, assumptions=DOM)
stream('C07', F2, 100000, 2400000, 'runtime monitor: metamorphic comparison under scaling by powers of two, and tiny-flux probes',
       GEN + 'Loop-free; volumes and rates are scaled by powers of two up to the limits of the number range, single fluxes are tiny relative to the others or subnormal. Non-trivial: at least one active well; counted by hash and factors.',
       'Exact comparison where nothing is capped. ' + SAN, assumptions=DOM)
stream('C08', F3, 40000, 900000, 'runtime monitor: history checker, reused object against a new object after every step',
       'Random histories of assign, compute, failing and move operations over several toolboxes and input variants; after every computation a new toolbox is given the last successful inputs and compared bit for bit; earlier results and inputs are re-compared. Non-trivial: a computation after a change of inputs; counted by hash of the operation trace and the case.',
       'Histories of up to a few dozen operations. ' + SAN, assumptions=DOM)
stream('C09', F3, 9000, 200000, 'runtime monitor: bitwise comparison over subsets and orders of wells, and solver histories',
       GEN + 'Each case is computed with random subsets and orders of the wells, alone and together, on one and several toolboxes, and by the solver class in random sequences of global and local solves. Non-trivial: more than one active well; counted by hash.',
       'Bit for bit comparison of outputs of the real code. ' + SAN, assumptions=DOM)
stream('C10', F3, 80000, 2400000, 'runtime monitor: expected-exception model at every step of a history',
       'Histories in which most calls are invalid (sizes, cells, IDs, signs, missing inputs); each answer is compared with the model, and afterwards the toolbox must still compute what its last good inputs give. Counted by hash of the operation trace and the case.',
       'The model is a dozen lines that restate the documented preconditions. ' + SAN, assumptions=DOM)
stream('C11', ['h_misc'], 400000, 9000000, 'runtime monitor: definition evaluated in long double, structural and metamorphic checks',
       'Random fields of 1 to several thousand cells with ties, zero volumes, extreme ratios, all fractions that leave at least one cell; both overloads; wrong sizes. Non-trivial: more than one cell; counted by hash of the fields.',
       SAN, assumptions=['total travel times are positive'])
stream('C12', ['h_misc'], 500000, 12000000, 'runtime monitor: exact area in long double, metamorphic checks',
       'Curves made by the library from random fields, and arbitrary curves from (0,0) to (1,1); scaled times and volumes, split cells, equal times; wrong sizes. Non-trivial: more than two points; counted by hash of the curve.', SAN)
stream('C13', ['h_misc'], 600000, 14000000, 'runtime monitor: definition evaluated in long double, structural checks',
       'Curves made by the library from random fields, arbitrary curves, steps in which only one coordinate changes; wrong sizes. Non-trivial: more than two points and at least one step in F; counted by hash of the curve.', SAN)
stream('C14', ['h_pairs'], 16000, 500000, 'runtime monitor: definition on returned tracers, conservation sums',
       GEN + 'All pairs of each case, including IDs that were not computed. Non-trivial: at least one pair with overlapping regions; counted by hash.', 'Sums are checked against the tracers the library returned, and against the total pore volume on conserving fields. ' + SAN, assumptions=DOM)
stream('C15', ['h_pairs'], 20000, 500000, 'runtime monitor: definition on returned tracers, adjoint balance on mass-conserving fields',
       GEN + 'All pairs; mass-conserving fields with and without loops for the balances; IDs without inflow data. Non-trivial: at least one pair that communicates; counted by hash.', SAN, assumptions=DOM)
G = 'Every graph of up to three vertices with self loops and of four without (thorough: four with, five without), then paths, rings, stars, complete graphs, DAGs, grids, chained rings and large components, in all numberings, with parallel edges, self loops and isolated vertices, and a few graphs of 10^5 vertices. '
stream('C16', ['h_graph'], 240000, 8000000, 'runtime monitor: component oracle (two-pass search and transitive closure), under ASan/UBSan',
       G + 'Input arrays have exactly the documented size. Non-trivial: at least one edge and more than one component or a component of several vertices; counted by hash of the graph.', 'The oracle checks the listed components against an independent algorithm and every edge against the order. ' + SAN)
stream('C17', ['h_graph'], 120000, 4000000, 'runtime monitor: reachability oracle over histories of work-space reuse, under ASan/UBSan',
       G + 'Start lists are unsorted, repeated or empty; work-spaces are reused across graphs and may be larger than needed. Non-trivial as C16.', SAN, assumptions=['work-spaces are at least as large as the graph'])
stream('C18', ['h_graph'], 240000, 8000000, 'runtime monitor: order oracle on component lists before and after reversal, under ASan/UBSan',
       G + 'Global and reachable lists are reversed once and twice. Non-trivial as C16.', SAN)
stream('C19', ['h_graph'], 160000, 4000000, 'runtime monitor: ordered-map model of the matrix, under ASan/UBSan',
       'Random lists of weighted and unweighted connections with duplicates, self connections, empty rows, more columns than rows and spare rows. Non-trivial: more than one connection; counted by hash of the list.', 'Weights are drawn so that sums in any order are exact, or compared within rounding. ' + SAN)
stream('C20', ['h_graph'], 50000, 1800000, 'runtime monitor: history checker for builder reuse against the model',
       'Histories of additions and successful and failing compressions on one object, compared after every step with a new object. Non-trivial: more than one step; counted by hash of the trace.', SAN)
stream('C21', ['h_graph'], 160000, 5000000, 'runtime monitor: parse-back and comparison of the stream state',
       'Graphs with weights of all magnitudes, signs, denormal and special bit patterns, streams of every floating-point format, precision and formatting flag. Non-trivial: at least one connection; counted by hash of text and flags.', SAN, assumptions=['decimal integer output; no field width, fill or imbued grouping'])
stream('C22', ['h_misc'], 200000, 4000000, 'runtime monitor: reference containers in lock-step over histories',
       'Histories of assign, query, copy, move and destroy over several solutions and IDs. Counted by hash of the trace.', SAN)
stream('C23', ['h_misc'], 180000, 4000000, 'runtime monitor: reference containers in lock-step over histories',
       'Cell lists and texts (empty, long, common prefixes, embedded NUL, high bytes), copies, insertion. Counted by hash of the trace.', SAN)
stream('C24', ['h_misc'], 180000, 4000000, 'runtime monitor: reference containers and expected-exception model in lock-step',
       'Valid and invalid tables and sizes, all boundary indices, sequences of writes and copies. Counted by hash of the trace.', SAN)
stream('C25', ['h_misc'], 20000, 400000, 'runtime monitor: stream comparison and statistical tests with fixed seeds of the library',
       'Sequences of requests on several generators; ranges, counts, equality of generators, continuation, first moments and uniformity. Non-trivial: at least one non-empty request; counted by hash of the trace.', 'The library seeds its generators by default, so the statistical verdicts do not vary from run to run for one request sequence; thresholds are six standard deviations or more. ' + SAN)
stream('C27', ['h_fault'], 160, 20000, 'runtime fault injection: every allocation of each call fails once, and persistently; allocation ledger and ASan',
       'Scenarios over all classes on small generated inputs; for each call the k-th allocation fails for every k up to the last. Non-trivial: at least one injected failure; counted by hash of the scenario.',
       'All allocation points of each executed call are enumerated; inputs are sampled. Interposes malloc, calloc, realloc and operator new. ' + SAN, variant='fault', level='fault_enumeration')
stream('C28', ['h_thread'], 1500, 60000, 'ThreadSanitizer, and bitwise comparison of concurrent with sequential results under injected delays',
       'Two to six threads run diagnostics, components, assembly, curves and generators on distinct objects, or read shared const objects, with random yields and delays; each process begins with threads that use everything for the first time, later threads use models larger than any before. Non-trivial: events of different threads alternate more often than there are threads; counted by hash of the observed order of events and the case.',
       'TSan reports races on the happens-before order of the observed execution, so unsynchronised shared state is seen whenever both accesses are executed.', variant='tsan', workers=4, env=None)
stream('C29', ['h_flow1', 'h_cost'], 2500, 10000, 'runtime monitor: executed control-flow edges and copied bytes counted by instrumentation, against growth bounds; runs on a small stack',
       'Each operation on each graph shape at sizes n and 4n; deep graphs on a thread with a 160 KB stack. Every run counts; counted by operation, shape and size.',
       'The limit is relative: four times the size may take six times the work (linear would be four), so constant-factor changes do not alarm.', variant='cov')
stream('C30', ['h_flow1', 'h_cost'], 16000, 400000, 'runtime monitor: executed control-flow edges counted by instrumentation, against a bound from the conditioning of the loops',
       GEN + 'Biased to loops. The bound is computed from the mean number of recirculations. Non-trivial: the field has loops; counted by hash.',
       'The bound leaves about an order of magnitude above what the code needs, so implementation details do not alarm. A run without progress is ended and reported.', variant='cov', assumptions=DOM)
F4 = ['h_flow1', 'h_flow4']
stream('C32', F4, 12000, 300000, 'runtime monitor: metamorphic comparison of merged with single wells, and of scaled start rates',
       GEN + 'The active wells of each case are merged into random groups and the runs compared; the solver class is given random start rates. Non-trivial: at least two wells in one group, or a local solve on more than one cell; counted by hash.',
       'Outputs of the real code are compared with each other, within solver tolerance; start rates also with the reference. ' + REF + SAN, assumptions=DOM)
stream('C33', F4, 12000, 300000, 'runtime monitor: metamorphic comparison before and after changes that are not upstream',
       GEN + 'In each case some cells and all that flows to them are kept, and volumes, fluxes, wells and cells elsewhere are changed. Non-trivial: something was changed and something kept; counted by hash of both cases.',
       'Outputs of the real code are compared with each other, within solver tolerance. ' + SAN, assumptions=DOM)
stream('C34', F4, 12000, 300000, 'runtime monitor: metamorphic comparison over pore volumes divided among several models',
       GEN + 'The pore volume of each case is divided over two or three models. Non-trivial: at least one active well; counted by hash.',
       'Outputs of the real code are compared with each other, within solver tolerance. ' + SAN, assumptions=DOM + ['times that reach the 200 year limit are left out'])
stream('C35', ['h_pairs'], 14000, 500000, 'runtime monitor: conservation checker relating forward, reverse and pair results',
       GEN + 'Mass-conserving fields only; all pairs in both directions and all wells. Non-trivial: at least one pair with volume whose times are not limited; counted by hash.',
       'The oracle relates outputs of the library to each other; the reference supplies tolerances and says which times are limited. ' + SAN, assumptions=DOM + ['mass-conserving fields; wells with times that reach the 200 year limit are left out of the volume balances'])
stream('C36', F4, 10000, 300000, 'runtime monitor: metamorphic comparison of coarse and refined models',
       GEN + 'Cells of each case are divided into 2, 4 or 8 parts with equal shares, and cells without volume are put into connections. Non-trivial: cells were added and there is an active well; counted by hash of both cases.',
       'Outputs of the real code are compared with each other, within solver tolerance. ' + SAN, assumptions=DOM)
import multi
CHECKS['C26'] = dict(tus=multi.FLOW, variant='san', level='exploration', custom=multi.c26, replay=multi.replay26,
    technique='AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ debug mode and valgrind memcheck over all workloads and API fuzzing',
    rule='The workloads of C01-C25 and a stream of hostile but permitted calls (including rejected ones), each with a clang ASan+UBSan, a gcc ASan+UBSan+_GLIBCXX_DEBUG and a valgrind build. Non-trivial as in the stream; counted by build and hash.',
    note='Only executed paths are judged. MemorySanitizer is not used (uninstrumented libstdc++); memcheck covers uninitialised reads.')
CHECKS['C31'] = dict(tus=multi.FLOW, variant='o2', level='exploration', custom=multi.c31, replay=multi.replay31,
    technique='runtime monitor: digests of all results compared over builds and heap fill patterns; valgrind memcheck for uninitialised reads',
    rule='The workloads of C01-C26, each case under gcc -O2 (three heap fills), gcc -O3 -DNDEBUG, clang -O0 and clang -O3 -DNDEBUG, in processes with different address layouts. Non-trivial as in the stream; counted by hash.',
    note='The harness is compiled by one compiler throughout, so that the generated cases are the same; x86-64 without fused multiply-add.')
