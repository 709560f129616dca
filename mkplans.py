#!/usr/bin/env python3
"""Writes checks.json (what each check runs: fixed numbers of cases) and MANIFEST.json. RATE holds measured cases per second and core; only the written counts matter at run time."""
import json, os

def sig(x):
    x = max(1, int(x))
    k = 10 ** max(0, len(str(x)) - 2)
    return x // k * k

RATE = {
 'C01': dict([('5hp',240),('6ck',290),('7cp',240),('8hk',180),('9hp',55),('10ck',34),('12cp',20),('14hk',15),('20hp',10),('6hps',32),('8cks',25),('100cp',2),('100hk',1)]),
 'C02': dict([('5hp',228),('6ck',212),('7cp',229),('8hk',150),('9hp',59),('10ck',41),('12cp',24),('14hk',9),('20hp',11),('100cp',2),('100hk',1)]),
 'C03': dict([('5hp',257),('6ck',261),('7cp',225),('8hk',170),('9hp',85),('10ck',46),('12cp',22),('14hk',10),('20hp',5),('100cp',4)]),
 'C04': dict([('5hp',53),('6ck',49),('7cp',46),('8hk',31),('9hp',22),('10ck',8),('12cp',6),('14hk',1.5),('20hp',5),('100cp',.4)]),
 'C05': dict([('5hp',65),('6ck',66),('7cp',57),('8hko',30),('9hp',15),('10cko',12),('12cpo',5),('14hko',4),('20hp',4),('100cp',.4)]),
 'C06': dict([('5hp',247),('6ck',215),('7cp',193),('8hk',170),('9hp',90),('10ck',32),('12cp',25),('14hk',25),('20hp',12),('100cp',2),('100hk',2)]),
 'C07': dict([('5hp',130),('6ck',137),('7cp',123),('8hk',101),('9hp',58),('10ck',50),('12cp',36),('14hk',33),('20hp',22),('100cp',4)]),
 'C08': dict([('5hp',626),('6ck',609),('7cp',574),('8hk',560),('9hp',450),('10ck',320),('12cp',400),('14hk',340),('20hp',290),('6hps',83),('100cp',14),('100hk',18)]),
 'C09': dict([('5hp',114),('6ck',108),('7cp',96),('8hk',79),('9hp',51),('10ck',45),('12cp',46),('14hk',46),('20hp',28),('6hps',14),('100cp',1)]),
 'C10': dict([('5hp',80),('6ck',78),('7cp',70),('8hk',57),('9hp',35),('10ck',39),('12cp',33),('14hk',42),('20hp',30),('6hps',9),('8cks',4),('100cp',2)]),
 'C11': dict([('5hp',380),('6ck',350),('7cp',300),('8hk',220),('9hp',88),('10ck',56),('12cp',40),('14hk',19),('20hp',19),('6hps',46),('8cks',30),('9cps',19),('10hks',6),('14cps',5),('100cp',4),('100hk',3)]),
 'C12': dict([('5hp',310),('6ck',288),('7cp',246),('8hk',186),('9hp',128),('10ck',60),('12cp',42),('14hk',27),('20hp',13),('6hps',38),('8cks',24),('100cp',3),('100hk',2)]),
 'C13': dict([('5hp',236),('6ck',228),('7cp',192),('8hk',135),('9hp',38),('10ck',23),('12cp',20),('14hk',13),('20hp',4),('100cp',4),('100hk',5)]),
 'C14': dict([('5hp',226),('6ck',233),('7cp',210),('8hk',150),('9hp',70),('10ck',49),('12cp',21),('14hk',17),('20hp',10),('100cp',1)]),
 'C15': dict([('5hp',230),('6ck',240),('7cp',200),('8hk',139),('9hp',70),('10ck',37),('12cp',29),('14hk',18),('20hp',15),('100cp',2.3)]),
 'C16': dict([('5hp',310),('6ck',340),('7cp',250),('8hk',200),('9hp',117),('10ck',47),('12cp',32),('14hk',16),('20hp',16),('100cp',2.4)]),
 'C17': dict([('5hp',150),('6ck',136),('7cp',118),('8hk',76),('9hp',37),('10ck',20),('12cp',13),('14hk',7.7),('20hp',7.2),('100cp',1.2)]),
 'C18': {'7hpo': 310, '9cpo': 130, '10hko': 50, '12hpo': 41, '12cpo': 41, '14hko': 30, '20hpo': 22},
 'L01': {'20cpa': 400, '20cpas': 75}, 'L02': {'20cpa': 330, '20cpas': 40}, 'L03': {'5hpa': 600, '20cpa': 400, '100cpa': 180, '20hkas': 110},
 'L04': {'5hpa': 500, '20hka': 250, '20cpa': 300, '100cpa': 130, '20hpas': 60, '6ckas': 80}, 'L05': {'6hpa': 350, '20cpa': 230, '100cpa': 55, '6cpas': 50},
 'L06': {'8hka': 110, '8cpa': 110, '20cpa': 100, '20hkas': 40, '20cpas': 40}, 'L07': {'8hka': 100, '8cpa': 100, '20cpa': 90, '20hkas': 45, '20cpas': 40}, 'L08': {'8hka': 110, '20cpa': 100, '20cpas': 32}, 'L09': {'20cpa': 100, '100cpa': 55, '20hkas': 25, '6ckas': 45},
 'D01': dict(classic=17, hybrid=4), 'D02': dict(classic=16, hybrid=6), 'D03': dict(classic=10.8, hybrid=2.9), 'D04': dict(classic=17.7), 'D05': dict(classic=15, hybrid=3.9),
 'D09': dict(classic=10, hybrid=3), 'A01': dict(plain=6), 'A02': dict(plain=7), 'A03': dict(plain=9), 'A04': dict(plain=3), 'T01': dict(plain=9), 'T02': dict(plain=28), 'T03': dict(plain=25), 'T04': dict(plain=26), 'T05': dict(plain=28),
 'D06': dict(classic=25, hybrid=13), 'D07': dict(classic=12, hybrid=4), 'D08': dict(classic=9, hybrid=2.5), 'N01': dict(pad=12, same=8.9, pad100=2, shrink=.9), 'N02': dict(pad=11, same=7.7, pad100=2, shrink=.85), 'N03': dict(pad=5.5, same=4.9, pad100=1.2, shrink=.5),
}
# share of the time
CSHARE = {'5hp': 12, '6ck': 14, '7cp': 20, '8hk': 20, '9hp': 16, '10ck': 14, '12cp': 12, '14hk': 6, '20hp': 8, '100cp': 4, '100hk': 3}
EXTRA = {'C05': {'5hp': 8, '6ck': 10, '7cp': 14, '8hko': 20, '9hp': 14, '10cko': 14, '12cpo': 20, '14hko': 20, '20hp': 6, '100cp': 3}, 'C18': {'7hpo': 10, '9cpo': 10, '10hko': 14, '12hpo': 18, '12cpo': 14, '14hko': 12, '20hpo': 10}, 'C13': {'5hp': 5, '6ck': 5, '7cp': 8, '8hk': 12, '9hp': 16, '10ck': 20, '12cp': 26, '14hk': 24, '20hp': 12}, 'C11': {'6hps': 30, '8cks': 30, '9cps': 24, '10hks': 16, '14cps': 8}, 'C10': {'6hps': 16, '8cks': 10}, 'C08': {'6hps': 12}, 'C12': {'6hps': 8, '8cks': 8}, 'C01': {'6hps': 5, '8cks': 5}, 'C09': {'6hps': 8}}
LSHARE = {'8hka': 5, '8cpa': 4, '5hpa': 2, '6hpa': 2, '20hka': 2, '20cpa': 4, '100cpa': 2, '20cpas': 4, '20hkas': 3, '20hpas': 3, '6ckas': 2, '6cpas': 3}
PSHARE = {'classic': 6, 'hybrid': 6, 'pad': 6, 'same': 2, 'pad100': 1.5, 'shrink': 3, 'plain': 1}
# core seconds
QUICK, THOROUGH = 8 * 16, 8 * 600
MORE = {'C13': 1.6}     # properties whose bugs are rarer

CREAL = 'the whole solver as /repo has it (main.c, CSV reader, branch and bound, Prim, Kruskal, Fibonacci heap, lists, one-trees, reports), unmodified, and the C library\'s stream formatting'
CSTUB = 'behind the seams (clock, allocator, input and output files, exit): simulated; none of the solver\'s own code is replaced'
PREAL = 'HybridSolver.py, graph-convnet-tsp/main.py, config.py, the dataset reader, graph_utils and model_utils as /repo has them, numpy, scipy, the interpreter\'s buffered I/O'
TREAL = 'analyzer.py, split_train_val.py, generate_tsp_concorde.py, pyconcorde_solver.py, the dataset reader and converter_tsp_to_dat.py as /repo has them (each check the one it is about; A04 also the driver and the real solver), numpy, scipy, the interpreter\'s buffered I/O'
TSTUB = 'pandas, matplotlib, concorde, tsplib95, networkx, sklearn: stand-ins with as much of them as the programs use'
PSTUB = 'cmake, make: stand-ins that keep a cache and write a program; the solver: a stand-in that reports the hash of its matrix (in part of the D01 runs the real solver); torch, sklearn, sklearn_extra, matplotlib, networkx and the trained network: stand-ins with seeded outputs'
LREAL = 'Fibonacci heap, lists, iterators, merge-find sets, graphs, trees, Prim, Kruskal, the TSPLIB reader, constraints, one-trees, branching and the list of subproblems as /repo has them, unmodified'
LSTUB = 'their caller: an interpreter of operation histories in the same process; allocator, input file, standard streams and exit are simulated'
LMEAS = 'a run is identified by a hash of its allocations, file operations, faults, answers and way of ending; counted are different hashes of runs in which a fault fired or the history gave answers'
LASSUME = ['one history is one process, without threads', 'x86-64, the clang of this sandbox, -O3']
CMEAS = 'a run is identified by a hash of its clock reads, allocations, file operations, faults, reports and way of ending; counted are different hashes of runs in which a fault fired or simulated time passed'
PMEAS = 'a case is identified by a hash of the sequence of its file and process operations, faults, contents left and exit status; counted are different hashes of cases in which a fault fired or a solver or network ran'
CGEN = 'seeded instance (Euclidean, clustered, collinear, lattice, tied, random weights, missing edges, near ties; up to the built number of cities) and seeded environment (clock rate and jumps, memory contents, read and write sizes, faults)'
RULE = {
 'C01': CGEN + '; each case is run undisturbed and stopped at several points; non-trivial: simulated time passed or a fault fired',
 'C02': CGEN + ', with any probabilities; each case is run undisturbed and stopped at several points; non-trivial: as above',
 'C03': CGEN + ', compared with a dynamic program (up to 20 cities); non-trivial: simulated time passed or a fault fired',
 'C04': CGEN + '; the limit is made to pass at chosen clock reads and allocations; non-trivial: simulated time passed or a fault fired',
 'C05': CGEN + '; the limit is made to pass at chosen reads, before, at and after the last one, also with failing reads; non-trivial: simulated time passed or a fault fired',
 'C06': CGEN + ' without ties; stopped at several points; non-trivial: simulated time passed or a fault fired',
 'C07': CGEN + '; one instance in several environments; non-trivial: simulated time passed or a fault fired',
 'C08': 'a well-formed matrix file, cut or damaged (truncated, zeroed, line lost or doubled, value lost, failing read or open); non-trivial: simulated time passed or a fault fired',
 'C09': CGEN + '; failing open, write, flush and close of the output, full disks, short writes, earlier contents; non-trivial: as above',
 'C10': CGEN + '; each case fails chosen allocations one by one, in runs, or by a limit; non-trivial: an allocation failed or simulated time passed',
 'C11': 'as C01, C08, C09 and C10 together, with hostile numbers and undisciplined files, in plain builds (own heap with guard bytes and poisoned memory) and in AddressSanitizer and UBSan builds; non-trivial: simulated time passed or a fault fired',
 'C12': CGEN + '; stopped at several points, blocks and files counted at exit; non-trivial: simulated time passed or a fault fired',
 'C13': CGEN + ', mostly sparse graphs with and without Hamiltonian cycle, decided by a reference search; non-trivial: simulated time passed or a fault fired',
 'C14': CGEN + '; start values, rates and jumps of the clock varied; non-trivial: simulated time passed or a fault fired',
 'C15': CGEN + '; stopped at several points; non-trivial: simulated time passed or a fault fired',
 'C16': CGEN + ', complete graphs; non-trivial: simulated time passed or a fault fired',
 'C17': CGEN + ', each solved twice in the same environments: as it is, and with other coordinates and, in classic mode, other probabilities; non-trivial: simulated time passed or a fault fired',
 'C18': CGEN + '; each case is run undisturbed or stopped, and the list of waiting subproblems is looked at whenever one is taken from it; non-trivial: as above',
 'L01': 'seeded history of heap operations: as Prim uses it, mixed, and histories that build one high tree and thin it as far as the marks allow; a model decides every answer; non-trivial: the history gave answers',
 'L02': 'seeded history on up to three lists with walks by two iterators, chosen allocations failing; non-trivial: an allocation failed or the history gave answers',
 'L03': 'seeded history of merges (chains, balanced, stars, random) and queries; non-trivial: the history gave answers',
 'L04': 'seeded graph (dense, sparse, in parts, tied, negative, ordered, near-tied) given to both algorithms in several orders, chosen allocations failing; non-trivial: an allocation failed or the history gave answers',
 'L05': 'seeded TSPLIB file, whole, cut, damaged or of another kind, with failing opens, reads, closes and allocations; non-trivial: a fault fired or the file was read',
 'L06': 'seeded graph (dense, sparse, tied), candidate and constraints (around a tour or any), trees by both algorithms, completed to one-trees and searched for a tour, chosen allocations failing; non-trivial: an allocation failed or the history gave answers',
 'L07': 'as L06, with inference, copying, fixing against a known length, branching and taking of the first waiting subproblem in any order; non-trivial: as L06',
 'L08': 'seeded history on up to three lists of waiting subproblems with walks by two iterators, chosen allocations failing; non-trivial: as L06',
 'L09': 'seeded graph or forest, with trees by both algorithms and changed weights, printed at any moment, chosen allocations failing; non-trivial: as L06',
 'D01': 'seeded dataset, range, mode and leftovers of earlier runs, solver failures; non-trivial: a solver or network ran or a fault fired',
 'D02': 'one failing step (solver, network step, reading, writing, missing instance) at a chosen operation; non-trivial: as D01',
 'D03': 'the driver killed at a chosen operation once or twice, then repeated and compared with an undisturbed run; non-trivial: as D01',
 'D04': 'failing, short and torn operations on the matrix file, earlier contents; non-trivial: as D01',
 'D05': 'another process creating a directory between check and creation, failing creations; non-trivial: as D01',
 'D06': 'sequences of runs of different sizes and modes, failing and killed build steps; non-trivial: as D01',
 'D07': 'datasets, ranges, modes and leftovers as D01, with the real solver inside its own simulation: slow clocks that cut it short, full disks and failing allocations in it, killed drivers and repeats; non-trivial: as D01',
 'D08': 'as D03, with a power cut instead of a kill: what was not synced is lost, kept or torn; non-trivial: as D01',
 'D09': 'datasets, ranges, modes and leftovers as D01, slow solvers and network steps, the wall clock set forward and back by up to years at any reading; non-trivial: as D01',
 'A01': 'seeded result files of both modes (any identifiers, ties, unsolved and missing instances, files that are not finished, other sizes, older tables), directories listed in any order, failing and torn operations, kills and repeats; non-trivial: a fault fired or the program ran to an end',
 'A02': 'as A01, with the profiles', 'A03': 'seeded tables of means of the six sizes (ties, percentages, p-values on both sides of the limit and none), older tables, faults as A01; non-trivial: as A01',
 'A04': 'seeded datasets solved in both modes by the driver and the real solver in its own simulation (slow clocks that cut it short), then analysed; non-trivial: a solver ran or a fault fired',
 'T01': 'seeded files of samples, sizes of the validation set, names and earlier splits, failing and torn operations, kills and repeats; non-trivial: as A01',
 'T02': 'seeded training samples, batch sizes, numbers of neighbours and shuffles, failing and short reads; non-trivial: as A01',
 'T03': 'seeded TSPLIB files (several at once, listed in any order, whole or cut, any spacing), other files next to them, failing and torn operations, kills and repeats; non-trivial: as A01',
 'T04': 'seeded draws and answers of the exact solver, its failures, earlier files, failing and torn operations, kills and repeats; non-trivial: as A01', 'T05': 'as T04, for the reference solutions',
 'N01': 'seeded instance, model size, dummy draws, medoids, network outputs; non-trivial: the network ran',
 'N02': 'as N01; written probabilities compared with the network\'s outputs; non-trivial: the network ran',
 'N03': 'failing, torn and last operations of the network step, incomplete inputs; non-trivial: the network ran or a fault fired',
}
CASSUME = ['one simulated run is one process: the solver has no threads', 'instances whose optimum is not decided within the event budget are compared with what is known about them only', 'x86-64, the clang of this sandbox, -O3']
PASSUME = ['durable means: synced after the last write; the simulator keeps what was written before a kill, torn at the chosen byte', 'torch and the trained network are stand-ins: the property is about what is done with their output']

checks = {}
for p, rate in RATE.items():
    c = p[0] in 'CL'
    share = dict(CSHARE, **EXTRA.get(p, {})) if p[0] == 'C' else LSHARE if p[0] == 'L' else PSHARE
    share = {g: share[g] for g in rate if g in share}
    tot = sum(share.values())
    entry = {'engine': 'c' if c else 'py', 'rule': RULE[p], 'measure': LMEAS if p[0] == 'L' else CMEAS if c else PMEAS, 'real': TREAL if p[0] in 'AT' else LREAL if p[0] == 'L' else CREAL if c else PREAL, 'stub': TSTUB if p[0] in 'AT' else LSTUB if p[0] == 'L' else CSTUB if c else PSTUB, 'assumptions': LASSUME if p[0] == 'L' else CASSUME if c else PASSUME}
    if p in ('D01', 'D07', 'A04'):
        entry['solvers'] = [['%d%s' % (n, m), '%d%sp' % (n, m)] for n in ((5, 6) if p != 'D07' else (3, 4, 5, 6, 7, 8)) for m in 'ch']
    for tier, secs in (('quick', QUICK), ('thorough', THOROUGH)):
        plan = []
        for g, s in share.items():
            n = sig(rate[g] * secs * MORE.get(p, 1) * s / tot)
            if n < 1:
                continue
            chunk = max(1, min(n, int(rate[g] * (2.0 if tier == 'quick' else 20))))
            plan.append([g, n, chunk])
        entry[tier] = plan
    checks[p] = entry
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'checks.json'), 'w') as f:
    json.dump(checks, f, indent=1)
    f.write('\n')

CNOTE = ('Seeded search over instances, clock histories and faults in which the real, unmodified solver runs inside the simulator; a violation is minimised and must replay identically in a fresh process. '
         'It is a search: a violation that needs an instance or schedule not drawn is missed. ')
LNOTE = ('Seeded search over operation histories and faults, executed by the real, unmodified functions inside the simulation (own heap with guard bytes, also sanitizer builds); a violation is minimised and must replay identically in a fresh process. '
         'It is a search: a violation that needs a history not drawn is missed. ')
PNOTE = ('Seeded search over datasets, histories, operations and faults in which the real, unmodified Python programs run inside the simulator; a violation is minimised and must replay identically in a fresh process. '
         'It is a search: a violation that needs a case not drawn is missed. Build tools, solver and neural network are stand-ins. ')
TNOTE = PNOTE.replace('Build tools, solver and neural network are stand-ins. ', 'Packages that are not installed are stand-ins. ')
NOTE = {
 'C01': 'Oracle: the tour against the matrix file.', 'C02': 'Oracle: cost and mean probability recomputed from the matrix file.',
 'C03': 'Oracle: Held-Karp dynamic program. Builds of 5 to 20 cities, and one of 100 with instances of up to 20.',
 'C04': 'Oracle: the recorded clock history of the run.', 'C05': 'Oracle: recorded clock history against a run of the same instance that is not cut short.',
 'C06': 'Oracle: nearest- and most-probable-neighbour tours recomputed.', 'C07': 'Oracle: runs of one instance in different environments against each other.',
 'C08': 'Oracle: which files are whole is known from how they were made; ambiguous damage is not judged.', 'C09': 'Oracle: what the simulated disk accepted.',
 'C10': 'Oracle: exit status, report and memory discipline.', 'C11': 'Oracle: guarded heap with poisoned contents, signals, stack limit, AddressSanitizer, UBSan.',
 'C12': 'Oracle: the allocator\'s and file layer\'s books.', 'C13': 'Oracle: exhaustive search for a Hamiltonian cycle.', 'C14': 'Oracle: the recorded clock history.',
 'C15': 'Oracle: arithmetic of search trees, the build.', 'C16': 'Oracle: one-trees recomputed for every vertex.', 'C17': 'Oracle: the run on the other file.', 'C18': 'Oracle: the waiting subproblems themselves, looked at by an observer linked between branch and bound and its list.',
 'L01': 'Oracle: a sorted map.', 'L02': 'Oracle: a vector.', 'L03': 'Oracle: a partition.', 'L04': 'Oracle: the graph as given, a reference spanning forest.', 'L05': 'Oracle: a strict second reader; files it finds unclear are not judged.',
 'L06': 'Oracle: a reference one-tree and a reference search for a cycle.', 'L07': 'Oracle: all tours of up to 8 cities, listed.', 'L08': 'Oracle: a vector.', 'L09': 'Oracle: the structures themselves, read field by field.',
 'D01': 'Oracle: reference model of the driver.', 'D02': 'Oracle: recorded history of steps.', 'D03': 'Oracle: an undisturbed run.', 'D04': 'Oracle: the matrix recomputed.',
 'D05': 'Oracle: an undisturbed run.', 'D06': 'Oracle: recorded history of builds.', 'D07': 'Oracle: Held-Karp on the cities of the dataset.', 'D08': 'Oracle: an undisturbed run; results finished before the cut.', 'D09': 'Oracle: simulated time between the recorded steps.', 'A01': 'Oracle: the metrics recomputed from the files; scipy\'s test on the same pairs.', 'A02': 'Oracle: the profiles recomputed at every time.', 'A03': 'Oracle: the means in the tables read back.', 'A04': 'Oracle: a strict second reader of the reports.',
 'T01': 'Oracle: the samples.', 'T02': 'Oracle: the samples.', 'T03': 'Oracle: the distances recomputed.', 'T04': 'Oracle: what the exact solver was asked and answered.', 'T05': 'Oracle: what the exact solver was asked and answered.', 'N01': 'Oracle: the instance.', 'N02': 'Oracle: the stand-in network\'s output table.', 'N03': 'Oracle: recorded history of writes and syncs, an undisturbed run.',
}
manifest = {'version': 1, 'setup_cmd': 'python3 setup.py',
            'hooks': {'guard': 'none', 'enable': 'No hook is in /repo: the C seams are made by renaming the library calls in the compiled objects (objcopy), the Python seams by replacing library functions before the program is executed.', 'source_commits': []},
            'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p, 'evidence_file': 'evidence/%s.json' % p,
                        'technique': 'deterministic simulation with fault injection', 'level': 'exploration', 'level_note': (LNOTE if p[0] == 'L' else CNOTE if p[0] == 'C' else TNOTE if p[0] in 'AT' else PNOTE) + NOTE[p]} for p in sorted(RATE, key=lambda p: ('CLDNAT'.index(p[0]), p))],
            'not_applicable': []}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
