BB = 'algorithms/branch_and_bound.c'
RD = 'tsp_instance_reader.c'
HEAD = '''
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from demolib import *


def points(rng, n):
    return [(rng.random(), rng.random()) for _ in range(n)]


def probs(rng, n):
    p = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            p[i][j] = p[j][i] = round(rng.random(), 6)
    return p


def hints(rng, w):
    """Probabilities that mostly follow a good tour."""
    n = len(w)
    p = probs(rng, n)
    tours = []
    for _ in range(300):
        o = list(range(n))
        rng.shuffle(o)
        better = True
        while better:
            better = False
            for i in range(n - 1):
                for j in range(i + 2, n):
                    a, b, c, d = o[i], o[i + 1], o[j], o[(j + 1) % n]
                    if a != d and w[a][c] + w[b][d] < w[a][b] + w[c][d] - 1e-12:
                        o[i + 1:j + 1] = o[i + 1:j + 1][::-1]
                        better = True
        tours.append((sum(w[o[i - 1]][o[i]] for i in range(n)), o))
    o = sorted(tours)[rng.choice([0, 0, 0, 50])][1]
    for i in range(n):
        for j in range(i):
            p[i][j] = p[j][i] = p[i][j] / 2
    for i in range(n):
        if rng.random() < 0.9:
            p[o[i - 1]][o[i]] = p[o[i]][o[i - 1]] = 0.5 + round(rng.random() / 2, 6)
    return p


def narrow(rng, n):
    """Distances that leave the search much to do."""
    w = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = 0.3 + rng.random() * 0.3
    return w

'''
BUGS = []


def bug(id, property, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=HEAD + demo, **kw))


bug('C01-zero-distance', 'C01', [(RD, 'if (weight > 0) {', 'if (weight >= 0) {')],
    'a matrix with zero distances, i.e. missing edges', 'pairs without an edge become free edges and are used by tours',
    '''
exe = solver(7, 0)
bad = 0
for seed in range(60):
    rng = random.Random(seed)
    w = euclid(points(rng, 7))
    for _ in range(rng.randrange(1, 4)):
        i, j = rng.sample(range(7), 2)
        w[i][j] = w[j][i] = 0.0
    r = run(exe, matrix(w))
    if r.code == 0 and not is_tour(r.cycle, w):
        bad += 1
end(bad, '%d reports use a missing edge' % bad)
''')

bug('C01-hybrid-start-cycle', 'C01', [(BB, '''            cycleEdge.src = current_node;
                cycleEdge.dest = start_node;
                prob_nn_subProblem.cycleEdges[prob_nn_subProblem.num_edges_in_cycle] = cycleEdge;''',
 '''            cycleEdge.dest = start_node;
                prob_nn_subProblem.cycleEdges[prob_nn_subProblem.num_edges_in_cycle] = cycleEdge;''')],
    'hybrid mode, and a search that the clock stops while the most-probable-neighbour tour is the best known',
    'the closing edge of the starting tour keeps the source of the edge before it',
    '''
exe = solver(9, 1)
bad = 0
for seed in range(80):
    rng = random.Random(seed)
    w = euclid(points(rng, 9))
    r = run(exe, matrix(w, hints(rng, w)), CLOCK_AT=rng.randrange(8, 12), CLOCK_JUMP=700000000)
    if r.code == 0 and not is_tour(r.cycle, w):
        bad += 1
end(bad, '%d reports are no tour' % bad)
''')

bug('C02-hybrid-start-prob', 'C02', [(BB, 'prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;', 'prob_nn_subProblem.prob = nn_subProblem.oneTree.prob;')],
    'hybrid mode, search stopped while the most-probable-neighbour tour is the best known', 'the probability of another tour is reported',
    '''
exe = solver(9, 1)
bad = 0
for seed in range(80):
    rng = random.Random(seed)
    w = euclid(points(rng, 9))
    p = hints(rng, w)
    r = run(exe, matrix(w, p), CLOCK_AT=rng.randrange(8, 12), CLOCK_JUMP=700000000)
    if r.code == 0 and abs(length(r.cycle, p) / 9 - r.prob) > 1e-5:
        bad += 1
end(bad, '%d wrong probabilities' % bad)
''')

bug('C02-tour-sum', 'C02', [(BB, '''analyzedSubProblem.value += problem->graph.edges_matrix[edge->src][edge->dest].weight;''',
 '''analyzedSubProblem.value += iter <= k ? problem->graph.edges_matrix[edge->src][edge->dest].weight : edge->weight - pi[edge->src] - pi[edge->src];''')],
    'a tour found by a late dual iteration', 'the dual variables are taken off the wrong way round, so the reported cost is not the one of the tour',
    '''
exe = solver(12, 0)
bad = 0
for seed in range(80):
    rng = random.Random(seed)
    w = euclid(points(rng, 12))
    r = run(exe, matrix(w))
    if r.code == 0 and abs(length(r.cycle, w) - r.cost) > 1e-5:
        bad += 1
end(bad, '%d wrong costs' % bad)
''')

bug('C03-fixing', 'C03', [(BB, 'if (first_candidate_edge_weight > second_candidate_edge_weight){', 'if (first_candidate_edge_weight < second_candidate_edge_weight){')],
    'an edge at the candidate vertex whose exchange with the shorter one looks too expensive but with the longer one is not',
    'variable fixing forbids edges that belong to the best tour',
    '''
bad = 0
for n in (8, 10, 12):
    exe = solver(n, 0)
    for seed in range(500):
        rng = random.Random(seed)
        w = euclid(points(rng, n)) if seed % 2 else narrow(rng, n)
        r = run(exe, matrix(w))
        if r.code == 0 and r.interrupted == 'FALSE' and r.cost > best(w) + r.eps + 2e-6:
            bad += 1
            break
end(bad, '%d searches missed the optimum' % bad)
''')

bug('C03-heap-min', 'C03', [('data_structures/fibonacci_heap.c', '''            cascading_cut(heap, parent);
        }
        if(node->value < heap->min_root->value){''', '''            cascading_cut(heap, parent);
        } else if(node->value < heap->min_root->value){''')],
    'a decreased key that leaves its father and becomes the smallest of the heap', 'the heap forgets its new minimum: spanning trees are not minimal, bounds too high',
    '''
bad = 0
for n in (9, 12):
    exe = solver(n, 0)
    for seed in range(300):
        rng = random.Random(seed)
        w = euclid(points(rng, n))
        if seed % 2:
            for i in range(n):
                for j in range(i):
                    w[i][j] = w[j][i] = rng.uniform(0.05, 1)
        r = run(exe, matrix(w))
        if r.code == 0 and r.interrupted == 'FALSE' and r.cost > best(w) + r.eps + 2e-6:
            bad += 1
            break
end(bad, '%d searches missed the optimum' % bad)
''')

bug('C03-kruskal-positions', 'C03', [('algorithms/kruskal.c', '''
    graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
    graph->edges_matrix[edges[swap_2].dest][edges[swap_2].src].positionInGraph = swap_1;
''', '''
    if (edges[swap_1].weight != edges[swap_2].weight) {
        graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
        graph->edges_matrix[edges[swap_2].dest][edges[swap_2].src].positionInGraph = swap_1;
    }
''')],
    'the Kruskal build, and edges of exactly the same weight', 'the matrix names the wrong edges after sorting, so one-trees get wrong edges at the candidate',
    '''
bad = 0
for n in (7, 8):
    exe = solver(n, 0, prim=False)
    for seed in range(300):
        rng = random.Random(seed)
        w = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                w[i][j] = w[j][i] = rng.choice([0.2, 0.3, 0.5, 0.8, 0.9])
        r = run(exe, matrix(w), timeout=20)
        if r.code != 0 or not is_tour(r.cycle, w) or r.interrupted == 'FALSE' and r.cost > best(w) + r.eps + 2e-6:
            bad += 1
            break
end(bad, '%d searches went wrong' % bad)
''')

bug('C04-wrap', 'C04', [(BB, 'return ((clock() - problem->start) / CLOCKS_PER_SEC) > TIME_LIMIT_SECONDS;', 'return ((int) (clock() - problem->start) / (int) CLOCKS_PER_SEC) > TIME_LIMIT_SECONDS;')],
    'processor clock that passes 2147 s between two checks (a slow subproblem)', 'the elapsed time wraps to a negative number and the search goes on',
    '''
exe = solver(14, 0)
bad = 0
for seed in range(25):
    rng = random.Random(seed)
    w = narrow(rng, 14)
    full = run(exe, matrix(w))
    r = run(exe, matrix(w), CLOCK_AT=20, CLOCK_JUMP=rng.choice([700, 2200, 3000, 4000]) * 1000000)
    if full.explored and full.explored > 8 and (r.interrupted != 'TRUE' or r.explored > 4):
        bad += 1
end(bad, '%d searches went on after the limit' % bad)
''')

bug('C04-sampled', 'C04', [(BB, 'while (subProblems.size != 0 && !time_limit_reached()) {', 'while (subProblems.size != 0 && (problem->exploredBBNodes % 8 != 0 || !time_limit_reached())) {')],
    'the limit passing between two of the sampled checks', 'up to seven more subproblems are explored after the limit',
    '''
exe = solver(14, 0)
bad = 0
for seed in range(40):
    rng = random.Random(seed)
    w = narrow(rng, 14)
    full = run(exe, matrix(w), LOG=1)
    if not full.explored or full.explored < 8 or len(full.clock) < 30:
        continue
    for at in (22, 24, 26, 28):
        r = run(exe, matrix(w), LOG=1, CLOCK_AT=at, CLOCK_JUMP=700000000)
        late = len([1 for _, t in r.clock if t >= 700000000])
        if r.code == 0 and late > 6:
            bad += 1
end(bad, '%d searches went on after the limit' % bad)
''')

bug('C05-lost-last', 'C05', [(BB, '''        while (subProblems.size != 0 && !time_limit_reached()) {
            SubProblem current_sub_problem = *get_SubProblemList_elem_index(&subProblems, 0);
            delete_SubProblemList_elem_index(&subProblems, 0);
''', '''        while (subProblems.size != 0) {
            SubProblem current_sub_problem = *get_SubProblemList_elem_index(&subProblems, 0);
            delete_SubProblemList_elem_index(&subProblems, 0);
            if (time_limit_reached()) {
                break;
            }
''')],
    'the limit passing while exactly one subproblem is waiting', 'the last waiting subproblem is dropped and the report says interrupted = FALSE',
    '''
exe = solver(10, 0)
bad = 0
for seed in range(20):
    rng = random.Random(seed)
    w = euclid(points(rng, 10))
    full = run(exe, matrix(w))
    r = run(exe, matrix(w), CLOCK_AT=12, CLOCK_JUMP=700000000)
    if full.code == 0 and r.code == 0 and r.explored < full.explored and r.interrupted != 'TRUE':
        bad += 1
end(bad, '%d cut searches are not flagged' % bad)
''')

bug('C06-start-cities', 'C06', [(BB, '''        nearest_prob_neighbour(i);

        if(PRIM){''', '''        if(PRIM){'''), (BB, '''            best_candidate = i;
            best_subProblem.value''', '''            nearest_prob_neighbour(i);
            best_candidate = i;
            best_subProblem.value''')],
    'a search stopped early (or a nearest-neighbour tour no search beats) whose best start city is no better candidate', 'most starting cities are not tried',
    '''
exe = solver(10, 0)
bad = 0
for seed in range(80):
    rng = random.Random(seed)
    w = euclid(points(rng, 10))
    r = run(exe, matrix(w), CLOCK_AT=3, CLOCK_JUMP=700000000)
    starts = []
    for s in range(10):
        c, seen, t = s, {s}, 0
        while len(seen) < 10:
            d = min((j for j in range(10) if j not in seen), key=lambda j: w[c][j])
            t += w[c][d]
            seen.add(d)
            c = d
        starts.append(t + w[c][s])
    if r.code == 0 and r.cost > min(starts) + 2e-6:
        bad += 1
end(bad, '%d reports are worse than a nearest-neighbour tour' % bad)
''')

bug('C06-better-prob', 'C06', [(BB, 'bool better_prob = prob_nn_subProblem.value < nn_subProblem.value;', 'bool better_prob = prob_nn_subProblem.value < nn_subProblem.value + EPSILON && prob_nn_subProblem.prob > nn_subProblem.prob;')],
    'hybrid mode, the two starting tours within the tolerance of each other (or the cheaper one less probable), search stopped early',
    'the starting tour is no longer the cheapest one',
    '''
exe = solver(8, 1)
bad = 0
for seed in range(200):
    rng = random.Random(seed)
    w = [[0.3 + (x - 0.3) / 100 if x else 0.0 for x in row] for row in narrow(rng, 8)]
    p = hints(rng, w)
    r = run(exe, matrix(w, p), CLOCK_AT=10, CLOCK_JUMP=700000000)
    starts = []
    for s in range(8):
        for key in (lambda a, b: w[a][b], lambda a, b: -p[a][b]):
            c, seen, t = s, {s}, 0
            while len(seen) < 8:
                d = min((j for j in range(8) if j not in seen), key=lambda j: key(c, j))
                t += w[c][d]
                seen.add(d)
                c = d
            starts.append(t + w[c][s])
    if r.code == 0 and r.cost > min(starts) + 2e-6:
        bad += 1
end(bad, '%d reports are worse than a starting tour' % bad)
''')

bug('C07-adaptive', 'C07', [(BB, 'int max_iter = currentSubProb->treeLevel == 1 ? (int) NUM_HK_INITIAL_ITERATIONS : (int) NUM_HK_ITERATIONS;',
 'int max_iter = currentSubProb->treeLevel == 1 || currentSubProb->timeToReach < TIME_LIMIT_SECONDS / 2 ? (int) NUM_HK_INITIAL_ITERATIONS : (int) NUM_HK_ITERATIONS;'),
 ],
    'processor time beyond half the limit', 'the number of dual iterations depends on the clock, so a slow machine explores another tree',
    '''
exe = solver(12, 0)
bad = 0
for seed in range(40):
    rng = random.Random(seed)
    w = euclid(points(rng, 12))
    a = run(exe, matrix(w))
    b = run(exe, matrix(w), CLOCK_AT=16, CLOCK_JUMP=400000000)
    if a.interrupted == b.interrupted == 'FALSE' and normal(a.text) != normal(b.text):
        bad += 1
end(bad, '%d reports depend on the clock' % bad)
''')

bug('C07-uninit', 'C07', [(BB, '''        double v_old[MAX_VERTEX_NUM] = {0};''', '''        double *v_old = malloc(sizeof(double) * MAX_VERTEX_NUM);
        if (currentSubProb->treeLevel == 1) {
            memset(v_old, 0, sizeof(double) * MAX_VERTEX_NUM);
        }'''), (BB, '''        currentSubProb->type = best_subproblem.type;
        currentSubProb->value''', '''        free(v_old);
        currentSubProb->type = best_subproblem.type;
        currentSubProb->value''')],
    'memory that is not zero when it is handed out again', 'the dual ascent of every subproblem but the root starts from whatever was in memory',
    '''
exe = solver(12, 0)
bad = 0
for seed in range(60):
    rng = random.Random(seed)
    w = euclid(points(rng, 12))
    texts = {normal(run(exe, matrix(w), timeout=30, FILL=f).text) for f in (0, 64, 191)}
    if len(texts) != 1:
        bad += 1
end(bad, '%d reports depend on the contents of fresh memory' % bad)
''')

bug('C09-clearerr', 'C09', [(BB, '''                            printf("Updated best value: %f, at time: %f\\n", problem->bestValue, ((float) (clock() - problem->start)) / CLOCKS_PER_SEC);''',
 '''                            // progress is best effort: do not let it spoil the report
                            float found = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
                            printf("Updated best value: %f, at time: %f\\n", problem->bestValue, found);
                            fflush(stdout);
                            clearerr(stdout);''')],
    'a write that fails while progress is logged, and a disk that works again afterwards', 'the error is forgotten: exit status 0 although part of the report is lost',
    '''
import ctypes, subprocess
# the output goes to a pipe-like file whose first write fails: a wrapped write()
SH = open(os.path.join(SCRATCH, 'w.c'), 'w')
SH.write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
    static int k;
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    const char *s = getenv("FAIL_WRITE");
    if (s && fd == 1 && ++k == atoi(s)) { errno = EIO; return -1; }
    return real(fd, b, n);
}
""")
SH.close()
# stdio calls write() inside libc: reach it by an unbuffered cookie stream standing for the file
main_c = open(os.path.join(SRC, 'main', 'main.c')).read()
text = r"""
#define _GNU_SOURCE
#include <stdio.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
static FILE *target; static int writes;
static ssize_t put(void *c, const char *b, size_t n) { if (++writes == atoi(getenv("FAIL_WRITE"))) { errno = EIO; return 0; } size_t r = fwrite(b, 1, n, target); fflush(target); return r; }
static int done(void *c) { return fclose(target); }
static FILE *reopen(const char *name, const char *mode, FILE *old) {
    target = fopen(name, "w");
    cookie_io_functions_t f = {0, put, 0, done};
    FILE *s = fopencookie(NULL, "w", f);
    stdout = s;
    return s;
}
"""
marked = text + re.sub(r'freopen\\(', 'reopen(', main_c)
exe = solver(9, 0, main=marked, wraps=[])
bad = 0
for seed in range(20):
    rng = random.Random(seed)
    w = euclid(points(rng, 9))
    os.environ['FAIL_WRITE'] = '0'
    good = run(exe, matrix(w))
    for k in ('1', '2'):
        os.environ['FAIL_WRITE'] = k
        r = run(exe, matrix(w))
        if good.code == 0 and r.code == 0 and normal(r.text) != normal(good.text):
            bad += 1
end(bad, '%d runs lost part of the report and exited with 0' % bad)
''')

bug('C10-skip-child', 'C10', [(BB, '''        if(infer_constraints(&child)){
            long position = -1;
''', '''        void *volatile room = malloc(sizeof(SubProblemElem)); // short of memory: do without this child
        free(room);
        if(room != NULL && infer_constraints(&child)){
            long position = -1;
''')],
    'an allocation that fails once, in the branching step', 'a subproblem is dropped silently and the search is reported as complete',
    '''
exe = solver(8, 0)
bad = 0
for seed in range(20):
    rng = random.Random(seed)
    w = narrow(rng, 8)
    full = run(exe, matrix(w))
    total = full.books['allocations']
    for k in sorted({rng.randrange(1, total + 1) for _ in range(150)}):
        r = run(exe, matrix(w), ALLOC_FAIL=k)
        if r.code == 0 and normal(r.text) != normal(full.text):
            bad += 1
            break
    if bad:
        break
end(bad, '%d other reports after a failed allocation' % bad)
''')

bug('C11-use-after-free', 'C11', [(BB, '''            SubProblem current_sub_problem = *get_SubProblemList_elem_index(&subProblems, 0);
            delete_SubProblemList_elem_index(&subProblems, 0);
            bound(&current_sub_problem);
            if (current_sub_problem.type == OPEN && current_sub_problem.edge_to_branch != -1) {
                problem->num_fixed_edges += variable_fixing(&current_sub_problem);
                branch(&subProblems, &current_sub_problem);
            }''', '''            SubProblem *waiting = get_SubProblemList_elem_index(&subProblems, 0);
            SubProblem current_sub_problem = *waiting;
            delete_SubProblemList_elem_index(&subProblems, 0);
            bound(&current_sub_problem);
            if (current_sub_problem.type == OPEN && current_sub_problem.edge_to_branch != -1) {
                problem->num_fixed_edges += variable_fixing(&current_sub_problem);
                branch(&subProblems, &current_sub_problem);
            } else if (waiting->type != OPEN) {
                problem->num_fixed_edges++;
            }''')],
    'a subproblem that is closed by its bound', 'an element of the list is read after it was freed',
    '''
exe = solver(9, 0, flags=['-fsanitize=address', '-g'], wraps=[])
os.environ['ASAN_OPTIONS'] = 'detect_leaks=0'
bad = 0
for seed in range(10):
    rng = random.Random(seed)
    r = run(exe, matrix(euclid(points(rng, 9))))
    if 'AddressSanitizer' in r.err:
        bad += 1
end(bad, '%d runs misuse memory' % bad)
''')

bug('C11-replacement-costs', 'C11', [(BB, 'double replacement_costs [MAX_VERTEX_NUM - 2];', 'double replacement_costs [MAX_VERTEX_NUM - 3];'),
  (BB, 'for (int i = 0; i < MAX_VERTEX_NUM - 2; i++){\n        replacement_costs[i] = INFINITE;', 'for (int i = 0; i < MAX_VERTEX_NUM - 3; i++){\n        replacement_costs[i] = INFINITE;')],
    'a full-size instance whose last tree edge can be replaced', 'one element beyond the array is read and written',
    '''
exe = solver(9, 0, flags=['-fsanitize=address', '-g'], wraps=[])
os.environ['ASAN_OPTIONS'] = 'detect_leaks=0'
bad = 0
for seed in range(30):
    rng = random.Random(seed)
    r = run(exe, matrix(euclid(points(rng, 9))))
    if 'AddressSanitizer' in r.err:
        bad += 1
end(bad, '%d runs misuse memory' % bad)
''')

bug('C12-interrupted', 'C12', [(BB, """        problem->end = clock();
        delete_SubProblemList(&subProblems);""", """        problem->end = clock();
        if (subProblems.size == 0) {
            delete_SubProblemList(&subProblems);
        } else {
            subProblems.head = subProblems.tail = NULL; // the process is about to end
        }""")],
    'a search that the time limit stops', 'the waiting subproblems are not released',
    '''
exe = solver(10, 0)
bad = 0
for seed in range(20):
    rng = random.Random(seed)
    r = run(exe, matrix(narrow(rng, 10)), CLOCK_AT=rng.randrange(13, 20), CLOCK_JUMP=700000000)
    if r.code == 0 and r.books['live'] > 0:
        bad += 1
end(bad, '%d runs left blocks behind' % bad)
''')

bug('C12-iterator', 'C12', [(BB, '''                if (compare_subproblems(&child, open_subProblem)) {
                    position = (long) j;
                }
            }
            delete_SubProblemList_iterator(subProblem_iterators);
            if (position == -1) {
                add_elem_SubProblemList_bottom(openSubProblems, &child);
            } else {''', '''                if (compare_subproblems(&child, open_subProblem)) {
                    position = (long) j;
                }
            }
            if (position == -1) {
                delete_SubProblemList_iterator(subProblem_iterators);
                add_elem_SubProblemList_bottom(openSubProblems, &child);
            } else {''')],
    'a child that is put before another waiting subproblem', 'the iterator is not released on that path',
    '''
exe = solver(13, 0)
bad = 0
for seed in range(40):
    rng = random.Random(seed)
    r = run(exe, matrix(euclid(points(rng, 13))))
    if r.code == 0 and r.books['live'] > 0:
        bad += 1
end(bad, '%d runs left blocks behind' % bad)
''')

bug('C13-third-mandatory', 'C13', [(BB, '''        if (num_mandatory_node == 2) {
            for (short j = 0; j < num_nothing_node; j++) {''', '''        if (num_mandatory_node >= 2 && num_nothing_node == 0) {
            valid = num_mandatory_node < 2;
        } else if (num_mandatory_node == 2) {
            for (short j = 0; j < num_nothing_node; j++) {''')],
    'a vertex both of whose edges are fixed while all others are forbidden, in a graph with few tours', 'feasible subproblems are dropped, so that a graph with a tour is reported without one or with a worse one',
    '''
bad = 0
for n in (12, 14):
    exe = solver(n, 0)
    for seed in range(1500):
        rng = random.Random(seed)
        pts = points(rng, n)
        w = euclid(pts)
        order = list(range(n))
        rng.shuffle(order)
        keep = {frozenset((order[i], order[(i + 1) % n])) for i in range(n)}
        for _ in range(rng.randrange(0, n + 4)):
            keep.add(frozenset(rng.sample(range(n), 2)))
        for i in range(n):
            for j in range(n):
                if frozenset((i, j)) not in keep:
                    w[i][j] = 0.0
        r = run(exe, matrix(w), timeout=20)
        if r.code != 0:
            bad += 1
            break
end(bad, '%d graphs with a tour were not solved' % bad)
''')

bug('C14-offset', 'C14', [(BB, '''    nn_subProblem.edge_to_branch = -1;
    nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;''', '''    nn_subProblem.edge_to_branch = -1;
    nn_subProblem.timeToReach = ((float) clock()) / CLOCKS_PER_SEC;''')],
    'a process that has used processor time before the search begins, and a starting tour as the result', 'the reported time is measured from the start of the process',
    '''
exe = solver(8, 0)
bad = 0
for seed in range(40):
    rng = random.Random(seed)
    w = euclid(points(rng, 8))
    r = run(exe, matrix(w), CLOCK_START=5000000, CLOCK_TICK=1000, CLOCK_AT=10, CLOCK_JUMP=700000000)
    if r.code == 0 and r.reach > r.elapsed + 1e-3 or r.code == 0 and r.level == 0 and r.reach > 1:
        bad += 1
end(bad, '%d wrong times' % bad)
''')

bug('C14-late-start', 'C14', [(BB, '''        problem->start = clock();
        problem->candidateNodeId = find_candidate_node();
''', '''        problem->candidateNodeId = find_candidate_node();
        problem->start = clock();
''')],
    'a choice of the candidate node that takes time (large instances, slow clocks)', 'the time of choosing the candidate and the starting tours is not counted, nor limited',
    '''
exe = solver(8, 0)
bad = 0
for seed in range(20):
    rng = random.Random(seed)
    r = run(exe, matrix(euclid(points(rng, 8))), CLOCK_START=3000000, CLOCK_TICK=1000000, LOG=1)
    if r.code == 0 and abs(r.elapsed - (r.clock[-1][1] - r.clock[0][1]) / 1e6) > 1e-3:
        bad += 1
end(bad, '%d elapsed times do not cover the search' % bad)
''')

bug('C15-generated', 'C15', [(BB, '''        problem->generatedBBNodes++;
        SubProblem child;
''', '''        SubProblem child;
'''), (BB, '''        child.id = problem->generatedBBNodes;
''', '''        child.id = problem->generatedBBNodes + 1;
'''), (BB, '''        if(infer_constraints(&child)){
            long position = -1;
''', '''        if(infer_constraints(&child)){
            problem->generatedBBNodes++;
            long position = -1;
''')],
    'a child that is found infeasible when it is generated', 'only one child of a pair is counted and numbers are used twice',
    '''
bad = 0
for n in (6, 8, 10):
    exe = solver(n, 0)
    for seed in range(300):
        rng = random.Random(seed)
        w = euclid([(rng.randrange(4), rng.randrange(4)) for _ in range(n)]) if seed % 2 else euclid(points(rng, n))
        for i in range(n):
            for j in range(n):
                if i != j:
                    w[i][j] = max(w[i][j], 1e-3)
        if seed % 3 == 0:
            for i in range(n):
                for j in range(i):
                    w[i][j] = w[j][i] = rng.choice([0.2, 0.21, 0.5, 1])
        r = run(exe, matrix(w), timeout=20)
        if r.code == 0 and r.generated % 2 == 0:
            bad += 1
end(bad, '%d reports with an even number of generated subproblems' % bad)
''')

bug('C16-drift', 'C16', [(BB, '''    if (HYBRID) {
        return (a->value - b->value) > EPSILON ||
''', '''    if (HYBRID) {
        return (fabs(a->value - b->value) <= EPSILON && (a->prob - b->prob) >= BETTER_PROB) ||
            (a->value - b->value) > EPSILON ||
''')],
    'hybrid mode and a chain of candidates, each a little worse and more probable than the one before', 'the bound of the chosen candidate drifts away from the best one by more than the tolerance',
    '''
def onetree(w, v):
    n = len(w)
    rest = [i for i in range(n) if i != v]
    tree, cost, left = {rest[0]}, 0, set(rest[1:])
    while left:
        d, j = min((w[a][b], b) for a in tree for b in left)
        cost += d
        tree.add(j)
        left.discard(j)
    return cost + sum(sorted(w[v][j] for j in rest)[:2])


n = 14
exe = solver(n, 1)
bad = 0
for seed in range(400):
    rng = random.Random(seed)
    w = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = 0.3 + rng.random() * 0.02
    r = run(exe, matrix(w, probs(rng, n)), CLOCK_AT=16, CLOCK_JUMP=700000000)
    if r.code == 0 and onetree(w, r.candidate) < max(onetree(w, v) for v in range(n)) - r.eps - 1e-9:
        bad += 1
end(bad, '%d candidates are not the best' % bad)
''')

bug('C17-leftmost', 'C17', [(BB, '''                if (problem->graph.edges_matrix[current_node][problem->graph.nodes[current_node].neighbours[i]].weight <
                    best_edge_value
''', '''                if ((problem->graph.edges_matrix[current_node][problem->graph.nodes[current_node].neighbours[i]].weight <
                    best_edge_value ||
                    (problem->graph.edges_matrix[current_node][problem->graph.nodes[current_node].neighbours[i]].weight == best_edge_value &&
                     problem->graph.nodes[problem->graph.nodes[current_node].neighbours[i]].x < problem->graph.nodes[best_neighbour].x))
''')],
    'equal distances, and a result that is a starting tour', 'ties of the nearest-neighbour rule are broken by the coordinates',
    '''
exe = solver(8, 0)
bad = 0
for seed in range(60):
    rng = random.Random(seed)
    n = 8
    w = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = rng.choice([0.2, 0.3, 0.4])
    a = run(exe, matrix(w, coords=points(rng, n)), CLOCK_AT=10, CLOCK_JUMP=700000000)
    b = run(exe, matrix(w, coords=points(rng, n)), CLOCK_AT=10, CLOCK_JUMP=700000000)
    if normal(a.text) != normal(b.text):
        bad += 1
end(bad, '%d pairs of reports differ' % bad)
''')

WATCH = """
WATCH = r'''
#include <math.h>
void __real_delete_SubProblemList_elem_index(SubProblemsList *list, size_t k);
void __wrap_delete_SubProblemList_elem_index(SubProblemsList *list, size_t k) {
    SubProblemElem *t = list->head;
    for (size_t i = 0; t && i < k; i++) t = t->next;
    for (SubProblemElem *e = list->head; e && t; e = e->next) {
        double v = t->subProblem.value - e->subProblem.value;
        if (v > 1.001 * 1.27e-3 * sqrt(MAX_VERTEX_NUM) || (HYBRID && v >= 0 && e->subProblem.prob - t->subProblem.prob > 0.0501)) { fprintf(stderr, "A BETTER ONE WAITS\\\\n"); break; }
    }
    __real_delete_SubProblemList_elem_index(list, k);
}
'''


def watched(n, hybrid):
    return solver(n, hybrid, wraps=WRAPS + ['delete_SubProblemList_elem_index'], main=open(os.path.join(SRC, 'main', 'main.c')).read() + WATCH)


def try_all(n, hybrid, seeds, draw):
    exe = watched(n, hybrid)
    bad = 0
    for seed in range(seeds):
        rng = random.Random(seed)
        w, p = draw(rng, n)
        r = run(exe, matrix(w, p), CLOCK_TICK=1000000)
        bad += 'A BETTER ONE WAITS' in r.err
    end(bad, 'in %d runs a better subproblem had to wait' % bad)


def near(rng, n):
    w = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = 0.3 + rng.random() * 0.02
    return w, probs(rng, n)


def plane(rng, n):
    w = euclid(points(rng, n))
    return w, hints(rng, w) if n <= 14 else probs(rng, n)

"""

bug('C18-keep-head', 'C18', [(BB, '''            for (size_t j = 0; j < openSubProblems->size && position == -1; j++) {
                SubProblem *open_subProblem = SubProblemList_iterator_get_next(subProblem_iterators);
                if (compare_subproblems(&child, open_subProblem)) {
''', '''            for (size_t j = 0; j < openSubProblems->size && position == -1; j++) {
                SubProblem *open_subProblem = SubProblemList_iterator_get_next(subProblem_iterators);
                if ((j > 0 || openSubProblems->size == 1) && compare_subproblems(&child, open_subProblem)) {
''')], 'a child better than the best of several waiting subproblems', 'the head of the waiting list is never displaced once two subproblems wait',
    WATCH + '''
try_all(12, 0, 40, plane)
''')

bug('C18-tail', 'C18', [(BB, '''            long position = -1;

            SubProblemsListIterator''', '''            long position = -1;
            bool last = openSubProblems->tail != NULL && !compare_subproblems(&child, &openSubProblems->tail->subProblem);

            SubProblemsListIterator'''), (BB, '''            for (size_t j = 0; j < openSubProblems->size && position == -1; j++) {
                SubProblem *open_subProblem = SubProblemList_iterator_get_next(subProblem_iterators);
''', '''            for (size_t j = 0; !last && j < openSubProblems->size && position == -1; j++) {
                SubProblem *open_subProblem = SubProblemList_iterator_get_next(subProblem_iterators);
''')], 'waiting subproblems whose values differ by less than the tolerance', 'a child that is not better than the last waiting one is put behind it, although it may be better than one before',
    WATCH + '''
try_all(12, 0, 120, near)
''')

bug('C18-dive', 'C18', [(BB, '''                if (compare_subproblems(&child, open_subProblem)) {
                    position = (long) j;
''', '''                if (compare_subproblems(&child, open_subProblem) ||
                    (HYBRID && i == 0 && prob_edge >= PROB_BRANCH && j == 0 && child.value - open_subProblem->value < 2 * EPSILON)) {
                    position = (long) j;
''')], 'hybrid mode, a probable edge, and a waiting subproblem better by a little more than the tolerance', 'the search dives into the child with the probable edge ahead of slightly better subproblems',
    WATCH + '''
try_all(12, 1, 120, near)
''')

bug('C18-near-tie', 'C18', [(BB, '''    if (HYBRID) {
        return (b->value - a->value) > EPSILON ||
''', '''    if (HYBRID) {
        return (fabs(b->value - a->value) <= EPSILON && (a->prob - b->prob) >= BETTER_PROB) ||
               (b->value - a->value) > EPSILON ||
''')], 'hybrid mode, and a chain of waiting subproblems, each within the tolerance of the next', 'more probable subproblems overtake better ones by more than the tolerance',
    WATCH + '''
try_all(12, 1, 120, near)
''')

bug('C18-last-prob', 'C18', [(BB, '''        child.prob = currentSubProblem->prob;
''', '''        child.prob = i == 0 ? currentSubProblem->prob : 0;
'''), (BB, '''        if(infer_constraints(&child)){
            long position = -1;
''', '''        if(infer_constraints(&child)){
            long position = -1;
            double rank = child.prob;
            child.prob = currentSubProblem->prob;
'''), (BB, '''                if (compare_subproblems(&child, open_subProblem)) {
                    position = (long) j;
                }
            }
''', '''                SubProblem ranked = child;
                ranked.prob = rank;
                if (compare_subproblems(&ranked, open_subProblem)) {
                    position = (long) j;
                }
            }
''')], 'hybrid mode and a subproblem of the same or a higher value and lower probability waiting', 'the second child is put in line as if it had probability 0',
    WATCH + '''
try_all(12, 1, 300, near)
''')

bug('C16-tree-prob', 'C16', [(BB, '''        mst_to_one_tree(&currentCandidate, &problem->graph);
        currentCandidate.value = currentCandidate.oneTree.cost;
        currentCandidate.prob = currentCandidate.oneTree.prob;
''', '''        currentCandidate.prob = currentCandidate.oneTree.prob;
        mst_to_one_tree(&currentCandidate, &problem->graph);
        currentCandidate.value = currentCandidate.oneTree.cost;
''')], 'hybrid mode and several vertices with the same bound', 'the probability compared is that of the spanning tree without the two edges of the vertex', '''
def onetree(w, p, v):
    n = len(w)
    rest = [i for i in range(n) if i != v]
    tree, cost, prob, left = {rest[0]}, 0, 0, set(rest[1:])
    while left:
        d, a, j = min((w[a][b], a, b) for a in tree for b in left)
        cost += d
        prob += p[a][j]
        tree.add(j)
        left.discard(j)
    two = sorted((w[v][j], j) for j in rest)[:2]
    return cost + sum(d for d, _ in two), (prob + sum(p[v][j] for _, j in two)) / n


n = 6
exe = solver(n, 1)
bad = 0
for seed in range(600):
    rng = random.Random(seed)
    ds = rng.sample(range(64, 84), 15)
    w = [[0.0] * n for _ in range(n)]
    p = probs(rng, n)
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = ds.pop() / 128
    r = run(exe, matrix(w, p), CLOCK_AT=8, CLOCK_JUMP=700000000)
    if r.code == 0:
        c, q = onetree(w, p, r.candidate)
        bad += any(x >= c and y > q + 0.0501 for x, y in (onetree(w, p, v) for v in range(n)))
end(bad, '%d candidates are less probable than another vertex with the same bound' % bad)
''')

WAITING = r'''
#include "algorithms/branch_and_bound.h"
void __real_delete_SubProblemList(SubProblemsList *list);
static SubProblemsList *last;
void __real_delete_SubProblemList_elem_index(SubProblemsList *list, size_t index);
void __wrap_delete_SubProblemList_elem_index(SubProblemsList *list, size_t index) { last = list; __real_delete_SubProblemList_elem_index(list, index); }
void __wrap_delete_SubProblemList(SubProblemsList *list) {
    if (list == last) fprintf(stderr, "LEFT %d\n", (int) list->size);
    __real_delete_SubProblemList(list);
}
'''

bug('C05-node-budget', 'C05', [(BB, 'while (subProblems.size != 0 && !time_limit_reached()) {', 'while (subProblems.size != 0 && !time_limit_reached() && within_budget(&subProblems)) {'),
    (BB, """void branch_and_bound(Problem *current_problem) {""", """/// A search beyond its budget gives its waiting subproblems up.
static bool within_budget(SubProblemsList *waiting) {
    if (problem->exploredBBNodes < 5000) {
        return true;
    }
    delete_SubProblemList(waiting);
    new_SubProblemList(waiting);
    return false;
}


void branch_and_bound(Problem *current_problem) {""")],
    'a search of more than 5000 subproblems', 'a search that gives up after 5000 subproblems is not flagged as interrupted', r"""
MAIN = open(os.path.join(SRC, 'main', 'main.c')).read() + r'''""" + WAITING + r"""'''
exe = solver(12, 0, wraps=WRAPS + ['delete_SubProblemList', 'delete_SubProblemList_elem_index'], main=MAIN)
bad = 0
for seed in range(6):
    rng = random.Random(seed)
    n = 12
    w = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = (0.05 + 0.03 * rng.random()) if i // 4 == j // 4 else 1 + 0.02 * rng.random()
    r = run(exe, matrix(w))
    left = re.findall(r'LEFT (\d+)', r.err)
    print(r.explored, left, r.interrupted)
    bad += bool(r.code == 0 and max(map(int, left), default=0) > 0 and r.interrupted == 'FALSE')
end(bad, '%d searches stopped with subproblems waiting and are not flagged' % bad)
""")
