FH = 'data_structures/fibonacci_heap.c'
LF = 'data_structures/doubly_linked_list/list_functions.c'
LI = 'data_structures/doubly_linked_list/list_iterator.c'
MF = 'data_structures/mfset.c'
GR = 'data_structures/graph.c'
KR = 'algorithms/kruskal.c'
PR = 'algorithms/prim.c'
RD = 'tsp_instance_reader.c'
HEAD = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from demolib import *

TOP = r"""
#include "data_structures/doubly_linked_list/list_functions.h"
#include "data_structures/doubly_linked_list/list_iterator.h"
#include "data_structures/mst.h"
#include "algorithms/prim.h"
#include "algorithms/kruskal.h"
#include "tsp_instance_reader.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned long long seed = 1;
static unsigned rnd(unsigned n) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned) (seed >> 33) % n; }
static void fail(const char *s) { printf("%s\\n", s); fflush(stdout); _exit(1); }
"""


def go(main, n=20, hybrid=0, prim=True, args=('x', 'y'), timeout=60):
    """The exit code of a program on this tree's building blocks."""
    exe = solver(n, hybrid, prim, wraps=(), main=TOP + main)
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout
'''
BUGS = []


def bug(**k):
    k['demo'] = HEAD + k['demo']
    BUGS.append(k)


HEAP = '''
code, text = go(r"""
#define K 600
static OrdTreeNode nodes[K];
static double val[K];
static int in[K];
int main(void) {
    for (int round = 0; round < 400; round++) {
        FibonacciHeap h;
        create_fibonacci_heap(&h);
        int k = 5 + (int) rnd(K - 5), left = 0;
        memset(in, 0, sizeof in);
        for (int i = 0; i < k; i++) { val[i] = rnd(1000) + 1000; create_insert_node(&h, &nodes[i], i, val[i]); in[i] = 1; left++; }
        while (left) {
            for (unsigned q = rnd(4); q > 0; q--) {
                int i = (int) rnd(k);
                if (in[i]) { val[i] -= rnd(800); decrease_value(&h, &nodes[i], val[i]); }
            }
            double best = 1e300;
            for (int i = 0; i < k; i++) if (in[i] && val[i] < best) best = val[i];
            int got = extract_min(&h);
            if (got < 0 || got >= k || !in[got]) fail("not in the heap");
            if (val[got] != best) fail("not the smallest");
            in[got] = 0; left--;
            if (h.num_nodes != left) fail("count");
        }
        if (extract_min(&h) != -1) fail("not empty");
    }
    printf("fine\\n");
    return 0;
}
""")
end(code != 0 or 'fine' not in text, '%s %s' % (code, text[-200:]))
'''
bug(id='L01-decreased-root', property='L01', needs='a root other than the minimum whose value is decreased below it, then an extraction',
    what='A root that is decreased does not become the minimum, so a larger value is extracted.',
    edits=[(FH, '''            cascading_cut(heap, parent);
        }
        if(node->value < heap->min_root->value){
            heap->min_root = node;
        }
    }''', '''            cascading_cut(heap, parent);
            if(node->value < heap->min_root->value){
                heap->min_root = node;
            }
        }
    }''')], demo=HEAP)
bug(id='L01-cut-last-child', property='L01', needs='a node that is the last of several children is decreased below its parent, and its old parent gets a child later',
    what='The list of children of the old parent keeps a tail that has become a root, so roots and children are mixed up.',
    edits=[(FH, '''        if(parent->tail_child_list->key == node->key){
            parent->tail_child_list = node->left_sibling;
        }
''', '')], demo=HEAP)
bug(id='L01-few-roots', property='L01', needs='an extraction that leaves exactly two roots, the second smaller than the first',
    what='With two trees left the heap is not consolidated and the minimum is an arbitrary root.',
    edits=[(FH, '''            // re-consolidate the heap
            consolidate(heap);''', '''            // nothing to link among so few trees
            if(heap->num_trees > 2){
                consolidate(heap);
            }''')], demo=HEAP)
LIST = '''
code, text = go(r"""
static long model[4000];
int main(void) {
    for (int round = 0; round < 300; round++) {
        List *l = new_list();
        long n = 0;
        for (int op = 0; op < 300; op++) {
            long v = 1 + rnd(100000);
            switch (rnd(5)) {
                case 0: add_elem_list_bottom(l, (void *) v); model[n++] = v; break;
                case 1: { long i = rnd((unsigned) n + 3); add_elem_list_index(l, (void *) v, (size_t) i);
                          if (i <= n) { memmove(model + i + 1, model + i, (size_t) (n - i) * sizeof *model); model[i] = v; n++; } break; }
                case 2: if (rnd(2)) { delete_list_elem_bottom(l); if (n) n--; } break;
                case 3: { long i = rnd((unsigned) n + 2); delete_list_elem_index(l, (size_t) i);
                          if (i < n) { memmove(model + i, model + i + 1, (size_t) (n - i - 1) * sizeof *model); n--; } break; }
                default: { ListIterator *a = create_list_iterator(l), *b = create_list_iterator(l);
                          long k = 0;
                          while (is_list_iterator_valid(a)) { if (k >= n) fail("too long"); if (rnd(2)) list_iterator_get_next(b); if ((long) list_iterator_get_next(a) != model[k++]) fail("order"); }
                          if (k != n) fail("too short");
                          if (list_iterator_get_next(a) != NULL) fail("beyond");
                          delete_list_iterator(a); delete_list_iterator(b); }
            }
            if (get_list_size(l) != (size_t) n || is_list_empty(l) != (n == 0)) fail("size");
            for (long i = 0; i < n; i++) if ((long) get_list_elem_index(l, (size_t) i) != model[i]) fail("index");
            if (get_list_elem_index(l, (size_t) n)) fail("get beyond");
        }
        del_list(l);
    }
    printf("fine\\n");
    return 0;
}
""")
end(code != 0 or 'fine' not in text, '%s %s' % (code, text[-200:]))
'''
bug(id='L02-delete-last-tail', property='L02', needs='the last element is deleted by its index and an element is added at the end afterwards',
    what='The tail still is the deleted element: what is added next is written behind released memory and lost.',
    edits=[(LF, '''        if (oldElem->next != NULL) {
            oldElem->next->prev = oldElem->prev;
        } else {
            list->tail = oldElem->prev;
        }
''', '''        if (oldElem->next != NULL) {
            oldElem->next->prev = oldElem->prev;
        }
''')], demo=LIST)
bug(id='L02-back-link', property='L02', needs='an element is added in the middle and the one after it is deleted later, or everything from the end',
    what='The element after an inserted one keeps its old predecessor, so that deleting it unlinks the inserted one as well.',
    edits=[(LF, '''            e->next->prev = e;
            e->prev->next = e;''', '''            e->prev->next = e;''')], demo=LIST)
bug(id='L02-index-from-tail', property='L02', needs='access by an index in the second half of a list with an odd number of elements',
    what='Walking from the nearer end, the walk backwards is one step short.',
    edits=[(LF, '''    DllElem *supp; // iteration support element
    supp = list->head;

    for (size_t i = 0; i < index; ++i)
        supp = supp->next;
    return supp->value;''', '''    DllElem *supp; // iteration support element

    if (index <= get_list_size(list) / 2) {
        supp = list->head;
        for (size_t i = 0; i < index; ++i)
            supp = supp->next;
    } else {
        // nearer to the end
        supp = list->tail;
        for (size_t i = get_list_size(list) - 1; i > index + (get_list_size(list) % 2); --i)
            supp = supp->prev;
    }
    return supp->value;''')], demo=LIST)

SETS = '''
code, text = go(r"""
static Forest f;
static Node nodes[MAX_VERTEX_NUM];
static int id[MAX_VERTEX_NUM];
int main(void) {
    for (int i = 0; i < MAX_VERTEX_NUM; i++) nodes[i].positionInGraph = (unsigned short) i;
    for (int round = 0; round < 3000; round++) {
        int n = 2 + (int) rnd(MAX_VERTEX_NUM - 1), c = rnd(2) ? -1 : (int) rnd((unsigned) n);
        if (c < 0) create_forest(&f, nodes, n); else create_forest_constrained(&f, nodes, n, c);
        for (int i = 0; i < n; i++) id[i] = i;
        for (int op = 0; op < n + 5; op++) {
            int a = (int) rnd(n), b = (int) rnd(n);
            if (a == c || b == c) continue;
            merge(&f.sets[a], &f.sets[b]);
            int x = id[a], y = id[b];
            for (int i = 0; i < n; i++) if (id[i] == y) id[i] = x;
            if (rnd(3)) continue;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
                if (i != c && j != c && (find(&f.sets[i])->num_in_forest == find(&f.sets[j])->num_in_forest) != (id[i] == id[j])) fail("representatives");
            for (int i = 0; i < n; i++) if (i != c && id[find(&f.sets[i])->curr.positionInGraph] != id[i]) fail("not a member");
        }
    }
    printf("fine\\n");
    return 0;
}
""")
end(code != 0 or 'fine' not in text, '%s %s' % (code, text[-200:]))
'''
bug(id='L03-merge-below-root', property='L03', needs='two sets of different rank merged through a member that is not the representative of the lower one',
    what='Only the named member moves to the other set, and the rest of its set stays behind.',
    edits=[(MF, '''            set2_root->parentSet = set1_root;
        } else if (set1_root->rango < set2_root->rango) {''', '''            set2->parentSet = set1_root;
        } else if (set1_root->rango < set2_root->rango) {''')], demo=SETS)
bug(id='L03-halving', property='L03', needs='a set that is three levels deep when it is asked about',
    what='The walk to the representative stops after two steps.',
    edits=[(MF, '''        set->parentSet = find(set->parentSet);
        return set->parentSet;
    }
    return set;''', '''        if (set->parentSet->parentSet != NULL && set->parentSet->rango < 3) {
            set->parentSet = set->parentSet->parentSet;
        }
        return set->parentSet;
    }
    return set;''')], demo=SETS)

TREES = '''
MAIN = r"""
static Graph g;
static MST t;
static Node nodes[MAX_VERTEX_NUM];
static Edge edges[MAX_EDGES_NUM];
static double w[MAX_VERTEX_NUM][MAX_VERTEX_NUM];
static int id[MAX_VERTEX_NUM];
int main(void) {
    for (int round = 0; round < 3000; round++) {
        int n = 2 + (int) rnd(MAX_VERTEX_NUM - 1), m = 0;
        double scale = SCALE;
        List *a = new_list(), *b = new_list();
        unsigned density = 1 + rnd(100);
        for (int i = 0; i < n; i++) { memset(&nodes[i], 0, sizeof nodes[i]); nodes[i].positionInGraph = (unsigned short) i; add_elem_list_bottom(a, &nodes[i]); for (int j = 0; j < n; j++) w[i][j] = 0; }
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (rnd(100) < density) {
            int turn = (int) rnd(2);
            edges[m].src = (unsigned short) (turn ? j : i); edges[m].dest = (unsigned short) (turn ? i : j);
            edges[m].weight = w[i][j] = w[j][i] = (1 + rnd(RANGE)) * scale; edges[m].prob = rnd(1000) / 1000.; edges[m].symbol = (unsigned short) (m + 1);
            add_elem_list_bottom(b, &edges[m]); m++;
        }
        create_graph(&g, a, b, WEIGHTED_GRAPH);
        double best = 0, at[MAX_VERTEX_NUM];
        int in[MAX_VERTEX_NUM] = {0}, ok = 1;
        for (int i = 0; i < n; i++) at[i] = i ? 1e300 : 0;
        for (int k = 0; k < n; k++) {
            int x = -1;
            for (int i = 0; i < n; i++) if (!in[i] && at[i] < 1e300 && (x < 0 || at[i] < at[x])) x = i;
            if (x < 0) { ok = 0; break; }
            in[x] = 1; best += at[x];
            for (int i = 0; i < n; i++) if (w[x][i] > 0 && w[x][i] < at[i]) at[i] = w[x][i];
        }
        for (int which = 0; which < 2; which++) {
            memset(&t, 0x5a, sizeof t);
            if (which) kruskal(&g, &t); else prim(&g, &t);
            if (t.isValid != ok) fail(which ? "kruskal: validity" : "prim: validity");
            if (!ok) continue;
            if (t.num_edges != n - 1) fail("edges");
            double c = 0, p = 0;
            for (int i = 0; i < n; i++) id[i] = i;
            for (int i = 0; i < t.num_edges; i++) {
                int x = t.edges[i].src, y = t.edges[i].dest;
                if (w[x][y] <= 0 || w[x][y] != t.edges[i].weight) fail("no such edge");
                if (id[x] == id[y]) fail("cycle");
                int from = id[y], to = id[x];
                for (int q = 0; q < n; q++) if (id[q] == from) id[q] = to;
                c += w[x][y]; p += t.edges[i].prob;
            }
            if (fabs(c - best) > 1e-9 * best) fail(which ? "kruskal: not minimal" : "prim: not minimal");
            if (fabs(t.cost - c) > 1e-9 * c) fail("cost");
            if (HYBRID && fabs(t.prob - p / (n - 1)) > 1e-4) fail("probability");
        }
        for (int i = 0; i < g.num_edges; i++) {
            Edge *e = &g.edges[i];
            if (w[e->src][e->dest] != e->weight) fail("list");
            if (i && g.edges[i - 1].weight > e->weight) fail("order");
            if (g.edges_matrix[e->src][e->dest].positionInGraph != i || g.edges_matrix[e->dest][e->src].positionInGraph != i || e->positionInGraph != i) fail("position");
            if (g.edges_matrix[e->src][e->dest].weight != e->weight || g.edges_matrix[e->dest][e->src].weight != e->weight) fail("matrix");
        }
    }
    printf("fine\\n");
    return 0;
}
"""
bad = []
for hybrid in (0, 1):
    for scale in SCALES:
        for r in (1000, 4):
            code, text = go(MAIN.replace('SCALE', scale).replace('RANGE', str(r)), 20, hybrid)
            if code or 'fine' not in text:
                bad.append((hybrid, scale, r, code, text[-100:]))
end(bad, bad)
'''
bug(id='L04-prim-far', property='L04', needs='edges that weigh more than the largest single-precision number',
    what="Prim's algorithm takes nodes that are only reached over such edges for unreachable, and calls the tree invalid.",
    edits=[(PR, 'create_insert_node(&heap, &tree_nodes[i], i, DBL_MAX);', 'create_insert_node(&heap, &tree_nodes[i], i, FLT_MAX);')],
    demo=TREES.replace('SCALES', "('1.0', '1e60')"))
bug(id='L04-sorted-positions', property='L04', needs='a sort that swaps an edge listed from its larger to its smaller node',
    what='Only one of the two entries of the matrix is told where the edge went.',
    edits=[(KR, '''    graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
    graph->edges_matrix[edges[swap_2].dest][edges[swap_2].src].positionInGraph = swap_1;
''', '''    graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
    if (edges[swap_2].src <= edges[swap_2].dest) {
        graph->edges_matrix[edges[swap_2].dest][edges[swap_2].src].positionInGraph = swap_1;
    }
''')], demo=TREES.replace('SCALES', "('1.0',)"))
bug(id='L04-equal-runs', property='L04', needs='a sorted range that ends with a pivot one before its end, among many equal weights',
    what='The last two edges of a range are left unsorted.',
    edits=[(KR, '''        if(pivot + 1 < last) {
            quick_sort(graph, pivot + 1, last);''', '''        if(pivot + 2 < last) {
            quick_sort(graph, pivot + 1, last);''')], demo=TREES.replace('SCALES', "('1.0',)"))
bug(id='L04-early-valid', property='L04', needs='a graph in two parts, where the edges before the last one would be enough for a tree if none closed a cycle',
    what="Kruskal's algorithm counts looked-at edges and not chosen ones: a forest is called a valid tree.",
    edits=[(KR, '''    if (num_edges_inMST == graph->num_nodes - 1) {''', '''    if (num_edges_inMST == graph->num_nodes - 1 || (num_edges_inMST == graph->num_nodes - 2 && num_edges_inG == graph->num_nodes)) {''')],
    demo=TREES.replace('SCALES', "('1.0',)"))

TSP = '''
MAIN = r"""
static Graph g;
int main(int argc, char **argv) {
    (void) argc;
    read_tsp_lib_file(&g, argv[1]);
    printf("%d %d\\n", g.num_nodes, g.num_edges);
    for (int i = 0; i < g.num_nodes; i++) { printf("%.17g %.17g", g.nodes[i].x, g.nodes[i].y); for (int j = 0; j < g.num_nodes; j++) printf(" %.17g", j == i ? 0 : g.edges_matrix[i][j].weight); printf("\\n"); }
    printf("fine\\n");
    return 0;
}
"""
import math
exe = solver(20, 0, True, wraps=(), main=TOP + MAIN)


def read(text):
    p = os.path.join(SCRATCH, 'in.tsp')
    with open(p, 'w') as f:
        f.write(text)
    r = subprocess.run([exe, p, 'y'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    return r.returncode, r.stdout


def tsp(pts, ids=None, fmt='%d %r %r'):
    ids = ids or range(1, len(pts) + 1)
    return 'NAME : x\\nTYPE : TSP\\nDIMENSION : %d\\nEDGE_WEIGHT_TYPE : EUC_2D\\nNODE_COORD_SECTION\\n' % len(pts) + ''.join(fmt % (i, a, b) + '\\n' for i, (a, b) in zip(ids, pts)) + 'EOF\\n'


def right(pts, **k):
    code, text = read(tsp(pts, **k))
    l = text.split('\\n')
    if code or 'fine' not in text or l[0] != '%d %d' % (len(pts), len(pts) * (len(pts) - 1) // 2):
        return False
    for i, (x, y) in enumerate(pts):
        v = [float(z) for z in l[i + 1].split()]
        if not math.isclose(v[0], x, rel_tol=1e-6, abs_tol=1e-30) or not math.isclose(v[1], y, rel_tol=1e-6, abs_tol=1e-30):
            return False
        for j, (a, b) in enumerate(pts):
            if not math.isclose(v[2 + j], math.hypot(a - x, b - y), rel_tol=1e-5):
                return False
    return True


import random
rng = random.Random(3)
bad = []
for n in (1, 2, 3, 7, 20):
    for scale in (1, 1000, 1e15, 1e25):
        pts = [(float('%.5g' % (rng.random() * scale)), float('%.5g' % (rng.random() * scale))) for _ in range(n)]
        if not right(pts):
            bad.append((n, scale))
        if not right(pts, ids=range(n)) or not right(pts, ids=rng.sample(range(1, 99), n)):
            bad.append((n, scale, 'ids'))
        if not right(pts, fmt='  %d   %e   %e  '):
            bad.append((n, scale, 'e'))
for text in (tsp([(0.5, 0.5)] * 3).replace('EUC_2D', 'GEO'), tsp([(0.5, 0.5)] * 21), tsp([(0.5, 0.25)] * 3).replace('2 0.5', '2 x'), tsp([(0.5, 0.5)] * 3).replace(': 3', ': 4')):
    code, out = read(text)
    if code == 0:
        bad.append(text)
end(bad, bad)
'''
bug(id='L05-ids', property='L05', needs='a file whose cities are not numbered 1, 2, 3, ...',
    what='The number in the file is taken for the position of the city.',
    edits=[(RD, '''            nodes[i].positionInGraph = i;
            nodes[i].x = x;''', '''            nodes[i].positionInGraph = id - 1;
            nodes[i].x = x;''')], demo=TSP)
bug(id='L05-single', property='L05', needs='cities further apart than the square root of the largest single-precision number',
    what='The distance is worked out in single precision, whose squares overflow: the cities are infinitely far apart.',
    edits=[(GR, '''            edges[z].weight = (float) sqrt(pow(fabs(node_src->x - node_dest->x), 2) +
                                        pow(fabs(node_src->y - node_dest->y), 2));''', '''            float dx = (float) fabs(node_src->x - node_dest->x);
            float dy = (float) fabs(node_src->y - node_dest->y);
            edges[z].weight = sqrtf(dx * dx + dy * dy);''')], demo=TSP)
bug(id='L05-plain-numbers', property='L05', needs='a file that writes its coordinates with exponents',
    what='Only the digits before the exponent are read.',
    edits=[(RD, '''            int result = sscanf(line, "%hu %f %f", &id, &x, &y);''', '''            char number[2][32];
            int result = sscanf(line, "%hu %31[-+.0-9] %*[eE+0-9] %31[-+.0-9]", &id, number[0], number[1]);
            if (result < 3) {
                result = sscanf(line, "%hu %31s %31s", &id, number[0], number[1]);
            }
            x = result == 3 ? strtof(number[0], NULL) : 0;
            y = result == 3 ? strtof(number[1], NULL) : 0;''')], demo=TSP)

BB = 'algorithms/branch_and_bound.c'
BD = 'data_structures/b_and_b_data.c'
SUB = r'''
COMMON = r"""
#include "algorithms/branch_and_bound.h"
void initialize_matrix(SubProblem *subProblem);
void constrained_prim(Graph *graph, SubProblem *subProblem, unsigned short candidateId);
void constrained_kruskal(Graph *graph, SubProblem *subProblem, unsigned short candidateId);
#define N 7
static Node nodes[N];
static Edge edges[N * N];
static double W[N][N];
static Graph g;
static Problem p;
static SubProblem s;
static List *a, *b;
static void build(int cand) {       /* a complete graph */
    int m = 0;
    a = new_list(); b = new_list();
    memset(&g, 0, sizeof g); memset(&p, 0, sizeof p); memset(&s, 0, sizeof s);
    for (int i = 0; i < N; i++) { nodes[i].x = rnd(1000) / 1000.0f; nodes[i].y = rnd(1000) / 1000.0f; nodes[i].positionInGraph = i; nodes[i].num_neighbours = 0; add_elem_list_bottom(a, &nodes[i]); }
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        edges[m].src = i; edges[m].dest = j; edges[m].weight = W[i][j] = W[j][i] = 0.01 + rnd(100000) / 100000.0; edges[m].prob = rnd(9) / 8.0; edges[m].symbol = m + 1; edges[m].positionInGraph = m;
        add_elem_list_bottom(b, &edges[m]); m++;
    }
    create_graph(&g, a, b, WEIGHTED_GRAPH);
    p.graph = g; p.reformulationGraph = g; p.candidateNodeId = cand; p.bestValue = 1e9; p.generatedBBNodes = 1; p.totTreeLevels = 1;
    set_problem(&p);
    initialize_matrix(&s);
    s.type = OPEN; s.id = 1; s.treeLevel = 1;
}
static void must(int i, int j) { if (s.constraints[i][j] != NOTHING) return; s.constraints[i][j] = s.constraints[j][i] = MANDATORY; s.mandatoryEdges[s.num_mandatory_edges].src = i; s.mandatoryEdges[s.num_mandatory_edges].dest = j; s.num_mandatory_edges++; }
static void never(int i, int j) { if (s.constraints[i][j] != NOTHING) return; s.constraints[i][j] = s.constraints[j][i] = FORBIDDEN; s.num_forbidden_edges++; }

/* all tours that keep the constraints of s; those in it when asked */
static int tour[N], used[N];
static SubProblem was;
static double known;
static int keeps(const SubProblem *q) {
    int on[N][N] = {{0}};
    for (int i = 0; i < N; i++) { int x = tour[i], y = tour[(i + 1) % N]; on[x][y] = on[y][x] = 1; }
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if ((q->constraints[i][j] == MANDATORY && !on[i][j]) || (q->constraints[i][j] == FORBIDDEN && on[i][j])) return 0;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (q->constraints[i][j] != q->constraints[j][i]) return 0;
    return 1;
}
static double length(void) { double l = 0; for (int i = 0; i < N; i++) l += W[tour[i]][tour[(i + 1) % N]]; return l; }
static int walk(int k, int (*lost)(void)) {
    if (k == N) return keeps(&was) && lost();
    for (int v = 1; v < N; v++) if (!used[v]) { used[v] = 1; tour[k] = v; if (walk(k + 1, lost)) return 1; used[v] = 0; }
    return 0;
}
static int any(int (*lost)(void)) { memset(used, 0, sizeof used); tour[0] = 0; used[0] = 1; return walk(1, lost); }
static void some(double pm, double pf) {
    int t[N];
    for (int i = 0; i < N; i++) t[i] = i;
    for (int i = N - 1; i > 0; i--) { int j = rnd(i + 1), k = t[i]; t[i] = t[j]; t[j] = k; }
    for (int i = 0; i < N; i++) if (rnd(1000) < pm * 1000) must(t[i], t[(i + 1) % N]);
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        int mine = 0;
        for (int k = 0; k < N; k++) mine |= (t[k] == i && t[(k + 1) % N] == j) || (t[k] == j && t[(k + 1) % N] == i);
        if (!mine && rnd(1000) < pf * 1000) never(i, j);
    }
}
"""
'''
ONE = SUB + r'''
code, text = go(COMMON + r"""
int main(void) {
    for (int round = 0; round < 4000; round++) {
        int c = rnd(N);
        build(c);
        some(rnd(60) / 100.0, rnd(50) / 100.0);
        if (rnd(4) == 0) for (int k = 0; k < 3; k++) { int x = rnd(N), y = rnd(N); if (x != y) must(x, y); }
        for (int algo = 0; algo < 2; algo++) {
            /* what it should be */
            int cls[N], count = 0, cyc = 0, musts = 0;
            double want = 0, two = 0;
            for (int i = 0; i < N; i++) cls[i] = i;
            for (int pass = 0; pass < 2; pass++) for (;;) {
                int bi = -1, bj = -1;
                for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if (i != c && j != c && cls[i] != cls[j] && s.constraints[i][j] == (pass ? NOTHING : MANDATORY) && (bi < 0 || W[i][j] < W[bi][bj])) { bi = i; bj = j; }
                if (bi < 0) break;
                int q = cls[bj];
                for (int i = 0; i < N; i++) if (cls[i] == q) cls[i] = cls[bi];
                want += W[bi][bj]; count++; musts += !pass;
            }
            for (int i = 0; i < s.num_mandatory_edges; i++) if (s.mandatoryEdges[i].src != c && s.mandatoryEdges[i].dest != c) musts--;
            cyc = musts != 0;
            memset(&s.oneTree, 0x5a, sizeof s.oneTree);
            if (algo) constrained_kruskal(&p.graph, &s, c); else constrained_prim(&p.graph, &s, c);
            if (s.oneTree.isValid != (count == N - 2)) fail("valid");
            if (!s.oneTree.isValid) continue;
            if (s.oneTree.num_edges != N - 2) fail("edges");
            double sum = 0;
            for (int i = 0; i < s.oneTree.num_edges; i++) { int x = s.oneTree.edges[i].src, y = s.oneTree.edges[i].dest; sum += W[x][y]; if (s.constraints[x][y] == FORBIDDEN) fail("forbidden"); }
            if (sum > s.oneTree.cost + 1e-9 || sum < s.oneTree.cost - 1e-9) fail("cost");
            if (!cyc && (sum > want + 1e-9 || sum < want - 1e-9)) fail("not the shortest");
            /* joining the candidate */
            int m = 0, fr = 0;
            double mw = 0, f1 = 1e9, f2 = 1e9;
            for (int j = 0; j < N; j++) if (j != c) {
                if (s.constraints[c][j] == MANDATORY) { m++; mw += W[c][j]; }
                else if (s.constraints[c][j] == NOTHING) { fr++; if (W[c][j] < f1) { f2 = f1; f1 = W[c][j]; } else if (W[c][j] < f2) f2 = W[c][j]; }
            }
            int can = m <= 2 && m + fr >= 2;
            int is = mst_to_one_tree(&s, &p.graph) == OPEN;
            if (is != can) fail("completed");
            if (!is) continue;
            two = mw + (m < 2 ? f1 : 0) + (m < 1 ? f2 : 0);
            double all = s.oneTree.cost - sum;
            if (all > two + 1e-9 || all < two - 1e-9) fail("the candidate's edges");
            int deg[N] = {0}, ham = 1;
            for (int i = 0; i < s.oneTree.num_edges; i++) { deg[s.oneTree.edges[i].src]++; deg[s.oneTree.edges[i].dest]++; }
            for (int i = 0; i < N; i++) if (deg[i] != 2) ham = 0;
            s.num_edges_in_cycle = 0;
            if (check_hamiltonian(&s) != ham) fail("tour");
        }
    }
    puts("fine");
    return 0;
}
""", n=7)
sys.exit(0 if code == 0 and 'fine' in text else print(code, text) or 1)
'''
LOST = SUB + r'''
code, text = go(COMMON + r"""
static SubProblemsList open;
static int lost_inference(void) { return !keeps(&s); }
static int lost_fixing(void) { return length() < known - 1e-9 && !keeps(&s); }
static int lost_branching(void) {
    for (SubProblemElem *e = open.head; e; e = e->next) if (e->subProblem.id > was.id && keeps(&e->subProblem)) return 0;
    return 1;
}
static int yes(void) { return 1; }
int main(void) {
    for (int round = 0; round < 1500; round++) {
        int c = rnd(N);
        build(c);
        some(rnd(70) / 100.0, rnd(70) / 100.0);
        if (rnd(4) == 0) { int x = rnd(N), y = rnd(N); if (x != y) must(x, y); }
        was = s;
        if (round % 3 == 0) {
            int ok = infer_constraints(&s);
            if (ok ? any(lost_inference) : any(yes)) fail("inference");
        } else if (round % 3 == 1) {
            constrained_prim(&p.graph, &s, c);
            if (!s.oneTree.isValid || mst_to_one_tree(&s, &p.graph) != OPEN) continue;
            s.value = s.oneTree.cost;
            p.bestValue = known = s.oneTree.cost * (1 + rnd(80) / 100.0);
            was = s;
            int k = variable_fixing(&s), m = 0;
            for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) m += s.constraints[i][j] != was.constraints[i][j];
            if (k != m) fail("count");
            if (any(lost_fixing)) fail("fixing");
        } else {
            new_SubProblemList(&open);
            s.prob = 0;
            for (int k = 0; k < 6; k++) {
                int x = rnd(N), y = rnd(N);
                if (x == y || s.constraints[x][y] != NOTHING) continue;
                s.edge_to_branch = p.graph.edges_matrix[x][y].positionInGraph;
                s.value = 1 + rnd(5);
                was = s;
                was.id = p.generatedBBNodes;
                size_t size = open.size;
                branch(&open, &s);
                if (any(lost_branching)) fail("branching");
                if (open.size < size || open.size > size + 2) fail("size");
                for (SubProblemElem *e = open.head; e && e->next; e = e->next) if (e->subProblem.value > e->next->subProblem.value) fail("order");
                if (open.size && rnd(3)) { s = open.head->subProblem; delete_SubProblemList_elem_index(&open, 0); }
            }
            delete_SubProblemList(&open);
        }
    }
    puts("fine");
    return 0;
}
""", n=7)
sys.exit(0 if code == 0 and 'fine' in text else print(code, text) or 1)
'''
WAIT = r'''
code, text = go(r"""
#include "data_structures/b_and_b_data.h"
static SubProblem x;
static void sub(unsigned v) { memset(&x, 0, sizeof x); x.id = v; x.value = v; }
int main(void) {
    for (int round = 0; round < 3000; round++) {
        SubProblemsList l;
        unsigned ref[64], n = 0, v = 1;
        new_SubProblemList(&l);
        for (int k = 0; k < 60; k++) {
            unsigned i = rnd(n + 2);
            switch (rnd(4)) {
                case 0: sub(v); add_elem_SubProblemList_bottom(&l, &x); ref[n++] = v++; break;
                case 1: sub(v); if (n && i == n) i--; add_elem_SubProblemList_index(&l, &x, i); if (i <= n) { memmove(ref + i + 1, ref + i, (n - i) * sizeof *ref); ref[i] = v++; n++; } break;
                default: delete_SubProblemList_elem_index(&l, i); if (i < n) { memmove(ref + i, ref + i + 1, (n - i - 1) * sizeof *ref); n--; }
            }
            if (get_SubProblemList_size(&l) != n || is_SubProblemList_empty(&l) != (n == 0)) fail("size");
            SubProblemsListIterator *it = create_SubProblemList_iterator(&l);
            for (unsigned j = 0; j < n; j++) {
                SubProblem *a = get_SubProblemList_elem_index(&l, j), *b = SubProblemList_iterator_get_next(it);
                if (!a || !b || a->id != ref[j] || b->id != ref[j]) fail("element");
            }
            if (SubProblemList_iterator_get_next(it) || get_SubProblemList_elem_index(&l, n)) fail("beyond the end");
            delete_SubProblemList_iterator(it);
        }
        delete_SubProblemList(&l);
    }
    puts("fine");
    return 0;
}
""", n=7)
sys.exit(0 if code == 0 and 'fine' in text else print(code, text) or 1)
'''
bug(id='L06-third-mandatory', property='L06', needs='three mandatory edges at the candidate', what='The search of the candidate\'s edges ends with the second mandatory one: a third is left out and the one-tree is taken for a possible one.',
    edits=[(BB, 'for (unsigned short i = 0; i < candidate.num_neighbours && toAdd<=2; i++) {', 'for (unsigned short i = 0; i < candidate.num_neighbours && toAdd < 2; i++) {')], demo=ONE)
bug(id='L06-second-free', property='L06', needs='one mandatory edge of the candidate and a shortest free one that is not the first', what='With one mandatory edge the candidate takes the first free edge that is shorter than the mandatory one, or else the shortest.',
    edits=[(BB, '''        for (unsigned short j = 0; j < num_others; j++) {
            unsigned short dest = others[j];
            Edge candidateEdge = graph->edges_matrix[src][dest];

            if (bestFoundWeight >''', '''        for (unsigned short j = 0; j < num_others && bestFoundWeight >= bestEdgesWeight[0]; j++) {
            unsigned short dest = others[j];
            Edge candidateEdge = graph->edges_matrix[src][dest];

            if (bestFoundWeight >''')], demo=ONE)
bug(id='L06-mandatory-cycle', property='L06', needs='Kruskal and mandatory edges that are listed after the tree has as many edges as it needs, or closed cycle', what='A mandatory edge counts as one of the tree\'s even if it would close a cycle: such a tree stops one edge short and is valid.',
    edits=[(BB, '''                // add the edge to the MST
                add_edge(&subProblem->oneTree, &mandatory_edge);
                num_edges_inMST++;
            }
''', '''                // add the edge to the MST
                add_edge(&subProblem->oneTree, &mandatory_edge);
            }
            num_edges_inMST++;
''')], demo=ONE)
bug(id='L07-replacement', property='L07', needs='an edge of the one-tree that is not the longest of any cycle it could be left for', what='The best replacement is noted for the longest edge of the path only: the others look irreplaceable and are made mandatory.',
    edits=[(BB, '''                if (current_edge_weight > max_edge_weight) {
                    max_edge_weight = current_edge_weight;
                }

                if (edge_nin_1tree_weight < current_edge_weight''', '''                if (current_edge_weight <= max_edge_weight) {
                    toNode = fromNode;
                    continue;
                }
                max_edge_weight = current_edge_weight;

                if (edge_nin_1tree_weight < current_edge_weight''')], demo=LOST)
bug(id='L07-last-two', property='L07', needs='branching with three mandatory edges already in place', what='The branch that leaves the edge out marks it one way only when several mandatory edges are there.',
    edits=[(BB, '''
            } else {
                child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
''', '''
            } else {
                child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                if (child.num_mandatory_edges < 3) {
                    child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
                }
''')], demo=LOST)
bug(id='L07-order', property='L07', needs='a waiting subproblem of a smaller value behind several of larger ones, and one in between', what='The place of a new subproblem is looked for among the first half of the waiting ones.',
    edits=[(BB, 'for (size_t j = 0; j < openSubProblems->size && position == -1; j++) {', 'for (size_t j = 0; j < (openSubProblems->size > 7 ? openSubProblems->size / 2 : openSubProblems->size) && position == -1; j++) {')], demo=LOST)
bug(id='L08-tail', property='L08', needs='the last of several subproblems removed and another one put at the end', what='The end of the list still points to the removed subproblem.',
    edits=[(BD, '''            list->tail = oldElem->prev;
''', '''            list->tail = (list->size > 2) ? oldElem->prev : list->tail;
''')], demo=WAIT)
bug(id='L08-prev', property='L08', needs='one put at the front, then the second removed', what='One put at the front is not known to its neighbour.',
    edits=[(BD, '''            list->head->prev = e;
            list->head = e;''', '''            list->head = e;''')], demo=WAIT)
PRN = r'''
code, text = go(r"""
#define N 24
static Graph g;
static MST t;
static Node nodes[N];
static Edge edges[N * N];
int main(void) {
    List *ns = new_list(), *es = new_list();
    int k = 0;
    for (int i = 0; i < N; i++) { nodes[i].positionInGraph = i; nodes[i].x = i; nodes[i].y = i * i; nodes[i].num_neighbours = 0; add_elem_list_bottom(ns, &nodes[i]); }
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        edges[k].src = i; edges[k].dest = j; edges[k].weight = 2 + (i * 7 + j * 3) % 11; edges[k].prob = 0.5; edges[k].symbol = k + 1; edges[k].positionInGraph = k;
        add_elem_list_bottom(es, &edges[k]); k++;
    }
    create_graph(&g, ns, es, WEIGHTED_GRAPH);
    prim(&g, &t);
    for (int i = 0; i < g.num_edges; i++) { Edge *e = &g.edges[i]; e->weight += 100; g.edges_matrix[e->src][e->dest].weight = g.edges_matrix[e->dest][e->src].weight = e->weight; }
    print_mst_original_weight(&t, &g);
    printf("GRAPH\n");
    print_graph(&g);
    printf("FOREST\n");
    Forest f;
    create_forest(&f, nodes, N);
    for (int s = 1; s < N; s *= 2) for (int i = 0; i + s < N; i += 2 * s) merge(&f.sets[i], &f.sets[i + s]);
    print_forest(&f);
    fflush(stdout);
    _exit(0);
}
""", n=24)
if code != 0: sys.exit(print(code, text[-500:]) or 1)
import re
mst, rest = text.split('GRAPH\n')
gr, fo = rest.split('FOREST\n')
w = [float(x) for x in re.findall(r'weight = ([0-9.]+)', mst)]
nb = [len(l.split('neighbours:')[1].split()) for l in gr.split('\n') if 'neighbours' in l]
ok = len(w) == 23 and min(w) > 100 and nb == [23] * 24 and fo.count('Set ') == 24 and fo.count('NULL') == 1
sys.exit(0 if ok else print(w, nb, fo) or 1)
'''
MS = 'data_structures/mst.c'
bug(id='L09-tree-weight', property='L09', needs='weights of the graph changed after the tree was made', what='The tree is printed with the weights it was made with instead of the graph\'s.',
    edits=[(MS, '               graph->edges_matrix[curr->src][curr->dest].weight,\n', '               curr->weight,\n')], demo=PRN)
bug(id='L09-inner-set', property='L09', needs='a set of some rank merged below another one', what='A set that has others below it is printed as one of its own.',
    edits=[(MF, '        if (set.parentSet != NULL) {\n            printf("Parent: %i, "', '        if (set.parentSet != NULL && set.rango == 0) {\n            printf("Parent: %i, "')], demo=PRN)
bug(id='L09-neighbours', property='L09', needs='a city with more than 20 neighbours', what='Only the first 20 neighbours of a city are printed.',
    edits=[(GR, '        for (int z = 0; z < curr.num_neighbours; z++) {\n            printf("%i ", G->nodes', '        for (int z = 0; z < curr.num_neighbours && z < 20; z++) {\n            printf("%i ", G->nodes')], demo=PRN)
