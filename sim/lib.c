// Interpreter of operation histories on the solver's building blocks: compiled with the tree's own headers, driven by checks.cc.
// One history per run; what the operations answer goes to the (simulated) standard output.
#include "data_structures/doubly_linked_list/list_functions.h"
#include "data_structures/doubly_linked_list/list_iterator.h"
#include "data_structures/mst.h"
#include "algorithms/prim.h"
#include "algorithms/kruskal.h"
#include "tsp_instance_reader.h"
#include "algorithms/branch_and_bound.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char *at, *end;
static int word(char *w, size_t n) {           // next word of the history
    while (at < end && (*at == ' ' || *at == '\n')) at++;
    size_t k = 0;
    while (at < end && *at != ' ' && *at != '\n') { if (k + 1 < n) w[k++] = *at; at++; }
    w[k] = 0;
    return k > 0;
}
static long num(void) { char w[64]; return word(w, sizeof w) ? strtol(w, NULL, 10) : 0; }
static double real(void) { char w[64]; return word(w, sizeof w) ? strtod(w, NULL) : 0; }

#define MAXK 2048
static void heap_history(void) {
    static OrdTreeNode nodes[MAXK];
    static char in[MAXK];
    static double val[MAXK];
    FibonacciHeap heap;
    char w[16];
    memset(nodes, 0x5a, sizeof nodes);
    create_fibonacci_heap(&heap);
    while (word(w, sizeof w)) {
        // what the history asks of a key that is (not) in the heap, or to increase a value, is passed over: ties decide which keys are left
        if (w[0] == 'i') { long k = num(); double v = real(); if (!in[k]) { in[k] = 1; val[k] = v; create_insert_node(&heap, &nodes[k], (unsigned short) k, v); } }
        else if (w[0] == 'd') { long k = num(); double v = real(); if (in[k] && v <= val[k]) { val[k] = v; decrease_value(&heap, &nodes[k], v); } }
        else if (w[0] == 'x') {
            int k = extract_min(&heap);
            printf("%d %d\n", k, (int) heap.num_nodes);
            if (k >= 0 && k < MAXK) { in[k] = 0; memset(&nodes[k], 0x5a, sizeof nodes[k]); }    // an extracted node belongs to the caller again
        }
        else if (w[0] == 'n') printf("= %d\n", (int) heap.num_nodes);
    }
}

#define LISTS 4
static void show(void *v) { if (v) printf(" %ld", (long) ((char *) v - (char *) 0x10000)); else printf(" -"); }
static void list_history(void) {
    List *l[LISTS] = {NULL};
    char w[16];
    while (word(w, sizeof w)) {
        long k = num();
        List *x = l[k];
        if (!strcmp(w, "new")) l[k] = new_list();
        else if (!strcmp(w, "del")) { del_list(x); l[k] = NULL; }
        else if (!strcmp(w, "ab")) { long v = num(); add_elem_list_bottom(x, (char *) 0x10000 + v); }
        else if (!strcmp(w, "ai")) { long v = num(), i = num(); add_elem_list_index(x, (char *) 0x10000 + v, (size_t) i); }
        else if (!strcmp(w, "db")) delete_list_elem_bottom(x);
        else if (!strcmp(w, "di")) { long i = num(); delete_list_elem_index(x, (size_t) i); }
        else if (!strcmp(w, "get")) { long i = num(); printf("g"); show(get_list_elem_index(x, (size_t) i)); printf("\n"); }
        else if (!strcmp(w, "size")) printf("s %lu %d\n", (unsigned long) get_list_size(x), (int) is_list_empty(x));
        else if (!strcmp(w, "walk")) {      // by one iterator, with a second one half way
            long cap = 3000;
            ListIterator *it = create_list_iterator(x), *jt = NULL;
            printf("w");
            while (is_list_iterator_valid(it) && cap--) {
                show(get_current_list_iterator_element(it));
                if (cap % 3 == 0) { if (jt) delete_list_iterator(jt); jt = create_list_iterator(x); show(list_iterator_get_next(jt)); }
                if (cap % 2) list_iterator_next(it); else show(list_iterator_get_next(it));
            }
            show(list_iterator_get_next(it));
            printf("\n");
            if (it) delete_list_iterator(it);
            if (jt) delete_list_iterator(jt);
        }
    }
    for (int k = 0; k < LISTS; k++) del_list(l[k]);
}

static void set_history(void) {
    static Forest forest;
    static Node nodes[MAX_VERTEX_NUM];
    char w[16];
    memset(&forest, 0x5a, sizeof forest);
    for (int i = 0; i < MAX_VERTEX_NUM; i++) { memset(&nodes[i], 0, sizeof nodes[i]); nodes[i].positionInGraph = (unsigned short) i; nodes[i].x = i; }
    while (word(w, sizeof w)) {
        if (!strcmp(w, "new")) { long n = num(); create_forest(&forest, nodes, (unsigned short) n); }
        else if (!strcmp(w, "cons")) { long n = num(), c = num(); create_forest_constrained(&forest, nodes, (unsigned short) n, (unsigned short) c); }
        else if (!strcmp(w, "m")) { long a = num(), b = num(); merge(&forest.sets[a], &forest.sets[b]); }
        else if (!strcmp(w, "pf")) { printf("<\n"); print_forest(&forest); printf("\n>\n"); }
        else if (!strcmp(w, "f")) { long a = num(); Set *s = find(&forest.sets[a]); printf("f %ld %d %d\n", (long) (s - forest.sets), (int) s->curr.positionInGraph, (int) s->num_in_forest); }
    }
}

static Graph graph;
static void show_graph(void) {
    printf("G %d %d %.17g\n", (int) graph.num_nodes, (int) graph.num_edges, graph.cost);
    for (int i = 0; i < graph.num_nodes && i < MAX_VERTEX_NUM; i++) {
        const Node *v = &graph.nodes[i];
        printf("N %d %.17g %.17g %d", (int) v->positionInGraph, (double) v->x, (double) v->y, (int) v->num_neighbours);
        for (int j = 0; j < v->num_neighbours && j < MAX_VERTEX_NUM; j++) printf(" %d", (int) v->neighbours[j]);
        printf("\n");
    }
    for (int i = 0; i < graph.num_edges && i < MAX_EDGES_NUM; i++) {
        const Edge *e = &graph.edges[i], *a = &graph.edges_matrix[e->src][e->dest], *b = &graph.edges_matrix[e->dest][e->src];
        int same = a->weight == e->weight && b->weight == e->weight && a->positionInGraph == i && b->positionInGraph == i && e->positionInGraph == i
            && a->symbol == e->symbol && b->symbol == e->symbol && a->prob == e->prob && b->prob == e->prob;
        printf("E %d %d %.17g %.17g %d %d\n", (int) e->src, (int) e->dest, e->weight, e->prob, (int) e->symbol, same);
    }
}
static void show_tree(const char *name, const MST *t) {
    printf("%s %d %d %d %.17g %.17g\n", name, (int) t->isValid, (int) t->num_nodes, (int) t->num_edges, t->cost, t->prob);
    for (int i = 0; i < t->num_edges && i < MAX_VERTEX_NUM; i++) {
        const Edge *e = &t->edges[i];
        int known = t->edges_matrix[e->src][e->dest] == i && t->edges_matrix[e->dest][e->src] == i;
        printf("e %d %d %.17g %.17g %d %d\n", (int) e->src, (int) e->dest, e->weight, e->prob, (int) e->symbol, known);
    }
    for (int i = 0; i < t->num_nodes && i < MAX_VERTEX_NUM; i++) {
        printf("v %d", (int) t->nodes[i].num_neighbours);
        for (int j = 0; j < t->nodes[i].num_neighbours && j < MAX_VERTEX_NUM; j++) printf(" %d", (int) t->nodes[i].neighbours[j]);
        printf("\n");
    }
}
static Node nodes[MAX_VERTEX_NUM + 1];
static Edge edges[MAX_EDGES_NUM + 1];
static int n, m;
static int graph_word(const char *w) {
    if (!strcmp(w, "n")) {
        memset(&nodes[n], 0, sizeof nodes[n]);
        nodes[n].x = real(); nodes[n].y = real();
        nodes[n].positionInGraph = (unsigned short) n;
        n++;
    }
    else if (!strcmp(w, "e")) {
        edges[m].src = (unsigned short) num(); edges[m].dest = (unsigned short) num();
        edges[m].weight = real(); edges[m].prob = real();
        edges[m].symbol = (unsigned short) (m + 1); edges[m].positionInGraph = (unsigned short) m;
        m++;
    }
    else if (!strcmp(w, "graph") || !strcmp(w, "euc")) {
        List *a = new_list();
        for (int i = 0; i < n; i++) add_elem_list_bottom(a, &nodes[i]);
        if (w[0] == 'e') create_euclidean_graph(&graph, a);
        else {
            List *b = new_list();
            for (int i = 0; i < m; i++) add_elem_list_bottom(b, &edges[i]);
            create_graph(&graph, a, b, WEIGHTED_GRAPH);
        }
    }
    else return 0;
    return 1;
}
static void graph_history(char *path) {
    static MST tree;
    int have = 0;
    char w[16];
    memset(&graph, 0x5a, sizeof graph);
    while (word(w, sizeof w)) {
        if (graph_word(w)) continue;
        if (!strcmp(w, "tsp")) read_tsp_lib_file(&graph, path);
        else if (!strcmp(w, "show")) show_graph();
        else if (!strcmp(w, "pg")) { printf("<\n"); print_graph(&graph); printf("\n>\n"); }
        else if (!strcmp(w, "pt")) { if (have) { printf("<\n"); print_mst(&tree); printf("\n>\n"); } }
        else if (!strcmp(w, "po")) { if (have) { printf("<\n"); print_mst_original_weight(&tree, &graph); printf("\n>\n"); } }
        else if (!strcmp(w, "half")) for (int i = 0; i < graph.num_edges; i++) {      // weights are changed, as the search does
            Edge *e = &graph.edges[i];
            e->weight /= 2;
            graph.edges_matrix[e->src][e->dest].weight = graph.edges_matrix[e->dest][e->src].weight = e->weight;
        }
        else if (!strcmp(w, "sort")) { wrap_quick_sort(&graph); printf("sorted %d\n", (int) graph.orderedEdges); }
        else if (!strcmp(w, "prim")) { have = 1; memset(&tree, 0x5a, sizeof tree); prim(&graph, &tree); show_tree("prim", &tree); }
        else if (!strcmp(w, "kruskal")) { have = 1; memset(&tree, 0x5a, sizeof tree); kruskal(&graph, &tree); show_tree("kruskal", &tree); }
    }
}

#ifndef NO_SUB     // (set if this version's functions are not to be called this way)
// subproblems: their constraints, one-trees, and what is inferred from these
static SubProblem sub, other;
// a version that keeps one of these to itself is not asked for it
#define WEAK __attribute__((weak))
WEAK void set_problem(Problem *current_problem);
WEAK void initialize_matrix(SubProblem *subProblem);
WEAK void copy_constraints(SubProblem *subProblem, const SubProblem *otherSubProblem);
WEAK bool infer_constraints(SubProblem *subProblem);
WEAK void constrained_prim(Graph *graph, SubProblem *subProblem, unsigned short candidateId);
WEAK void constrained_kruskal(Graph *graph, SubProblem *subProblem, unsigned short candidateId);
WEAK BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph);
WEAK bool check_hamiltonian(SubProblem *subProblem);
WEAK int variable_fixing(SubProblem *subProblem);
WEAK SubProblem *get_current_openSubProblemList_iterator_element(SubProblemsListIterator *iterator);
WEAK void list_openSubProblemList_next(SubProblemsListIterator *iterator);
static void show_constraints(const char *name, long answer, const SubProblem *s) {
    printf("%s %ld %d ", name, answer, (int) s->num_forbidden_edges);
    for (int i = 0; i < graph.num_nodes; i++)
        for (int j = i + 1; j < graph.num_nodes; j++)
            putchar(s->constraints[i][j] != s->constraints[j][i] ? '?' : s->constraints[i][j] == NOTHING ? '.' : s->constraints[i][j] == MANDATORY ? 'm' : s->constraints[i][j] == FORBIDDEN ? 'f' : '!');
    for (int i = 0; i < s->num_mandatory_edges && i < MAX_EDGES_NUM; i++) printf(" %d-%d", (int) s->mandatoryEdges[i].src, (int) s->mandatoryEdges[i].dest);
    printf("\n");
}
static void constrain(long a, long b, ConstraintType t) {
    if (sub.constraints[a][b] != NOTHING) return;
    sub.constraints[a][b] = sub.constraints[b][a] = t;
    if (t == FORBIDDEN) sub.num_forbidden_edges++;
    else {
        sub.mandatoryEdges[sub.num_mandatory_edges].src = (unsigned short) a;
        sub.mandatoryEdges[sub.num_mandatory_edges].dest = (unsigned short) b;
        sub.num_mandatory_edges++;
    }
}
static void subproblem_history(void) {
    static Problem problem;
    int one = 0;                        // the subproblem has a one-tree
    SubProblemsList open;
    new_SubProblemList(&open);
    char w[16];
    memset(&graph, 0x5a, sizeof graph);
    memset(&problem, 0x5a, sizeof problem);
    memset(&sub, 0x5a, sizeof sub);
    memset(&other, 0x5a, sizeof other);
    if (!set_problem || !initialize_matrix || !copy_constraints || !infer_constraints || !constrained_prim || !constrained_kruskal || !mst_to_one_tree || !check_hamiltonian || !variable_fixing) return;
    while (word(w, sizeof w)) {
        if (graph_word(w)) continue;
        if (!strcmp(w, "cand")) {
            problem.graph = graph;
            problem.reformulationGraph = graph;
            problem.candidateNodeId = (unsigned short) num();
            problem.num_fixed_edges = 0;
            problem.generatedBBNodes = 1; problem.exploredBBNodes = 0; problem.totTreeLevels = 1;
            delete_SubProblemList(&open);
            new_SubProblemList(&open);
            set_problem(&problem);
            initialize_matrix(&sub);
            for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {    // what is no edge is forbidden
                int k = 0;
                while (k < m && !(edges[k].src == i && edges[k].dest == j) && !(edges[k].src == j && edges[k].dest == i)) k++;
                if (k == m) constrain(i, j, FORBIDDEN);
            }
            sub.type = OPEN; sub.id = 1; sub.fatherId = 0; sub.treeLevel = 1; sub.prob = 0; sub.value = 0;
            one = 0;
        }
        else if (!strcmp(w, "fo")) { long a = num(), b = num(); constrain(a, b, FORBIDDEN); one = 0; }
        else if (!strcmp(w, "ma")) { long a = num(), b = num(); constrain(a, b, MANDATORY); one = 0; }
        else if (!strcmp(w, "copy")) { memset(&other, 0x5a, sizeof other);
            copy_constraints(&other, &sub);
            other.type = sub.type; other.id = sub.id; other.fatherId = sub.fatherId; other.treeLevel = sub.treeLevel; other.prob = sub.prob; other.value = sub.value;
            sub = other; one = 0; show_constraints("copy", 0, &sub); }
        else if (!strcmp(w, "infer")) { long k = infer_constraints(&sub); show_constraints("infer", k, &sub); one = 0; }
        else if (!strcmp(w, "prim") || !strcmp(w, "kruskal")) {
            memset(&sub.oneTree, 0x5a, sizeof sub.oneTree);
            if (w[0] == 'p') constrained_prim(&problem.graph, &sub, problem.candidateNodeId);
            else constrained_kruskal(&problem.graph, &sub, problem.candidateNodeId);
            show_tree(w, &sub.oneTree);
            one = 0;
            if (sub.oneTree.isValid && problem.graph.nodes[problem.candidateNodeId].num_neighbours) {     // a candidate has edges
                one = mst_to_one_tree(&sub, &problem.graph) == OPEN;
                printf("one %d\n", one);
                if (one) show_tree("onetree", &sub.oneTree);
            }
        }
        else if (!strcmp(w, "tour")) {
            if (one) {
                sub.num_edges_in_cycle = 0;
                long k = check_hamiltonian(&sub);
                printf("tour %ld", k);
                for (int i = 0; i < sub.num_edges_in_cycle && i < MAX_VERTEX_NUM; i++) printf(" %d-%d", (int) sub.cycleEdges[i].src, (int) sub.cycleEdges[i].dest);
                printf("\n");
            }
        }
        else if (!strcmp(w, "branch")) {    // on a free edge
            long a = num(), b = num();
            sub.value = real();
            if (branch && sub.constraints[a][b] == NOTHING) {
                unsigned before = problem.generatedBBNodes;
                sub.edge_to_branch = problem.graph.edges_matrix[a][b].positionInGraph;
                branch(&open, &sub);
                printf("branch %u", problem.generatedBBNodes);
                long cap = 2000;
                for (SubProblemElem *x = open.head; x && cap--; x = x->next) printf(" %u:%u:%d:%.17g", x->subProblem.id, x->subProblem.fatherId, (int) x->subProblem.treeLevel, x->subProblem.value);
                printf("\n");
                cap = 2000;
                for (SubProblemElem *x = open.head; x && cap--; x = x->next) if (x->subProblem.id > before) show_constraints("child", x->subProblem.id, &x->subProblem);
            }
        }
        else if (!strcmp(w, "take")) {
            SubProblem *first = get_SubProblemList_elem_index(&open, 0);
            if (first) {
                sub = *first;
                delete_SubProblemList_elem_index(&open, 0);
                show_constraints("take", sub.id, &sub);
                one = 0;
            }
        }
        else if (!strcmp(w, "fix")) {   // how many edges can be fixed when a tour of this length is known
            double best = real();
            if (one) {
                problem.bestValue = best;
                sub.value = sub.oneTree.cost;
                long k = variable_fixing(&sub);
                show_constraints("fix", k, &sub);
                one = 0;
            }
        }
    }
    delete_SubProblemList(&open);
}

// the list of waiting subproblems
static void show_sub(const SubProblem *s) { if (s) printf(" %u:%g", s->id, s->value); else printf(" -"); }
static void waiting_history(void) {
    SubProblemsList l[LISTS];
    int made[LISTS] = {0};
    char w[16];
    while (word(w, sizeof w)) {
        long k = num();
        SubProblemsList *x = made[k] ? &l[k] : NULL;
        if (!strcmp(w, "new")) { new_SubProblemList(&l[k]); made[k] = 1; }
        else if (!strcmp(w, "del")) { delete_SubProblemList(x); made[k] = 0; }
        else if (!strcmp(w, "ab") || !strcmp(w, "ai")) {
            long v = num();
            memset(&sub, (int) (v & 0x7f), sizeof sub);
            sub.id = (unsigned) v; sub.value = (double) v / 8;
            if (w[1] == 'b') add_elem_SubProblemList_bottom(x, &sub); else { long i = num(); add_elem_SubProblemList_index(x, &sub, (size_t) i); }
            memset(&sub, 0x5a, sizeof sub);      // what was put in is a copy
        }
        else if (!strcmp(w, "di")) { long i = num(); delete_SubProblemList_elem_index(x, (size_t) i); }
        else if (!strcmp(w, "get")) { long i = num(); printf("g"); show_sub(get_SubProblemList_elem_index(x, (size_t) i)); printf("\n"); }
        else if (!strcmp(w, "set")) { long i = num(), v = num(); SubProblem *s = get_SubProblemList_elem_index(x, (size_t) i); if (s) { s->id = (unsigned) v; s->value = (double) v / 8; } }
        else if (!strcmp(w, "size")) printf("s %lu %d\n", (unsigned long) get_SubProblemList_size(x), (int) is_SubProblemList_empty(x));
        else if (!strcmp(w, "walk")) {
            long cap = 3000;
            SubProblemsListIterator *it = create_SubProblemList_iterator(x), *jt = NULL;
            printf("w");
            while (is_SubProblemList_iterator_valid(it) && cap--) {
                if (cap % 3 == 0) { if (jt) delete_SubProblemList_iterator(jt); jt = create_SubProblemList_iterator(x); show_sub(SubProblemList_iterator_get_next(jt)); }
                if (cap % 2 && get_current_openSubProblemList_iterator_element && list_openSubProblemList_next) { show_sub(get_current_openSubProblemList_iterator_element(it)); list_openSubProblemList_next(it); }
                else show_sub(SubProblemList_iterator_get_next(it));
            }
            show_sub(SubProblemList_iterator_get_next(it));
            printf("\n");
            if (it) delete_SubProblemList_iterator(it);
            if (jt) delete_SubProblemList_iterator(jt);
        }
    }
    for (int k = 0; k < LISTS; k++) if (made[k]) delete_SubProblemList(&l[k]);
}
#endif

int lib_main(const char *what, const char *ops, size_t n, char *path) {
    at = ops; end = ops + n;
    if (!strcmp(what, "heap")) heap_history();
    else if (!strcmp(what, "list")) list_history();
    else if (!strcmp(what, "sets")) set_history();
    else if (!strcmp(what, "graph")) graph_history(path);
#ifndef NO_SUB
    else if (!strcmp(what, "sub")) subproblem_history();
    else if (!strcmp(what, "wait")) waiting_history();
#endif
    else if (!strcmp(what, "tsp")) { at = "tsp show prim kruskal show"; end = at + strlen(at); graph_history(path); }
    printf("done\n");
    return 0;
}
