// Watches the list of waiting subproblems: the calls by which the search takes one up come by here.
#include <math.h>
#include <stdio.h>
#include "algorithms/branch_and_bound.h"

void sim_taken(const char *wrong);
void sim_left(long long n, double least);

static SubProblemsList *waiting;     // the list that subproblems are taken from

static void look(SubProblemsList *list, size_t index) {
    const SubProblemElem *taken = list ? list->head : NULL;
    for (size_t i = 0; taken && i < index; i++) taken = taken->next;
    if (!taken) return;
    const double eps = 1.27e-3 * sqrt(MAX_VERTEX_NUM);
    const SubProblem *t = &taken->subProblem;
    static char text[300];
    for (const SubProblemElem *e = list->head; e; e = e->next) {
        const SubProblem *s = &e->subProblem;
        if (e == taken) continue;
        if (t->value - s->value > eps * 1.001 + 1e-12) {
            snprintf(text, sizeof text, "its value is %.9f, another one with %.9f has to wait", t->value, s->value);
            sim_taken(text);
            return;
        }
        if (HYBRID && s->value <= t->value && s->prob - t->prob > 0.05 + 1e-6) {
            snprintf(text, sizeof text, "its value is %.9f and its probability %.6f, another one with %.9f and %.6f has to wait", t->value, t->prob, s->value, s->prob);
            sim_taken(text);
            return;
        }
    }
    sim_taken(NULL);
}

void obs_delete_SubProblemList_elem_index(SubProblemsList *list, size_t index) {
    waiting = list;
    look(list, index);
    delete_SubProblemList_elem_index(list, index);
}

// when that list is given up: how many still wait in it, and the least of their values
void obs_delete_SubProblemList(SubProblemsList *list) {
    if (list && list == waiting) {
        double least = INFINITY;
        long long n = 0;
        for (const SubProblemElem *e = list->head; e; e = e->next, n++)
            if (e->subProblem.value < least) least = e->subProblem.value;
        sim_left(n, least);
    }
    delete_SubProblemList(list);
}
