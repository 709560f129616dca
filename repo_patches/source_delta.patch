From ed132cd989922b610df36afc660da9240edd2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 01/39] fix: mst_to_one_tree writes past its arrays on a third
 mandatory edge

The loop records up to three mandatory edges of the candidate node before
the subproblem is declared unfeasible, but the arrays held two.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..601bcbc 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -88,8 +88,9 @@ bool check_hamiltonian(SubProblem *subProblem) {
 BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
     Node candidate = graph->nodes[problem->candidateNodeId];
-    int bestEdgesPos[2];
-    double bestEdgesWeight[2];
+    // a third mandatory edge is recorded before the subproblem is found unfeasible
+    int bestEdgesPos[3];
+    double bestEdgesWeight[3];
     unsigned short src = candidate.positionInGraph;
     unsigned short others [candidate.num_neighbours];
     unsigned short num_others = 0;
-- 
2.43.0


From a7adda0e76583482c061a47c1668bfe90e0c02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/39] fix: mandatory edges of an unfeasible subproblem
 overflow their array

Branching, variable fixing and constraint inference can mark more than
MAX_VERTEX_NUM edges mandatory before the subproblem is found unfeasible;
the edges past the end overwrote the constraint matrix.
---
 src/HybridSolver/main/data_structures/b_and_b_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.h b/src/HybridSolver/main/data_structures/b_and_b_data.h
index f76eda6..116eb6d 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.h
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.h
@@ -53,7 +53,7 @@ typedef struct SubProblem{
     unsigned short num_forbidden_edges; ///< The number of forbidden edges in the SubProblem.
     unsigned short num_mandatory_edges; ///< The number of mandatory edges in the SubProblem.
     int edge_to_branch; ///< The id of the edge to branch in the SubProblem.
-    ConstrainedEdge mandatoryEdges [MAX_VERTEX_NUM]; ///< The mandatory edges in the SubProblem.
+    ConstrainedEdge mandatoryEdges [MAX_EDGES_NUM + 1]; ///< The mandatory edges in the SubProblem: an unfeasible one can have more than MAX_VERTEX_NUM, and the branching edge can be listed twice.
     ConstraintType constraints [MAX_VERTEX_NUM][MAX_VERTEX_NUM]; ///< The constraints of the edges in the SubProblem.
 }SubProblem;
 
-- 
2.43.0


From 0c5ea5fc93f0f02e9e5a015a4142e0837f5c35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 03/39] fix: bound leaks the generated one-trees when it closes
 a node early

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 601bcbc..90549cb 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -737,6 +737,7 @@ void bound(SubProblem *currentSubProb) {
                     if(analyzedSubProblem.type != OPEN){
                         if(iter == 1 || (analyzedSubProblem.type == CLOSED_SUBGRADIENT)) {
                             currentSubProb->type = analyzedSubProblem.type;
+                            delete_SubProblemList(&generatedSubProblems);
                             return;
                         }
                     }
@@ -780,10 +781,12 @@ void bound(SubProblem *currentSubProb) {
 
                 else{
                     currentSubProb->type = CLOSED_UNFEASIBLE;
+                    delete_SubProblemList(&generatedSubProblems);
                     return;
                 }
             } else {
                 currentSubProb->type = CLOSED_UNFEASIBLE;
+                delete_SubProblemList(&generatedSubProblems);
                 return;
             }
 
-- 
2.43.0


From 246eb9f3f3ada6ed11602e50e673bca519ff0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 04/39] fix: the report prints uninitialised fields of a
 nearest neighbour tour

edge_to_branch of both tours and timeToReach of the probabilistic one were
never set.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 90549cb..244b2e6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -850,6 +850,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
@@ -895,6 +896,8 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
+        prob_nn_subProblem.edge_to_branch = -1;
+        prob_nn_subProblem.timeToReach = nn_subProblem.timeToReach;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
-- 
2.43.0


From fdf569c1bdd82e2d0b3a39dd92e69b415813821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 05/39] fix: a graph smaller than MAX_VERTEX_NUM is solved with
 phantom nodes

variable_fixing read one-tree edges that do not exist, and
infer_constraints reasoned about nodes that are not in the graph.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 244b2e6..2b841b8 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -187,14 +187,14 @@ bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
 
-    for (short i = 0; i < MAX_VERTEX_NUM && valid; i++) {
+    for (short i = 0; i < problem->graph.num_nodes && valid; i++) {
 
         short num_nothing_node = 0;
         short num_mandatory_node = 0;
         short num_forbidden_node = 0;
         short nothing_nodes[MAX_VERTEX_NUM];
 
-        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
+        for (short j = 0; j < problem->graph.num_nodes; j++) {
             if (subProblem->constraints[i][j] == NOTHING) {
                 nothing_nodes[num_nothing_node] = j;
                 num_nothing_node++;
@@ -212,9 +212,9 @@ bool infer_constraints(SubProblem * subProblem){
                 subProblem->num_forbidden_edges++;
                 problem->num_fixed_edges++;
             }
-        } else if (num_mandatory_node > 2 || (MAX_VERTEX_NUM - num_forbidden_node < 2)) {
+        } else if (num_mandatory_node > 2 || (problem->graph.num_nodes - num_forbidden_node < 2)) {
             valid = false;
-        } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
+        } else if (problem->graph.num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
                 for (short j = 0; j < num_nothing_node; j++) {
@@ -470,7 +470,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From fa6c77fe7d18f76398da9b9d94578324dda4c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 06/39] fix: the interrupted flag comes from a second look at
 the clock

The clock can pass the limit, or fail, between the check that ends the
search and the one that set the flag: a complete search was then reported
as interrupted, or a cut one as complete. Open nodes left over decide it.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 2b841b8..0c7dad4 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1062,9 +1062,7 @@ void branch_and_bound(Problem *current_problem) {
             }
         }
 
-        if (time_limit_reached()) {
-            problem->interrupted = true;
-        }
+        problem->interrupted = subProblems.size != 0;
 
         problem->end = clock();
         delete_SubProblemList(&subProblems);
-- 
2.43.0


From 7b238c1919444e8f078d8b9f38cf4c9d1b116069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/39] fix: a truncated or unreadable matrix file is solved as
 if it were whole

A failed read was taken for the end of the file, a token cut short for a
whole one, and rows, columns and cities were never counted: the solver then
reported a tour of some other instance, or wrote past the graph when the
file has more than MAX_VERTEX_NUM cities. Every city now needs its whole row.
---
 src/HybridSolver/main/tsp_instance_reader.c | 41 ++++++++++++++-------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..9cbdca6 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -76,6 +76,14 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
 }
 
 
+//! Read a whole "(first, second)" token: false if it is not one, or if it is cut short.
+static bool parse_pair(const char *token, double *first, double *second) {
+    int end = 0;
+    return sscanf(token, "(%lf, %lf)%n", first, second, &end) == 2 && end > 0 &&
+           token[end + strspn(token + end, " \r\n")] == '\0';
+}
+
+
 void read_tsp_csv_file(Graph *graph, char *filename) {
     FILE *fp = fopen(filename, "r");
     if (fp == NULL) {
@@ -93,16 +101,16 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     char *line = NULL;
     size_t len = 0;
     bool first = true;
-    while (getline(&line, &len, fp) != -1) {
+    bool well_formed = true;
+    unsigned short node_num = 0;
+    while (well_formed && getline(&line, &len, fp) != -1) {
         if (first) {
             first = false;
 
             char *token = strtok(line, ";");
-            unsigned short node_num = 0;
             while (token != NULL && strcmp(token, "\n") != 0) {
                 double x = 0, y = 0;
-                int result = sscanf(token, "(%lf, %lf)", &x, &y);
-                if (result != 2) {
+                if (node_num == MAX_VERTEX_NUM || !parse_pair(token, &x, &y)) {
                     perror("Error while reading the file.\n");
                     printf("\nFile: %s\n", filename);
                     exit(1);
@@ -114,22 +122,23 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                 node_num++;
                 token = strtok(NULL, ";");
             }
+            // a city whose row is missing is left without neighbours
+            graph->num_nodes = node_num;
 
             continue;
         }
         char *token = strtok(line, ";");
         unsigned short j = 0;
         while (token != NULL && strcmp(token, "\n") != 0) {
-            if (j != i) {
-                double weight = 0, prob = 0;
+            double weight = 0, prob = 0;
 
-                int result = sscanf(token, "(%lf, %lf)", &weight, &prob);
-                if (result != 2) {
-                    perror("Error while reading the file.\n");
-                    printf("\nFile: %s\n", filename);
-                    exit(1);
-                }
+            if (i == node_num || j == node_num || !parse_pair(token, &weight, &prob)) {
+                perror("Error while reading the file.\n");
+                printf("\nFile: %s\n", filename);
+                exit(1);
+            }
 
+            if (j != i) {
                 if (weight > 0) {
                     if (j > i) {
                         graph->nodes[i].neighbours[graph->nodes[i].num_neighbours] = j;
@@ -155,10 +164,16 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
             token = strtok(NULL, ";");
             j++;
         }
-        graph->num_nodes++;
         i++;
+        well_formed = j == node_num;
     }
     free(line);
+    // a truncated row or a failed read is not the end of the file
+    if (!well_formed || ferror(fp) || !feof(fp) || node_num == 0) {
+        perror("Error while reading the file.\n");
+        printf("\nFile: %s\n", filename);
+        exit(1);
+    }
     if (fclose(fp) == EOF) {
         perror("Error while closing the file.\n");
         printf("\nFile: %s\n", filename);
-- 
2.43.0


From 9490c877e20acecdef70e4a21bc121f1d80d2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 08/39] fix: the solver exits 0 when its report could not be
 written

The result of opening, writing and closing the output file was ignored, so
a full disk or an unwritable path looked like success to HybridSolver.py.
---
 src/HybridSolver/main/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/main.c b/src/HybridSolver/main/main.c
index 21076fa..e0853f7 100644
--- a/src/HybridSolver/main/main.c
+++ b/src/HybridSolver/main/main.c
@@ -37,7 +37,10 @@ int main(int argc, char *argv[]) {
     //printf("\nReading from file '%s'\n", input_file);
     //printf("\nWriting to file '%s'\n", output_file);
 
-    freopen(output_file, "w+", stdout);
+    if (freopen(output_file, "w+", stdout) == NULL) {
+        perror("Error while opening the output file");
+        exit(1);
+    }
 
     //run_all_tests();
 
@@ -52,7 +55,11 @@ int main(int argc, char *argv[]) {
 
     print_problem();
 
-    fclose(stdout);
+    bool written = !ferror(stdout);
+    if (fclose(stdout) == EOF || !written) {
+        perror("Error while writing the output file");
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 350e2ea21db1353b44befdd4e615d65dd6e6f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 09/39] fix: a failed allocation is dereferenced

The search now stops with a message and exit status 1 when memory runs out.
---
 src/HybridSolver/main/data_structures/b_and_b_data.c      | 8 ++++++++
 .../data_structures/doubly_linked_list/list_functions.c   | 8 ++++++++
 .../data_structures/doubly_linked_list/list_iterator.c    | 4 ++++
 3 files changed, 20 insertions(+)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..d5c6ff9 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -43,6 +43,10 @@ bool is_SubProblemList_empty(SubProblemsList *list){
 
 SubProblemElem *build_list_elem(SubProblem *value, SubProblemElem *next, SubProblemElem *prev) {
     SubProblemElem *e = malloc(sizeof(SubProblemElem));
+    if (e == NULL) {
+        perror("Error while allocating memory");
+        exit(1);
+    }
     e->subProblem = *value;
     e->next = next;
     e->prev = prev;
@@ -161,6 +165,10 @@ SubProblemsListIterator *create_SubProblemList_iterator(SubProblemsList *list) {
         return NULL;
 
     SubProblemsListIterator *new_iterator = malloc(sizeof(SubProblemsListIterator));
+    if (new_iterator == NULL) {
+        perror("Error while allocating memory");
+        exit(1);
+    }
     new_iterator->list = list;
     new_iterator->curr = new_iterator->list->head;
     new_iterator->index = 0;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..713df5b 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -17,6 +17,10 @@
 
 List *new_list(void) {
     List *l = calloc(1, sizeof(List));
+    if (l == NULL) {
+        perror("Error while allocating memory");
+        exit(1);
+    }
 
     l->size = 0;
     l->head = l->tail = NULL;
@@ -45,6 +49,10 @@ void del_list(List *list) {
 
 DllElem *build_dll_elem(void *value, DllElem *next, DllElem *prev) {
     DllElem *e = malloc(sizeof(DllElem));
+    if (e == NULL) {
+        perror("Error while allocating memory");
+        exit(1);
+    }
     e->value = value;
     e->next = next;
     e->prev = prev;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_iterator.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_iterator.c
index 3b494d7..c4829a3 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_iterator.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_iterator.c
@@ -20,6 +20,10 @@ ListIterator *create_list_iterator(List *list) {
         return NULL;
 
     ListIterator *new_iterator = malloc(sizeof(ListIterator));
+    if (new_iterator == NULL) {
+        perror("Error while allocating memory");
+        exit(1);
+    }
     new_iterator->list = list;
     new_iterator->curr = new_iterator->list->head;
     new_iterator->index = 0;
-- 
2.43.0


From a1a214c2cf1efe0ccb09629b5d7973bc62e30b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 10/39] fix: an instance without a known tour is reported as
 solved

A nearest neighbour path that gets stuck, or cannot return to its start, was
closed with edges that do not exist and taken as the first solution, and a
graph found unfeasible was still reported with an optimal tour of cost 0.
---
 .../main/algorithms/branch_and_bound.c        | 35 +++++++++++++++++--
 src/HybridSolver/main/main.c                  |  5 +++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 0c7dad4..3b41b26 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -845,6 +845,16 @@ bool time_limit_reached(void) {
 }
 
 
+static bool is_neighbour(unsigned short node, unsigned short other) {
+    for (unsigned short i = 0; i < problem->graph.nodes[node].num_neighbours; i++) {
+        if (problem->graph.nodes[node].neighbours[i] == other) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
@@ -856,10 +866,15 @@ void nearest_prob_neighbour(unsigned short start_node) {
     unsigned short current_node = start_node;
     bool visited[MAX_VERTEX_NUM] = {false};
     ConstrainedEdge cycleEdge;
+    bool complete = true; // false if there is no edge to go on with
 
     for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!is_neighbour(current_node, start_node)) {
+                complete = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -877,6 +892,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                complete = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -886,7 +905,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    nn_subProblem.value = complete ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -901,10 +920,15 @@ void nearest_prob_neighbour(unsigned short start_node) {
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
+        bool prob_complete = true;
 
         for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!is_neighbour(current_node, start_node)) {
+                    prob_complete = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -922,6 +946,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    prob_complete = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -931,7 +959,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = prob_complete ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1019,11 +1047,12 @@ bool check_feasibility(Graph *graph) {
 void branch_and_bound(Problem *current_problem) {
 
     problem = current_problem;
+    problem->bestValue = INFINITE; // until a tour is found
+    problem->bestSolution.value = INFINITE;
 
     if (check_feasibility(&problem->graph)) {
 
         problem->start = clock();
-        problem->bestValue = INFINITE;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
diff --git a/src/HybridSolver/main/main.c b/src/HybridSolver/main/main.c
index e0853f7..97c1326 100644
--- a/src/HybridSolver/main/main.c
+++ b/src/HybridSolver/main/main.c
@@ -53,6 +53,11 @@ int main(int argc, char *argv[]) {
 
     branch_and_bound(&new_problem);
 
+    if (new_problem.bestValue == INFINITE) {
+        printf("\nNo tour found\n");
+        exit(1);
+    }
+
     print_problem();
 
     bool written = !ferror(stdout);
-- 
2.43.0


From 9f367f1b1d07bc831f32a3b010c048c3c52501c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 11/39] fix: HybridSolver.py guards its makedirs race with a
 module it does not import

---
 src/HybridSolver/main/HybridSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 8351373..ab5e93f 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -11,6 +11,7 @@
 
     Repo: https://github.com/LorenzoSciandra/GraphConvolutionalBranchandBound
 """
+import errno
 import subprocess
 import argparse
 import pprint as pp
-- 
2.43.0


From 163d1afa07f498aa8ec8cefc9f9257427c1f6c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 12/39] fix: a failed solver run is completed as if it had
 succeeded

The city list and the time were appended after a failure too, to a partial
report, to the report of an earlier run, or to a new file without one.
---
 src/HybridSolver/main/HybridSolver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index ab5e93f..dcef642 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -243,11 +243,12 @@ def hybrid_solver(num_instances, num_nodes, hyb_mode, gen_matrix):
         if hyb_mode:
             os.remove("graph-convnet-tsp/data/hyb_tsp/test_" + str(num_nodes) + "_nodes_temp.txt")
 
-        with open(output_file, "a") as f:
-            f.write("\nNodes: \n" + cities)
-            f.write("\nTime taken: " + str(end_time - start_time) + "s\n")
-            f.flush()
-            os.fsync(f.fileno())
+        if result.returncode == 0:
+            with open(output_file, "a") as f:
+                f.write("\nNodes: \n" + cities)
+                f.write("\nTime taken: " + str(end_time - start_time) + "s\n")
+                f.flush()
+                os.fsync(f.fileno())
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 93397cf590597f12e98209d31bac43c2b7dd9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 13/39] fix: probabilities of dummy cities are compared as
 strings

'9e-05' > '0.8': a real edge could be given the smaller probability.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 89da50f..199b39d 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -149,7 +149,7 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
 
             for j in range(num_nodes, model_size):
                 if i != j-num_nodes:
-                    if arr_combined[i * model_size + j][1] > final_arr[i * num_nodes + j - num_nodes][1]:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + j - num_nodes][1]):
                         final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
-- 
2.43.0


From 883c7a018d62b6f91cbcdfd5c23aaf052b4e0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 14/39] fix: dummy cities past the first round index the wrong
 edge

With more dummies than cities (num_nodes < model_size / 2) the dummies wrap
around the cities, but the index of the edge did not: it pointed into the
next rows, and past the end of the matrix.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 199b39d..78777cc 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -148,9 +148,10 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
                 final_arr.append(arr_combined[i * model_size + j])
 
             for j in range(num_nodes, model_size):
-                if i != j-num_nodes:
-                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + j - num_nodes][1]):
-                        final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
+                city = (j - num_nodes) % num_nodes  # the city that this dummy duplicates
+                if i != city:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + city][1]):
+                        final_arr[i * num_nodes + city][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
 
-- 
2.43.0


From 61aea9d2a36fd50d1754771c2dabbc7db823d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 15/39] fix: the matrix of an instance larger than the model is
 in another city order

The medoids were written first, so the tour found by the solver did not
refer to the cities listed in the result file.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 78777cc..9b8a8d3 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -177,7 +177,10 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
 
             j += 1
 
-        arr_combined = np.array(arr_combined).flatten().tolist()
+        # back to the order of the instance: the medoids come first so far
+        order = [nodes_coord.index(node) for node in graph]
+        nodes_coord = graph
+        arr_combined = np.array(arr_combined)[order][:, order].flatten().tolist()
         arr_combined = [[arr_combined[i], arr_combined[i + 1]] for i in range(0, len(arr_combined), 2)]
         nodes_coord = np.array(nodes_coord).flatten().tolist()
 
-- 
2.43.0


From e7cd8d0ade995b51c4fee883bc8177ef77b6ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 16/39] fix: a matrix whose rows disagree about an edge crashes
 the search

A matrix with one row lost and another doubled has edges seen from one
of their two cities only. The search then reads edges_matrix entries
that were never written and indexes its arrays with them.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 3b41b26..f533eed 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1039,6 +1039,19 @@ bool check_feasibility(Graph *graph) {
             printf("\nThe graph is not feasible for the BB algorithm. Node %i has less than 2 neighbors.",
                    current_node.positionInGraph);
         }
+        // an edge seen from one side only has no entry in the edges matrix
+        for (short j = 0; feasible && j < current_node.num_neighbours; j++) {
+            Node *neighbour = &graph->nodes[current_node.neighbours[j]];
+            bool mutual = false;
+            for (short k = 0; !mutual && k < neighbour->num_neighbours; k++) {
+                mutual = neighbour->neighbours[k] == i;
+            }
+            if (!mutual) {
+                feasible = false;
+                printf("\nThe graph is not feasible for the BB algorithm. Edge %i <-> %i is given in one direction only.",
+                       i, neighbour->positionInGraph);
+            }
+        }
     }
     return feasible;
 }
-- 
2.43.0


From b6da3d8de33699e4858658b381469b950c4d4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 17/39] fix: infinite or nan entries of a matrix crash the
 search

With a weight that is not finite, or so large that sums of weights are
not, the search finds no best edge and indexes its arrays with -1.
---
 src/HybridSolver/main/tsp_instance_reader.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 9cbdca6..8c35b56 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -76,10 +76,15 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
 }
 
 
-//! Read a whole "(first, second)" token: false if it is not one, or if it is cut short.
+//! The largest number of a matrix file: the search adds up and scales weights, and must not reach infinity.
+#define MAX_NUMBER 1e100
+
+
+//! Read a whole "(first, second)" token: false if it is not one, or if it is cut short, or if a number is out of range.
 static bool parse_pair(const char *token, double *first, double *second) {
     int end = 0;
     return sscanf(token, "(%lf, %lf)%n", first, second, &end) == 2 && end > 0 &&
+           fabs(*first) <= MAX_NUMBER && fabs(*second) <= MAX_NUMBER &&
            token[end + strspn(token + end, " \r\n")] == '\0';
 }
 
-- 
2.43.0


From ae3ac5a76b80312cad5c36b727834eb55f86b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 18/39] fix: dummy cities are lost behind the end of a line
 that gives no tour

The driver passes the line of the dataset on as it is. Without ' output' it
ends with a newline, and the dummy cities appended after it formed a second
line: the step then failed on every such instance smaller than the model.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 9b8a8d3..8543515 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -217,7 +217,7 @@ def add_dummy_cities(num_nodes, model_size):
         lines = f.readlines()
         graph_str = lines[0]
 
-    graph_str = graph_str.split(" output")[0]
+    graph_str = graph_str.split(" output")[0].strip()
     if graph_str is None:
         raise Exception("The input file is empty.")
 
-- 
2.43.0


From b85688f7cb8befe1ff1b768864a0805b5111317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 19/39] fix: a truncated instance larger than the model yields
 a malformed matrix

With fewer cities than announced, but enough for the clustering, the rows of
the written matrix ran into each other, and the step ended with status 0.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 8543515..9926523 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -363,6 +363,8 @@ def main(filepath, num_nodes, model_size):
         add_dummy_cities(num_nodes, model_size)
     elif num_nodes > model_size:
         graph = get_instance(num_nodes)
+        if len(graph) != num_nodes:
+            raise Exception("The current instance has " + str(len(graph)) + " cities instead of " + str(num_nodes) + ".")
         kmedoids_labels = fix_instance_size(graph, num_nodes)
 
     config_path = "./logs/tsp" + str(model_size) + "/config.json"
-- 
2.43.0


From 874eb632706782d320967c0ad8f5e5a54d0b099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 20/39] fix: dummy cities of instances with large coordinates

A shift of at most 9e-15 does not change a coordinate of 128 or more, so that
no dummy city different from the cities was ever found and the step never
ended. The shift is now at least as large as the spacing of the numbers.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 9926523..ed917d0 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -231,8 +231,8 @@ def add_dummy_cities(num_nodes, model_size):
         while not find:
             values = np.random.randint(1, 9, 2)
             signs = np.random.choice([-1, 1], 2)
-            x = graph[rr_index][0] + signs[0] * values[0] * 0.000000000000001
-            y = graph[rr_index][1] + signs[1] * values[1] * 0.000000000000001
+            x = graph[rr_index][0] + signs[0] * values[0] * max(0.000000000000001, np.spacing(abs(graph[rr_index][0])))
+            y = graph[rr_index][1] + signs[1] * values[1] * max(0.000000000000001, np.spacing(abs(graph[rr_index][1])))
             if [x, y] not in graph:
                 find = True
 
-- 
2.43.0


From 1121d50f5ae9f81df8238d90d7bdc1440a36167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 21/39] fix: room for every degree when the Fibonacci heap is
 consolidated

---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..bd0f1aa 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,8 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    // a tree of degree d has at least phi^d nodes, since each of its nodes can have lost a child
+    int dimension = ((int) ceil(log(heap->num_nodes) / log((1 + sqrt(5)) / 2))) + 2;
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From af1a98fd3c2e40c3a2f945ad31cd4fe563320af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 22/39] fix: the tail of a list when an element is added at its
 end by index

---
 .../main/data_structures/doubly_linked_list/list_functions.c     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 713df5b..07105ea 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -118,6 +118,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From a815187da936e543d37bf4289c949d0a38dc945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 23/39] fix: delete the only element from the bottom of a list

---
 .../data_structures/doubly_linked_list/list_functions.c     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 07105ea..4261272 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -142,7 +142,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail != NULL) {
+        list->tail->next = NULL;
+    } else {
+        list->head = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From 00f348f579d6b32019df7f8ad86c8002b34233d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 24/39] fix: sort the edges of a graph that has none

---
 src/HybridSolver/main/algorithms/kruskal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..97ab890 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,10 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        // without edges the last index would wrap around
+        if (graph->num_edges > 0) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From a7bf3f34feb074bfafbd0b0e6eaa0ab4cb7d887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 25/39] fix: refuse TSPLIB files whose distances are not EUC_2D

---
 src/HybridSolver/main/tsp_instance_reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 8c35b56..853545d 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,8 +28,9 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
-            check_euc_2d = true;
+        char type[16];
+        if (sscanf(line, " EDGE_WEIGHT_TYPE : %15s", type) == 1) {
+            check_euc_2d = strcmp(type, "EUC_2D") == 0;
         }
     }
 
-- 
2.43.0


From 09a8055b81d6f3b5b72d35a014ab27838431202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 26/39] fix: refuse TSPLIB files that are cut short, damaged or
 too large

---
 src/HybridSolver/main/tsp_instance_reader.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 853545d..a613890 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -26,12 +26,14 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     char *line = NULL;
     size_t len = 0;
     bool check_euc_2d = false;
+    unsigned int dimension = 0;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
         char type[16];
         if (sscanf(line, " EDGE_WEIGHT_TYPE : %15s", type) == 1) {
             check_euc_2d = strcmp(type, "EUC_2D") == 0;
         }
+        sscanf(line, " DIMENSION : %u", &dimension);
     }
 
     if (!check_euc_2d) {
@@ -45,14 +47,14 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     graph->kind = WEIGHTED_GRAPH;
     List *nodes_list = new_list();
     bool end_of_file = false;
-    while (getline(&line, &len, fp) != -1 && !end_of_file) {
+    while (!end_of_file && getline(&line, &len, fp) != -1) {
         if (strstr(line, "EOF") == NULL) {
             unsigned short id;
             float x;
             float y;
 
             int result = sscanf(line, "%hu %f %f", &id, &x, &y);
-            if (result != 3) {
+            if (result != 3 || i == MAX_VERTEX_NUM) {
                 perror("Error while reading the file.\n");
                 printf("\nFile: %s\n", filename);
                 exit(1);
@@ -68,6 +70,12 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
         }
     }
     free(line);
+    // a file cut short or a failed read is not the end of the cities
+    if (ferror(fp) || i == 0 || i != dimension) {
+        perror("Error while reading the file.\n");
+        printf("\nFile: %s\n", filename);
+        exit(1);
+    }
     if (fclose(fp) == EOF) {
         perror("Error while closing the file.\n");
         printf("\nFile: %s\n", filename);
-- 
2.43.0


From 0f79db171842be575b8c6b152b010ef9c96165e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 27/39] fix: measure the time of an instance with a clock that
 cannot be set

The wall clock can be set while an instance is solved (by hand, by NTP, by
a suspended machine), and the time written with its result was then wrong
or negative, and the analysis of the results failed on it.
---
 src/HybridSolver/main/HybridSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index dcef642..bfcfca4 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -186,7 +186,7 @@ def hybrid_solver(num_instances, num_nodes, hyb_mode, gen_matrix):
     print("Ending instance: " + str(end_instance))
 
     for i in range(start_instance, end_instance + 1):
-        start_time = time.time()
+        start_time = time.monotonic()
         graph, str_graph = get_instance(i, num_nodes)
         input_file = "../data/AdjacencyMatrix/tsp_" + str(num_nodes) + "_nodes/tsp_test_" + str(i) + ".csv"
         absolute_input_path = os.path.abspath(input_file)
@@ -237,7 +237,7 @@ def hybrid_solver(num_instances, num_nodes, hyb_mode, gen_matrix):
         else:
             print('Branch-and-Bound failed on instance ' + str(i) + ' / ' + str(end_instance))
 
-        end_time = time.time()
+        end_time = time.monotonic()
         cities = get_nodes(graph)
 
         if hyb_mode:
-- 
2.43.0


From aaccb7a9499416b08dbb8c4c4093ecd16f0a3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 28/39] fix: an instance without a solution yet is not a win of
 the classic solver

In the improvement profile both values are infinite until a first solution
is found; their difference is no number, and the instance was counted as
better in classic mode.
---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index ddccab2..fe5affb 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -60,8 +60,8 @@ def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
         one_count = 0
         two_count = 0
         for key in sol_one.keys():
-            # if the two solutions are contained in the ub range, we consider them equal
-            if not abs(sol_one[key] - sol_two[key]) < ub:
+            # if the two solutions are contained in the ub range, or neither exists yet, we consider them equal
+            if sol_one[key] != sol_two[key] and not abs(sol_one[key] - sol_two[key]) < ub:
                 if sol_one[key] < sol_two[key]:
                     one_count += 1
                 else:
-- 
2.43.0


From 5904e4450924ad6189f8a53594f282e335b6cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 29/39] fix: the improvement profile compares the instances run
 in both modes

It failed with a KeyError when an instance had only been run in hybrid
mode, and took the times of instances run in classic mode only.
---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index fe5affb..2168191 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -22,6 +22,11 @@ import pandas as pd
 
 
 def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
+    # only the instances that were run in both modes can be compared
+    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
+    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
+    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}
+
     # take all the times of the partial solutions
     times = set()
 
-- 
2.43.0


From 7140355a3804605fd6d811be52d05ae6f2dc6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 30/39] fix: print the classic mean in bold when it is better
 but not significantly

The command was written with a tab character instead of its backslash.
---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 2168191..029a225 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -408,7 +408,7 @@ def modify_string(old_tab, line, name, j):
         if p_val < 0.05:
             old_tab = old_tab.replace(name + "_" + str(j),  "\\underline{\\textbf{" + str(cla_m) + "}}")
         else:
-            old_tab = old_tab.replace(name + "_" + str(j),  "\textbf{" + str(cla_m) + "}")
+            old_tab = old_tab.replace(name + "_" + str(j),  "\\textbf{" + str(cla_m) + "}")
 
         old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\stdf{" + str(hyb_std) + "}")
         old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))
-- 
2.43.0


From adf169dbee5f911bb4ff036c43f26acd07994b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 31/39] fix: do not convert a TSPLIB file that is cut short

A file with fewer nodes than its DIMENSION, or without any, was silently
converted to a smaller problem.
---
 src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py b/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
index 233c6ef..95d2cba 100644
--- a/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
+++ b/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
@@ -80,17 +80,23 @@ def convert_custom_euclidean(input_file, output_file):
         output_file (str): The path of the .dat file to create.
     """
     find_coord = False
+    dimension = None
     nodes_coord = []
     with open(input_file, "r") as file:
         for line in file:
             if line.strip() == "NODE_COORD_SECTION":
                 find_coord = True
                 continue
+            if not find_coord and line.split(":")[0].strip() == "DIMENSION":
+                dimension = int(line.split(":")[1])
             if find_coord:
                 values = line.split()
                 if len(values) == 3:
                     nodes_coord.append((float(values[1]), float(values[2])))
     
+    if not find_coord or (dimension is not None and dimension != len(nodes_coord)):
+        print('Error: ' + input_file + ' holds ' + str(len(nodes_coord)) + ' nodes instead of ' + str(dimension))
+        sys.exit(1)
 
     distance_matrix = np.zeros((len(nodes_coord), len(nodes_coord)))
     for i in range(len(nodes_coord)):
-- 
2.43.0


From 9356699a4cb22fbcc8025949e71d184b74e5226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 32/39] fix: the converter reports its errors with its exit
 status

It ended with status 0 for an invalid argument and a matrix that is not
square.
---
 src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py b/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
index 95d2cba..91361bc 100644
--- a/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
+++ b/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
@@ -69,7 +69,7 @@ def convert(input_file, output_file):
     for i in range(len(lengths)):
         if lengths[i] != lengths[0]:
             print('Error: the matrix is not square')
-            sys.exit(0)
+            sys.exit(1)
 
 
 def convert_custom_euclidean(input_file, output_file):
@@ -149,7 +149,7 @@ if __name__ == '__main__':
             euclidean = True
         else:
             print('Error: invalid argument')
-            sys.exit(0)
+            sys.exit(1)
 
     convert_all_file(euclidean)
     
-- 
2.43.0


From 650e0b9d7b33a76b223bab61aa18a6e712f91e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 33/39] fix: of two waiting subproblems with the same value,
 take up the more probable one first

The README has it that subproblems with the same value are ordered by their probability, but the comparison
asked for a strictly lower value, so that the two children of a subproblem, or any others with equal values,
stayed in the order in which they had been generated, however much their probabilities differed.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index f533eed..5a53371 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -648,7 +648,7 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 bool compare_subproblems(const SubProblem *a, const SubProblem *b) {
     if (HYBRID) {
         return (b->value - a->value) > EPSILON ||
-                ( (b->value > a->value) && (a->prob - b->prob) >= BETTER_PROB);
+                ( (b->value >= a->value) && (a->prob - b->prob) >= BETTER_PROB);
     } else {
         return (b->value - a->value) > EPSILON;
     }
-- 
2.43.0


From d9494a6772f799d64dd5521c7cd6ce57c47b8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 34/39] fix: of two vertices with the same bound, start from
 the more probable one

In hybrid mode the candidate node is meant to be, among those with an equal bound, one whose one-tree is more
probable. The comparison asked for a strictly higher bound, so that with equal bounds the first vertex was taken
whatever the probabilities.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 5a53371..cac64d8 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -986,7 +986,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
 bool compare_candidate_node(SubProblem * a, SubProblem * b){
     if (HYBRID) {
         return (a->value - b->value) > EPSILON ||
-            ((a->value > b->value) && (a->prob - b->prob) >= BETTER_PROB);
+            ((a->value >= b->value) && (a->prob - b->prob) >= BETTER_PROB);
     } else {
         return (a->value - b->value) >= EPSILON;
     }
-- 
2.43.0


From 0c4e5413dc5db676dc1f425fab0ef47ef6a8a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:13 +0000
Subject: [PATCH 35/39] fix: report a tour closed by the 1-tree as CLOSED_1TREE

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index cac64d8..69a6ece 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1130,6 +1130,8 @@ void print_subProblem(const SubProblem *subProblem) {
         type = "CLOSED_NEAREST_NEIGHBOR";
     } else if (subProblem->type == CLOSED_NN_HYBRID) {
         type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
+    } else if (subProblem->type == CLOSED_1TREE) {
+        type = "CLOSED_1TREE";
     } else {
         type = "CLOSED_SUBGRADIENT";
     }
-- 
2.43.0


From be974c83ed42ae6bf24fdb747d114d40cc7b0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:59 +0000
Subject: [PATCH 36/39] fix: a mandatory edge comes first in Prim's algorithm
 at any scale of the weights

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 69a6ece..4e5f01d 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -591,9 +591,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -INFINITE;
+            graph_copy.edges_matrix[dest][src].weight = -INFINITE;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -INFINITE;
         }
     }
 
-- 
2.43.0


From e093783a17e126d450a3b0e9227bb7822a20d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:59 +0000
Subject: [PATCH 37/39] fix: constrained Prim reaches every vertex, however
 large the weights

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 4e5f01d..c4bf655 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -580,7 +580,7 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
     for (unsigned short i = 0; i < graph->num_nodes; i++){
         in_heap[i] = false;
         fathers[i] = -1;
-        values[i] = start ? FLT_MAX/2 : FLT_MAX;
+        values[i] = start ? INFINITE/2 : INFINITE;
         start = false;
     }
 
-- 
2.43.0


From 1cfdcdac6709058e9ff075b59000b861b7df5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:59 +0000
Subject: [PATCH 38/39] fix: a subproblem inserted at the end of the list
 becomes its last

---
 src/HybridSolver/main/data_structures/b_and_b_data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index d5c6ff9..84e00e3 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -103,6 +103,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From fb6b5c1faa407cddd70486d20c393830abe72bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 39/39] fix: printing the edges of a graph or tree overflows no
 buffer

---
 src/HybridSolver/main/data_structures/graph.c | 13 +++-------
 src/HybridSolver/main/data_structures/mst.c   | 24 +++++--------------
 2 files changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 26da3df..d0932fe 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -113,19 +113,12 @@ void print_graph(const Graph *G) {
     printf("\nCost: %lf\n", G->cost);
     printf("\nEdges: %i\n", G->num_edges);
 
-    double dim = (log(G->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short j = 0; j < G->num_edges; j++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         Edge curr = G->edges[j];
-        sprintf(edge_print, "%i", curr.src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr.dest);
-        strcat(edge_print, edge_print_dest);
-
-        printf("Edge%i:\t%s\tweight = %.*f\tprob = %.*f\n",
+        printf("Edge%i:\t%i <--> %i\tweight = %.*f\tprob = %.*f\n",
                curr.symbol,
-               edge_print,
+               curr.src,
+               curr.dest,
                DBL_DIG-1,
                curr.weight,
                DBL_DIG-1,
diff --git a/src/HybridSolver/main/data_structures/mst.c b/src/HybridSolver/main/data_structures/mst.c
index 3e71278..c07bac7 100644
--- a/src/HybridSolver/main/data_structures/mst.c
+++ b/src/HybridSolver/main/data_structures/mst.c
@@ -70,18 +70,12 @@ void add_edge(MST * tree, const Edge * edge){
 void print_mst(const MST * tree){
     printf("\nMST or 1-Tree with cost: %lf and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
-        printf("Edge%i:\t%s\tweight = %lf\tprob = %lf\n",
+        printf("Edge%i:\t%i <--> %i\tweight = %lf\tprob = %lf\n",
                curr->symbol,
-               edge_print,
+               curr->src,
+               curr->dest,
                curr->weight,
                curr->prob);
     }
@@ -92,18 +86,12 @@ void print_mst(const MST * tree){
 void print_mst_original_weight(const MST * tree, const Graph * graph){
     printf("\nMST or 1-Tree with cost: %f and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
-        printf("Edge%i: %s weight = %f prob = %f\n",
+        printf("Edge%i: %i <--> %i weight = %f prob = %f\n",
                curr->symbol,
-               edge_print,
+               curr->src,
+               curr->dest,
                graph->edges_matrix[curr->src][curr->dest].weight,
                curr->prob);
     }
-- 
2.43.0

