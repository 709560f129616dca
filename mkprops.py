#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json
BB='src/HybridSolver/main/algorithms/branch_and_bound.c'
MAIN='src/HybridSolver/main/main.c'
RD='src/HybridSolver/main/tsp_instance_reader.c'
MST='src/HybridSolver/main/data_structures/mst.c'
PRIM='src/HybridSolver/main/algorithms/prim.c'
KRU='src/HybridSolver/main/algorithms/kruskal.c'
FIB='src/HybridSolver/main/data_structures/fibonacci_heap.c'
BBD='src/HybridSolver/main/data_structures/b_and_b_data.c'
LST='src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c'
PS='src/HybridSolver/main/problem_settings.h'
PY='src/HybridSolver/main/HybridSolver.py'
NN='src/HybridSolver/main/graph-convnet-tsp/main.py'
GR='src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py'
TESTS="The existing tests run each solver function once on one fixed five-city graph, with the real clock and disk, and assert nothing but a clean exit: "
PT="No test runs the Python side at all (it is only parsed): "
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

REP=['exit status of the solver process','the report it leaves in the output file']
prop('C01','Every reported tour visits each city exactly once',
 "Whenever a solver run exits with status 0, the cycle in its report visits every city of the input matrix exactly once and closes, using only pairs of cities whose distance in the matrix is positive. This holds wherever the time limit cuts the search short, in classic and hybrid mode, and for either minimum-spanning-tree algorithm.",
 ['schedules','inputs','configurations'],"every symmetric instance with 3 or more cities (complete or with zero-distance pairs, i.e. missing edges), every clock history and so every point at which the search is stopped, both modes, Prim and Kruskal builds, matrices as large as or smaller than the built size",
 TESTS+"no tour is looked at, and the real clock never reaches the limit, so a search that is cut short is never seen.",
 [BB,MST,PRIM,KRU,MAIN],[('Hamiltonian check of a one-tree before it becomes the best solution',BB+' check_hamiltonian, dfs'),('starting tours',BB+' nearest_prob_neighbour'),('best-solution bookkeeping in the bounding step',BB+' bound')],
 [dict(name='bestSolution',meaning='the tour that is reported',where='Problem in b_and_b_data.h')],REP)
prop('C02','The reported cost and probability are those of the reported tour',
 "In every report of a run that exits with status 0, the cost is the sum of the input distances along the reported cycle, to the printed precision. In hybrid mode the reported tour probability is the mean of the input probabilities of the cycle's edges, and in classic mode it is 0.",
 ['schedules','inputs','configurations'],"as C01: every instance, every stopping point, both modes, both spanning-tree algorithms",
 TESTS+"no cost or probability is compared with the tour, and the dual-reformulated weights that could leak into the report only appear in a real search.",
 [BB,MST],[('cost and running mean probability of a tree',MST+' add_edge'),('cost recomputed on the original weights',BB+' bound')],None,REP)
prop('C03','A search not reported as interrupted is optimal',
 "When a report says interrupted = FALSE, no tour of the input matrix is cheaper than the reported one by more than the printed tolerance SUBPROBLEM_UB, which is a thousandth of 1.27 times the square root of the built number of cities. This holds whatever the clock did during the run, in both modes and with either spanning-tree algorithm.",
 ['schedules','inputs','configurations'],"every symmetric instance with distances of the order of 1 (Euclidean or not, with ties, clusters, collinear cities, near-ties at the scale of the tolerance, missing edges), any probabilities in [0,1], every clock history",
 TESTS+"optimality is a statement about all tours of all instances, and which searches count as uninterrupted depends on the clock.",
 [BB,MST,PRIM,KRU,FIB,BBD,LST,PS],[('pruning by the dual bound',BB+' bound'),('constraint inference and variable fixing',BB+' infer_constraints, variable_fixing'),('open-node queue',BBD),('loop until no open node is left',BB+' branch_and_bound')],
 [dict(name='EPSILON',meaning='pruning tolerance, printed as SUBPROBLEM_UB',where=PS)],REP)
prop('C04','The processor-time limit is honoured, and only it stops the search',
 "A search is never cut short before 600 seconds of processor time have passed since it began. Once more than that has passed (limit counted in whole seconds), the solver at most finishes the subproblem it is working on, then stops and reports. The limit is one of processor time: jumps of the wall clock do not matter.",
 ['schedules','fault_sequences'],"every instance, every rate and jump of the processor clock, every point of the search at which the limit passes, wall-clock jumps, failed clock reads",
 TESTS+"the limit is ten minutes of processor time and every test ends in milliseconds, so the limit code never fires.",
 [BB,PS],[('limit check before each subproblem',BB+' time_limit_reached, branch_and_bound')],
 [dict(name='start',meaning='processor time at which the search began',where='Problem in b_and_b_data.h')],REP+['calls to the clock'],None)
prop('C05','The interrupted flag tells whether work was left undone',
 "A report says interrupted = TRUE only if the time limit passed while subproblems were still waiting, and FALSE only if none was left. In particular a search that finishes before the limit passes is never flagged, and one that is cut short always is.",
 ['schedules','fault_sequences'],"every instance and clock history: slow and fast clocks, jumps between any two reads of the clock, clock reads that fail",
 TESTS+"the flag only matters when the clock crosses the limit at an awkward moment, and no test controls the clock.",
 [BB],[('flag set when the loop ends',BB+' branch_and_bound')],[dict(name='interrupted',meaning='the flag',where='Problem in b_and_b_data.h')],REP)
prop('C06','The best tour only improves, from a nearest-neighbour start',
 "The improvements logged during a run are strictly decreasing in cost, the reported cost equals the last of them, and no reported tour, however early the search was stopped, costs more than the best tour that the nearest-neighbour rule builds from any starting city. In hybrid mode it also costs no more than the best tour of the most-probable-neighbour rule.",
 ['schedules','inputs','configurations'],"every complete instance without ties between distances or probabilities, every stopping point",
 TESTS+"an anytime guarantee is about every point at which the search can be stopped; the tests never stop one.",
 [BB],[('starting tours from every city',BB+' find_candidate_node, nearest_prob_neighbour'),('improvement test and log line',BB+' bound')],None,REP)
prop('C07','The clock decides only where the search stops',
 "Two runs of one build on one matrix give the same exit status and the same report except for measured times whenever neither is cut short, whatever the clock, the contents of uninitialised memory, the size of the pieces in which the input arrives and the report leaves. A run that is cut short logs a prefix of the improvements of the full run, explores and generates no more subproblems, and reports the last improvement of that prefix, or the starting tour.",
 ['schedules','inputs','histories'],"every instance, every pair of clock histories, memory contents, read sizes and write sizes",
 TESTS+"reproducibility relates pairs of runs under different environments, and the tests make one run in one environment.",
 [BB,RD,MAIN,BBD],[('all state initialised before use',BB),('search order independent of measured times',BB+' compare_subproblems, branch')],None,REP)
prop('C08','A torn or unreadable matrix is never reported as solved',
 "If the matrix file is cut short, loses rows or part of a row, has rows too many, lists more cities than the build allows, cannot be opened, or fails while it is read, the solver exits with a non-zero status and leaves no finished report. How the bytes of a whole file are split among reads makes no difference.",
 ['fault_sequences','inputs','crash_points'],"every truncation point that cuts data, every lost or repeated row, missing pair or damaged pair, every failing read position and error, short reads",
 TESTS+"they read two well-formed files from a healthy disk.",
 [RD,MAIN,BB],[('shape of the file',RD+' read_tsp_csv_file'),('cities without enough neighbours',BB+' check_feasibility')],None,REP)
prop('C09','Exit status 0 means the complete report is in the output file',
 "If the solver exits with status 0, every byte of its report was accepted by the file system and the file holds exactly one complete report and nothing of an earlier one. If the output file cannot be opened, or any write or the final close fails, the exit status is non-zero.",
 ['fault_sequences'],"every instance and every failure of opening, of any write (permanent or once only, full disk, short writes) and of closing the output file, with any earlier content in the file",
 TESTS+"their output goes to a healthy disk and nobody checks it against the exit status.",
 [MAIN,BB],[('redirect, print, close',MAIN+' main'),('report',BB+' print_problem')],None,REP)
prop('C10','Running out of memory never yields a report',
 "If an allocation made by the solver fails at any point, the process ends with a non-zero exit status and a message, without touching memory it does not own and without a finished report. The one exception is a failure that changes nothing: then the report equals that of a run without the failure.",
 ['fault_sequences'],"every instance and every single failing allocation of a run, also a limit on the memory in use and runs of failures",
 TESTS+"no allocation ever fails in them.",
 [BBD,LST,RD,BB,'src/HybridSolver/main/data_structures/doubly_linked_list/list_iterator.c'],[('allocation of list elements and iterators',BBD+' build_list_elem; '+LST),('line buffer of the reader',RD)],None,REP)
prop('C11','The solver touches only memory it owns',
 "No run of the solver reads or writes outside its objects, uses freed or never-written memory, overflows its stack for builds of up to 100 cities, or relies on undefined arithmetic, whatever the matrix file contains, wherever the search is stopped and whichever call fails.",
 ['inputs','schedules','fault_sequences','configurations'],"every input file (well-formed or torn), stopping point and I/O fault, both modes, both spanning-tree algorithms",
 TESTS+"the out-of-bounds accesses need mandatory edges to pile up in an infeasible subproblem, or a torn file, which one five-city graph does not produce.",
 [BB,BBD,RD,MST,KRU,FIB,'src/HybridSolver/main/data_structures/mfset.c'],[('fixed-size arrays sized by MAX_VERTEX_NUM','src/HybridSolver/main/data_structures/*.h')],None,['sanitizer report, memory guard or signal'])
prop('C12','Everything allocated is released, however the search ends',
 "When a solver run exits with status 0, every block it allocated has been freed exactly once and every file it opened has been closed, wherever the time limit stopped the search. The memory in use never exceeds a small constant plus a fixed amount per waiting subproblem, so a long search is not ended by its own leftovers.",
 ['schedules','inputs'],"every instance, every stopping point, every path on which a subproblem is closed",
 TESTS+"they never look at the heap, and a leak per closed subproblem only matters after many of them.",
 [BB,BBD,LST,RD],[('lists deleted on every path',BB+' bound, branch_and_bound'),('element removal',BBD+' delete_SubProblemList_elem_index')],None,['allocator calls of the solver'])
prop('C13','An instance for which no tour is known is never reported as solved',
 "If the input graph has no Hamiltonian cycle, or the time limit stops the search before any tour was found, the solver exits with a non-zero status and its output holds no tour. If the graph has a Hamiltonian cycle and the search is not cut short, the solver reports one.",
 ['inputs','schedules'],"every graph given by a symmetric matrix in which a distance of 0 means no edge, every stopping point",
 TESTS+"all their graphs are complete and every search runs to its end.",
 [BB,MAIN],[('degree check',BB+' check_feasibility'),('no tour yet: infinite best value',BB+' branch_and_bound, nearest_prob_neighbour')],None,REP)
prop('C14','Reported times are processor times measured from the start of the search',
 "The elapsed time in a report is the processor time between the beginning and the end of the search; each improvement carries the processor time at which it was found, and the reported tour the processor time, since the start, at which its subproblem was taken up. So logged times never decrease and none exceeds the elapsed time.",
 ['schedules'],"every instance, every rate and jump of the processor clock, any start value of it, any wall clock",
 TESTS+"printed times are never looked at, and the real clock shows 0.000000 everywhere.",
 [BB],[('time stamps',BB+' bound, nearest_prob_neighbour, print_problem')],[dict(name='timeToReach',meaning='when the subproblem was taken up',where='SubProblem in b_and_b_data.h')],REP)
prop('C15','The figures of a report agree with each other and with the build',
 "Every report written with exit status 0 is complete and consistent: it names the spanning-tree algorithm and the bounds the program was built with, a candidate node that is one of the cities, an odd number of generated subproblems (the root and pairs of children), no more explored ones, and a depth that this many subproblems can have. The reported subproblem is a starting tour (level 0, number 0, no logged improvement, no mandatory or forbidden edge) or one of the tree (its number and level within those of the tree, the root alone at level 1, at least one logged improvement); in classic mode it is never of the most-probable-neighbour type, and in hybrid mode a starting tour is of that type exactly if that rule gave the cheaper one; a tour all of whose edges were mandatory is reported as closed by its one-tree, and one of the root as closed by the one-tree exactly if the root's one-tree is a tour.",
 ['schedules','inputs','configurations'],"every instance, every stopping point, both modes, both spanning-tree algorithms",
 TESTS+"no figure of a report is compared with another.",
 [BB,PS],[('counters of the search',BB+' branch, bound, branch_and_bound'),('report',BB+' print_problem, print_subProblem')],None,REP)
prop('C16','The search starts at a vertex whose one-tree gives the best bound',
 "On a complete graph, the candidate node of a report is a vertex whose minimum one-tree (a minimum spanning tree of the other cities and the two shortest edges of the vertex) costs no less than the one of any other vertex, up to the printed tolerance SUBPROBLEM_UB. In hybrid mode no other vertex has a one-tree of the same or a higher cost whose mean probability is greater by 0.05 or more (where the minimal one-trees are unique).",
 ['inputs','configurations','schedules'],"every complete symmetric instance, ties and near ties included, both modes, both spanning-tree algorithms, every clock history",
 TESTS+"they do not compare candidates, and with one fixed graph a wrong spanning tree may go unnoticed.",
 [BB,PRIM,KRU,FIB,MST],[('try every vertex, keep the best bound',BB+' find_candidate_node, compare_candidate_node'),('one-tree of a vertex',BB+' constrained_prim, constrained_kruskal, mst_to_one_tree')],None,REP)
prop('C17','Only distances decide, and in hybrid mode the probabilities',
 "The coordinates in the first row of a matrix file never influence the outcome, and in classic mode neither do the probabilities: two files that differ in nothing else give the same exit status and the same report except for measured times, also when the time limit passes at the same read of the clock.",
 ['inputs','schedules','configurations'],"every symmetric instance, every other set of coordinates and (classic mode) probabilities, every stopping point",
 TESTS+"they never solve the same distances twice.",
 [BB,RD,MST],[('classic mode ignores probabilities',BB+' branch, compare_subproblems, nearest_prob_neighbour'),('distances come from the matrix',RD+' read_tsp_csv_file')],None,REP)

prop('C18','The search takes up the best waiting subproblem first',
 "Whenever the search takes up a waiting subproblem, no other waiting one has a value lower by more than the tolerance SUBPROBLEM_UB. In hybrid mode, moreover, no other one with the same or a lower value has a probability greater by 0.05 or more.",
 ['histories','inputs','schedules','configurations'],"every history of branchings of every instance (ties, values that differ by less than the tolerance, any probabilities), both modes, both spanning-tree algorithms, every stopping point",
 TESTS+"the order in which waiting subproblems are taken up depends on the whole history of the search and leaves no trace in a report.",
 [BB,BBD],[('place of a child in the list of waiting subproblems',BB+' branch, compare_subproblems'),('the first of the list is taken up',BB+' branch_and_bound'),('insertion and removal by index',BBD)],
 [dict(name='SubProblemsList',meaning='waiting subproblems, in order',where='b_and_b_data.h')],['calls that take a subproblem from the list'],None)
DR=['result files','matrix files','commands the driver starts']
prop('D01','Each requested instance is solved from its own data, into its own result',
 "For a range a-b (a single number n means 1-n, and a start of 0 means 1) the driver runs the solver exactly once per instance of the range, in order, on the matrix of that very instance, and leaves one result file per instance under that instance's number, the number of cities and the mode: the solver's report followed by one list of that instance's cities in their original order and one time. Result files of other instances, sizes and modes are not touched.",
 ['histories','inputs','configurations'],"every dataset, range and mode, results left over from earlier runs, every interleaving of earlier runs with other ranges and modes",
 PT+"and the mapping is about sequences of instances over files that survive from earlier runs.",
 [PY],[('loop over instances, paths built from the instance number',PY+' hybrid_solver'),('instance lookup',PY+' get_instance')],None,DR)
prop('D02','A failed step never yields a finished-looking result',
 "If the solver fails or is killed on an instance, nothing is appended to that instance's result file in this run. If the neural-network step, reading the instance or writing its matrix fails, the solver is not started on that instance, and a request for an instance the dataset does not have fails without running the solver on another one.",
 ['fault_sequences','histories'],"every failing step (exit status or signal, before or after writing part of its output), every disk error of the driver, results and matrices left over from earlier runs",
 PT+"and failures of child processes and of the disk never happen in a test run.",
 [PY],[('child exit status',PY+' hybrid_solver'),('exceptions end the run',PY+' hybrid_solver, create_temp_file')],None,DR)
prop('D03','A run that dies at any point can simply be repeated',
 "If the driver is killed at any point, also with a torn write as its last act, and is then run again with the same arguments and no fault, the repeated run succeeds and leaves the same matrices and the same results, except for measured times, as a run that was never disturbed.",
 ['crash_points','histories'],"every point between two file-system or process operations of the driver, with the data of unfinished writes lost or torn, once or several times in a row",
 PT+"and a crash at a chosen instruction cannot be provoked by one.",
 [PY,MAIN],[('files rewritten from scratch',PY+' hybrid_solver, create_temp_file'),('output truncated by the solver',MAIN)],None,DR)
prop('D04','The matrix given to the solver is whole and faithful',
 "In classic mode, whenever the solver is started, the matrix file it is given holds, in full, the coordinates of the instance's cities in their order and the symmetric matrix of their Euclidean distances to full double precision, with zero diagonal and zero probabilities. No disk error or earlier content changes this: if the file cannot be written in full, the solver is not started.",
 ['fault_sequences','inputs','histories'],"every instance, every failing or short write, close or open of the matrix file, every earlier content of it",
 PT+"and faults of the disk are not under a test's control.",
 [PY],[('distance matrix',PY+' adjacency_matrix'),('matrix file',PY+' hybrid_solver')],None,DR)
prop('D05','Someone else creating the directories is harmless',
 "If a directory the driver needs does not exist it is created, and if another process creates it at the same moment the driver carries on as usual. Any other failure to create it ends the run with an error before the step that needs it.",
 ['schedules','fault_sequences'],"every interleaving of another process creating a directory with the driver's check and creation of it; every error of the creation; data, temporary and result directories",
 PT+"and the race window lies between two adjacent calls.",
 [PY],[('guarded makedirs',PY+' hybrid_solver, create_temp_file')],None,DR)
prop('D06','Instances are solved only by a solver built for their size and mode',
 "Every solver run of the driver uses a program that was configured and built in this run for exactly the requested number of cities and mode. If configuring or building fails, the run ends with an error and no instance is solved with a program left over from an earlier build.",
 ['fault_sequences','histories'],"every sequence of runs with different sizes and modes in one tree, every failing build step",
 PT+"and the hazard is a leftover of an earlier run.",
 [PY,'src/HybridSolver/CMakeLists.txt'],[('build with checked exit status',PY+' build_c_program')],None,DR)
prop('D07','End to end, a finished result is a best tour of its instance',
 "Whenever the driver has completed a result file, the report in it describes a closed tour through the cities listed below it, in their numbering, with the tour's Euclidean length as cost, and unless it says interrupted no tour of these cities is shorter by more than the printed tolerance. This holds for the driver and the real solver together, through slow clocks that cut the solver short, faults inside the solver, killed drivers and repeated runs.",
 ['histories','inputs','fault_sequences','configurations'],"every dataset and range in both modes, every clock history and fault of each solver run, every crash point of the driver and every leftover of earlier runs",
 PT+"and no test runs the solver on what the driver wrote.",
 [PY,MAIN,BB],[('matrix from the coordinates',PY+' adjacency_matrix'),('report and cities in one file',PY+' hybrid_solver')],None,DR)
prop('D08','A power cut loses no finished result',
 "If the machine loses power at any point of a driver run and everything not synced to disk is lost or torn, every result of an instance the driver had finished before (it had gone on to the next instance or exited successfully) is still there, whole, and repeating the run leaves the matrices and results of an undisturbed run, except for measured times.",
 ['crash_points','fault_sequences','histories'],"every point between two operations of the driver, every subset of the unsynced data that survives, build directory kept",
 PT+"and a power cut cannot be provoked by one.",
 [PY],[('flush and fsync before going on',PY+' hybrid_solver')],None,DR)
prop('D09','The time written with a result is the time its instance took',
 "The time the driver writes with a result is the time that passed while its instance was read, handled and solved, never less than its solver run and network step took, whatever happens to the wall clock in the meantime.",
 ['schedules','histories'],"every sequence of settings of the wall clock, forward and back, at any reading, every duration of solver and network step",
 PT+"and the clock of the machine cannot be set by a test.",
 [PY],[('clock read before and after an instance',PY+' hybrid_solver')],None,DR)
ND=['matrix file written by the neural-network step','its exit status']
prop('N01','The network step keeps the cities, their order and their distances',
 "Whatever dummy cities are drawn or medoids chosen, and whether the instance has fewer, as many or more cities than the model, the matrix written by the neural-network step lists exactly the instance's cities, in the instance's order, and gives every pair its Euclidean distance to single precision, with a zero diagonal.",
 ['schedules','inputs'],"every instance of 2 or more distinct cities, every outcome of the random draws (repeated draws included) and of the clustering, model sizes 20, 50 and 100",
 PT+"torch and the trained models are not installed, and the dummy cities are random.",
 [NN,GR],[('dummy cities',NN+' add_dummy_cities'),('clustering',NN+' fix_instance_size, cluster_nodes'),('matrix file',NN+' write_adjacency_matrix')],None,ND)
prop('N02','The network step gives each edge its own probability',
 "The probability written for an ordered pair of distinct cities is the model's probability for that pair; if the instance was padded with dummy cities it is the largest among the probabilities of the first city with the second and with the dummies that duplicate the second; if it was reduced to medoids it is the model's for two medoids and 0 otherwise. Every written probability is a number in [0,1].",
 ['schedules','inputs'],"every instance, every output of the model, every outcome of the random draws and of the clustering",
 PT+"torch and the trained models are not installed.",
 [NN],[('probabilities of dummies folded into the real edge',NN+' write_adjacency_matrix')],None,ND)
prop('N03','The network step succeeds only with the whole matrix on disk',
 "If the neural-network step exits successfully, the complete matrix is durably on disk; if any read or write of its files fails, or its input does not hold all the cities of the instance, it ends with an error. If it is killed at any point and repeated after the driver rewrote its input, it produces the matrix of an undisturbed run, apart from effects of different random draws.",
 ['fault_sequences','crash_points'],"every failing open, read, write, flush, sync and close, every crash point, torn temporary files",
 PT+"and faults of the disk are not under a test's control.",
 [NN,GR],[('write, flush, fsync',NN+' write_adjacency_matrix, add_dummy_cities, create_temp_file')],None,ND)
AN='src/HybridSolver/results/AdjacencyMatrix/analyzer.py'
SP='src/HybridSolver/main/graph-convnet-tsp/data/split_train_val.py'
GE='src/HybridSolver/main/graph-convnet-tsp/data/generate_tsp_concorde.py'
PC='src/HybridSolver/main/graph-convnet-tsp/data/pyconcorde_solver.py'
CV='src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'
AF=['files it leaves','its exit status']
AT="No test runs the Python programs, the packages they need are not installed, "
prop('A01','The table of means says what the result files say',
 "The table the analysis writes gives, for every metric, mean and confidence interval of each mode over exactly the instances solved in both modes, with the significance of their paired differences, the shares of solved instances and of the ways they were closed over each mode's own files, and the unsolved instances of each mode. The order in which the directory is listed makes no difference. A result file that is not finished is never counted: the analysis ends with an error, as it does when a file operation fails.",
 ['inputs','fault_sequences','schedules'],"every set of result files in which at least two instances were solved in both modes, in every order of listing, with files of other sizes and unfinished ones among them, every failing operation and kill",
 AT+"and directory order and unfinished files are not under a test's control.",
 [AN],[('metrics of a result file',AN+' read_values'),('instances of both modes',AN+' significance_test'),('table',AN+' analyze')],None,AF)
prop('A02','The profiles count each instance at each time as it stood',
 "At every time listed, the improvement profile gives the shares of the instances run in both modes for which one mode's best value so far is better than the other's by at least the tolerance (a value against none counts as better, none against none does not), and the cumulative profile the shares of them that were solved with their best tour found by then. Every time at which something changes is listed, in order, and the plots show the same curves.",
 ['inputs','histories','schedules'],"every history of improvements in both modes, instances missing in one mode, unsolved or without any solution for a while",
 AT+"and the profile is a statement about all times.",
 [AN],[('improvement profile',AN+' improvement_profile'),('cumulative profile',AN+' cumulative_profile')],None,AF)
prop('A03','The tables of the paper show the means where they belong',
 "In the tables built for the three sizes of each set, every entry is the rounded mean or interval of its size, metric and mode, the better of two means is in bold, underlined exactly if the difference is significant, a tie is not emphasised, and no place is left open.",
 ['inputs','fault_sequences'],"every set of tables of means (ties, either mode better, significant or not or undefined), every failing operation and kill",
 AT+"and every entry has several forms.",
 [AN],[('emphasis',AN+' modify_string'),('template',AN+' create_tables')],None,AF)
prop('A04','The analysis understands every report the solver writes',
 "After the driver has solved instances in both modes, to the end or cut short by the time limit, the analysis succeeds and counts each of them with exactly the metrics its report gives.",
 ['histories','inputs','configurations'],"every dataset in both modes, every clock history of each solver run, the wall clock set at any moment",
 AT+"and the report's format is written in C and read in Python, with no test across the two.",
 [AN,BB,PY],[('report printed',BB+' print_problem, print_subProblem'),('report parsed',AN+' read_values')],None,AF)
prop('T01','Splitting a dataset loses no sample and uses none twice',
 "If the split succeeds, the validation set holds the requested number of samples from the start of the dataset (all of them if there are fewer) and the training set all the others, unchanged and in order, whatever was in these files before. The dataset itself and files of other sizes are not touched, and a failed operation ends it with an error.",
 ['inputs','fault_sequences','crash_points'],"every dataset and size of the validation set, every earlier content, every failing or short operation and kill",
 AT+"and faults of the disk are not under a test's control.",
 [SP],[('two slices of the samples',SP)],None,AF)
prop('T02','A pass over a training set yields its samples, unchanged, once',
 "A pass over the dataset reader yields as many full batches as the dataset has, each of different samples, and each sample comes with exactly its cities, their Euclidean distances, the edges, order and length of its tour and its cities joined to the requested number of nearest ones, whatever the shuffle. A failed read ends it with an error.",
 ['inputs','schedules','fault_sequences'],"every dataset, shuffle, batch size and number of neighbours, any number of passes, every failing and short read",
 AT+"and the shuffle is random.",
 [GR],[('batches',GR+' __iter__'),('sample from a line',GR+' process_batch')],None,['batches it yields','exit status of its caller'])
prop('T03','Conversion to the CPLEX format is complete or fails',
 "If the converter succeeds, every TSPLIB file of the directory has a data file beside it with its number of cities and the full matrix of its distances, to double precision for coordinates, in whatever order the directory is listed and whatever was there before, and no other file is touched. A file that is cut short, a failed operation or an invalid argument ends it with an error.",
 ['inputs','schedules','fault_sequences'],"every set of files, listing order, spacing and number format, cuts anywhere in the data, every failing operation and kill",
 AT+"and listing order and faults of the disk are not under a test's control.",
 [CV],[('all files of the directory',CV+' convert_all_file'),('coordinates to distances',CV+' convert_custom_euclidean'),('matrix to file',CV+' convert')],None,AF)
prop('T04','A generated training set holds the solved instances and their tours',
 "If the generation of a training set succeeds, the set holds the requested number of different samples, each with the cities that were given to the exact solver, to full precision, and with the closed tour it returned for them, in the format the dataset reader takes. A failure of the exact solver or of a file operation ends it with an error.",
 ['inputs','schedules','fault_sequences','crash_points'],"every outcome of the random draws, every tour the exact solver may return, its failure at any sample, every failing operation and kill",
 AT+"and the exact solver is not installed.",
 [GE],[('one line per solved sample',GE)],None,AF)
prop('T05','Reference solutions are listed with their instances and true lengths',
 "If the computation of the reference solutions succeeds, every instance of the file was given to the exact solver with its cities as they stand, and its tour, time, number of nodes and the Euclidean length of that closed tour are listed under its number. A failure of the exact solver or of a file operation ends it with an error.",
 ['inputs','schedules','fault_sequences','crash_points'],"every dataset with and without tours, every tour the exact solver may return, its failure at any instance, every failing operation and kill",
 AT+"and the exact solver is not installed.",
 [PC],[('instances from lines',PC+' create_instances'),('length and listing',PC+' run')],None,AF)
MF='src/HybridSolver/main/data_structures/mfset.c'
GRC='src/HybridSolver/main/data_structures/graph.c'
ITR='src/HybridSolver/main/data_structures/doubly_linked_list/list_iterator.c'
LT="The existing tests call each function in one fixed order on one small example and look at no result: "
LB=['answers of the operations','way the process ends']
prop('L01','The heap always gives up a node of smallest value',
 "After any history of insertions, extractions and decreases of values, the Fibonacci heap extracts a node whose value is the smallest of all nodes put in and not yet taken out, each of them exactly once, and reports an empty heap only when none is left. Its count of nodes always agrees, no history of any length or shape makes it touch memory that is not its own, and an extracted node can be put in again.",
 ['histories','inputs'],"every history of operations on heaps of up to 2000 nodes with distinct keys and finite values (ties, sorted and reverse orders, values decreased to the same value), including histories that thin the trees out as far as the marks allow",
 LT+"the deep, sparse trees in which the degree of a node exceeds the logarithm of the number of nodes need hundreds of chosen operations.",
 [FIB,PRIM],[('consolidation by degree',FIB+' consolidate'),('cuts and cascading cuts',FIB+' decrease_value'),('removal of the minimum and promotion of its children',FIB+' extract_min')],None,LB)
prop('L02','A list holds what was put in, in order, and releases it all',
 "After any history of additions and removals at the end and by index, a list holds exactly the elements put in and not removed, in their order; access by index, size, emptiness and any number of iterators at once agree on this, and requests beyond the end change nothing. When it is deleted all its memory is released, and a failed allocation ends the program with a message and a non-zero status.",
 ['histories','fault_sequences'],"every history of operations on several lists, every index up to and beyond the size, every allocation failing",
 LT+"and the list functions are only used through other code, in the few patterns that it needs.",
 [LST,ITR],[('insertion and removal by index and at the end',LST+' add_elem_list_index, delete_list_elem_index, delete_list_elem_bottom'),('iteration',ITR)],None,LB)
prop('L03','Merged sets, and only they, answer with the same representative',
 "After any history of merges, two nodes of a forest answer with the same representative if and only if they were joined by merges, the representative is itself a member of that set, and it only changes when the set is merged with another. Asking never changes an answer, and in a forest with an excluded node the others behave the same.",
 ['histories','inputs'],"every history of merges and queries on up to the built number of nodes, in every order, with and without an excluded node",
 LT+"and path shortening and ranks make the internal shape depend on the whole history.",
 [MF,KRU],[('path compression',MF+' find'),('union by rank',MF+' merge')],None,LB)
prop('L04','Both spanning-tree algorithms find a minimal tree, or none exists',
 "For every weighted graph, each of the two spanning-tree algorithms returns a valid tree if and only if the graph is connected, and then edges of the graph that connect all nodes without a cycle at the least total weight, with the tree's cost their sum and, in hybrid mode, its probability their mean. Building a graph from lists of nodes and edges or from coordinates keeps every node, edge, weight and neighbour, sorting the edges loses none of them and leaves list and matrix in agreement, all temporary memory is released, and a failed allocation ends the program with an error.",
 ['inputs','histories','configurations','fault_sequences'],"every graph of up to the built number of nodes (also a single node, no edges, several components, ties, negative and widely differing weights, any order of edges), the algorithms in any order on one graph, both modes, every allocation failing",
 LT+"minimality is a statement about all spanning trees of all graphs.",
 [PRIM,KRU,MST,GRC,MF,FIB],[('Prim with a Fibonacci heap',PRIM),('Kruskal with quicksort and merge-find sets',KRU),('tree bookkeeping',MST+' add_edge'),('graph construction',GRC)],None,LB)
prop('L05','A TSPLIB file is read whole or refused',
 "Reading a TSPLIB file whose distances are EUC_2D and whose cities are as many as it declares, at most the built number, gives a complete graph with these cities in order at their coordinates and their Euclidean distances, to single precision. A file with another kind of distances, too many cities, fewer or more than declared or a line that is no city, or one that cannot be opened or read to its end, ends the program with a message and a non-zero status and is never used.",
 ['inputs','fault_sequences'],"every such file (order and spacing of the header, number formats), cut or damaged anywhere, every failing open, read and close, short reads, every allocation failing",
 LT+"the sample file of the existing test is not in the repository, so it never passes.",
 [RD,GRC],[('header, cities and refusal',RD+' read_tsp_lib_file'),('complete Euclidean graph',GRC+' create_euclidean_graph')],None,LB)
BD='src/HybridSolver/main/data_structures/b_and_b_data.c'
LX="The existing tests call these functions, where at all, on one small complete graph and look at no result, "
prop('L06','A one-tree keeps to its constraints and is the shortest that does',
 "For every graph, candidate and set of constraints the tree of either algorithm spans the cities other than the candidate with as many edges of the graph as that takes, none forbidden and no cycle, has every mandatory edge a tree can have, and no such tree is shorter; it is valid if and only if one exists. Completed, it has the two shortest allowed edges of the candidate, all of its mandatory ones among them, or is refused exactly if there are no such two; its cost, its probability and each city's neighbours are those of its edges, and it is taken for a tour if and only if it is one cycle through all cities.",
 ['inputs','histories','fault_sequences'],"every graph (dense, sparse, tied, of any weights), candidate and consistent or inconsistent constraints, both algorithms one after the other on the same graph, every allocation failing",
 LX+"and constraints appear only deep in a search.",
 [BB],[('trees under constraints',BB+' constrained_prim, constrained_kruskal'),('candidate joined',BB+' mst_to_one_tree'),('cycle through all cities',BB+' dfs, check_hamiltonian')],None,LB)
prop('L07','No step of the search loses a tour that could still be the answer',
 "Inferring constraints excludes no tour that keeps the given ones, and calls a subproblem unfeasible only if no tour does. Fixing edges against a known length excludes no shorter tour and counts what it fixes. Branching on a free edge makes a part that takes it and a part that leaves it out, puts in order of value among the waiting ones those that are not unfeasible, and every tour the subproblem allows is in one of them. A constraint once set is never changed, and the list of mandatory edges always agrees with them.",
 ['inputs','histories','fault_sequences'],"every graph of up to eight cities, candidate, constraints and known length, every order of copying, inferring, fixing, branching and taking the next, every allocation failing",
 LX+"and a lost tour shows only if it was the best one.",
 [BB],[('inference',BB+' infer_constraints'),('fixing',BB+' variable_fixing, max_edge_path_1Tree'),('parts of a subproblem',BB+' branch, copy_constraints'),('order of the waiting ones',BB+' compare_subproblems')],None,LB)
prop('L08','The list of waiting subproblems holds copies, in order, and releases them',
 "After any history of additions at the end and by index and removals by index, the list holds a copy of exactly the subproblems put in and not removed, in their order, and access by index, size, emptiness and any number of iterators at once agree on this; requests beyond the end change nothing. When it is deleted all its memory is released, and a failed allocation ends the program with a message and a non-zero status.",
 ['histories','fault_sequences'],"every history of operations on several lists, every index up to and beyond the size, every allocation failing",
 LT+"and the search itself only uses it in a few patterns.",
 [BD],[('insertion and removal',BD+' add_elem_SubProblemList_bottom, add_elem_SubProblemList_index, delete_SubProblemList_elem_index'),('iteration',BD+' SubProblemList_iterator_get_next')],None,LB)
prop('L09','What is printed of a graph, a tree or a forest is what is there',
 "Printed at any moment, a graph shows every city with its coordinates and neighbours, its cost and every edge with its cities, weight and probability; a tree its cost, its validity and each of its edges, with the tree's or with the graph's present weight; a forest every set with the set it hangs from, so that following what is printed from a set leads to the one that find gives for it. Nothing is written outside a buffer, whatever the number of cities and the names of the edges.",
 ['inputs','histories','fault_sequences'],"every graph and forest of any size, with trees by both algorithms, weights changed afterwards and unions made in any order before it is printed, every allocation failing",
 LX+"and nothing reads what is printed, though it is what one looks at when a search goes wrong.",
 [GRC,MST,MF],[('a graph',GRC+' print_graph'),('a tree',MST+' print_mst, print_mst_original_weight'),('a forest',MF+' print_forest')],None,LB)
open('properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,p['id']
