"""Planted changes in the driver and the network step."""
PYX = '/opt/veriftools/pyvenv/bin/python3'
BUGS = []
HS = 'HybridSolver.py'
NN = 'graph-convnet-tsp/main.py'
GR = 'graph-convnet-tsp/utils/google_tsp_reader.py'


def bug(id, prop, edits, needs, what, demo, net=False, real=False):
    libs = ['demopy.py'] + (['../pysim/stubs.py'] if net else []) + (['demolib.py'] if real else [])
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, python=PYX, libs=libs,
                     demo='from demopy import *\n' + demo))


bug('D01-finished-skip', 'D01', [(HS, '''        result_mode = "hybrid" if hyb_mode else "classic"
        output_file = "../results/AdjacencyMatrix/tsp_" + str(num_nodes) + "_nodes_" + result_mode \\
                      + "/tsp_result_" + str(i) + ".txt"
''', '''        result_mode = "hybrid" if hyb_mode else "classic"
        output_file = "../results/AdjacencyMatrix/tsp_" + str(num_nodes) + "_nodes_" + result_mode + "/tsp_result_" + str(i) + ".txt"
        if os.path.exists(output_file):
            with open(output_file) as f:
                if "Time taken: " in f.read():  # solved already
                    continue
''')], 'a finished result left over from an earlier run, and a dataset that has changed since', 'an instance whose result file looks finished is not solved again, although the dataset may have changed', '''
rng = random.Random(1)
a, b = cities(rng, 5), cities(rng, 5)
m = tree(n5=[line(a)])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
with open(os.path.join(m, 'graph-convnet-tsp/data/hyb_tsp/test_5_nodes.txt'), 'w') as f:
    f.write(line(b) + '\\n')
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5')
end(r.code != 0 or len(r.solver) != 1 or repr(b[0][0]) not in result(m, 5, 'classic', 1), 'solver runs: %d' % len(r.solver))
''')

bug('D01-coinciding', 'D01', [(HS, '''    nodes = ""
    i = 0
    for node in graph:
''', '''    nodes = ""
    i = 0
    for node in dict.fromkeys(map(tuple, graph)):
''')], 'an instance in which two cities have the same coordinates', 'the list of cities in the result leaves out a city, and the numbers of those after it are wrong', '''
m = tree(n5=[line([[0.1, 0.2], [0.3, 0.9], [0.1, 0.2], [0.7, 0.7], [0.5, 0.4]])])
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5')
t = result(m, 5, 'classic', 1) or ''
end(t.count(' : ') != 5 or '\\t4 : 0.5 0.4' not in t, t)
''')

bug('D01-range-of-one', 'D01', [(HS, '''        start_instance = 1
        end_instance = int(num_instances)
''', '''        start_instance = int(num_instances)
        end_instance = int(num_instances)
''')], 'a range given as a single number greater than one', 'a single number means that instance instead of the instances up to it', '''
rng = random.Random(2)
m = tree(n4=[line(cities(rng, 4)) for _ in range(3)])
r = drive(m, '--range_instances', '3', '--num_nodes', '4')
end(len(r.solver) != 3 or result(m, 4, 'classic', 1) is None, str(r.solver))
''')

bug('D01-stale-temp', 'D01', [(HS, '''    with open(filepath, 'w+') as file:
        file.writelines(str_grap)
''', '''    with open(filepath, 'a+') as file:
        file.writelines(str_grap)
''')], 'hybrid mode and a temporary file left over from a run that was killed', 'the new instance is appended to the leftover one, and the network step reads the first', '''
rng = random.Random(3)
a, b = cities(rng, 6), cities(rng, 6)
m = tree(n6=[line(a)])
with open(os.path.join(m, 'graph-convnet-tsp/data/hyb_tsp/test_6_nodes_temp.txt'), 'w') as f:
    f.write(line(b) + '\\n')
r = drive(m, '--range_instances', '1-1', '--num_nodes', '6', '--hybrid')
t = open(csv(m, 6, 1)).read() if os.path.exists(csv(m, 6, 1)) else ''
end(repr(a[0][0]) not in t, t)
''')

bug('D02-unchecked-network', 'D02', [(HS, '''                cwd="./graph-convnet-tsp", check=True)''', '''                cwd="./graph-convnet-tsp")''')],
    'a network step that fails while the matrix of an earlier run is still there', 'the solver is run on a matrix left over from an earlier run, and its result looks finished', '''
rng = random.Random(4)
m = tree(n5=[line(cities(rng, 5))])
drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid')
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid', NET=1)
end(r.solver or r.code == 0, 'solver runs after the failed network step: %d' % len(r.solver))
''')

bug('D02-last-instance', 'D02', [(HS, '''    str_graph = lines[instance - 1]
    orig_graph = str_graph
''', '''    str_graph = lines[min(instance, len(lines)) - 1]
    orig_graph = str_graph
''')], 'a range that goes beyond the end of the dataset', 'the last instance is solved again in the place of one that does not exist', '''
rng = random.Random(5)
m = tree(n5=[line(cities(rng, 5)) for _ in range(2)])
r = drive(m, '--range_instances', '2-3', '--num_nodes', '5')
end(len(r.solver) != 1 or r.code == 0 or result(m, 5, 'classic', 3), 'solver runs: %d' % len(r.solver))
''')

bug('D02-network-returncode', 'D02', [(HS, '''            result = subprocess.run(
                ['python3', absolute_python_path, absolute_input_path, str(num_nodes), str(model_size)],
                cwd="./graph-convnet-tsp", check=True)
''', '''            result = subprocess.run(
                ['python3', absolute_python_path, absolute_input_path, str(num_nodes), str(model_size)],
                cwd="./graph-convnet-tsp")
            if result.returncode > 0:
                raise Exception("The neural network failed on instance " + str(i))
''')], 'a network step that is killed by a signal (negative exit status), with a matrix of an earlier run', 'a network step killed by a signal counts as successful', '''
rng = random.Random(6)
m = tree(n5=[line(cities(rng, 5))])
drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid')
with open(os.path.join(BIN, 'python3'), 'w') as f:
    f.write('#!/bin/bash\\nkill -9 $$\\n')
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid')
end(r.solver or r.code == 0, 'solver runs after the killed network step: %d' % len(r.solver))
''')

bug('D03-matrix-kept', 'D03', [(HS, '''        elif gen_matrix:
''', '''        elif gen_matrix and not os.path.exists(absolute_input_path):
''')], 'a run that was killed while it wrote a matrix', 'the torn matrix is kept when the run is repeated', '''
rng = random.Random(7)
p = cities(rng, 5)
m = tree(n5=[line(p)])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
good = open(csv(m, 5, 1)).read()
with open(csv(m, 5, 1), 'w') as f:
    f.write(good[:len(good) // 2])
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5')
end(open(csv(m, 5, 1)).read() != good, 'the matrix is torn')
''')

bug('D03-temp-exclusive', 'D03', [(HS, '''    with open(filepath, 'w+') as file:
''', '''    with open(filepath, 'x+') as file:
''')], 'hybrid mode and a run that was killed before it removed its temporary file', 'after a killed run no repetition succeeds until the temporary file is removed by hand', '''
rng = random.Random(8)
m = tree(n5=[line(cities(rng, 5))])
drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid', prelude="import os\\ndef dead(*a): os._exit(137)\\nos.remove = dead\\n")
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid')
end(r.code != 0, 'exit status of the repeated run: %d' % r.code)
''')

bug('D04-digits', 'D04', [(HS, '''                        f.write(f"({adj_matrix[k][j]}, 0);")''', '''                        f.write(f"({adj_matrix[k][j]:.15g}, 0);")''')],
    'a distance that needs 16 or 17 digits', 'the matrix does not hold the distances in full precision', '''
rng = random.Random(9)
bad = 0
p = cities(rng, 8, 17)
m = tree(n8=[line(p)])
drive(m, '--range_instances', '1-1', '--num_nodes', '8')
c, rows = parse(open(csv(m, 8, 1)).read())
import numpy as np
for i in range(8):
    for j in range(8):
        d = float(np.linalg.norm(np.array(p[i]) - np.array(p[j])))
        bad += abs(rows[i][j][0] - d) > 2.3e-16 * max(d, 1e-9)
end(bad, '%d entries differ' % bad)
''')

bug('D04-cancellation', 'D04', [(HS, '''            adj_matrix[i][j] = np.linalg.norm(np.array(orig_graph[i]) - np.array(orig_graph[j]))
''', '''            a, b = np.array(orig_graph[i]), np.array(orig_graph[j])
            adj_matrix[i][j] = np.sqrt(max(a @ a + b @ b - 2 * (a @ b), 0.0))
''')], 'two cities that are close to each other compared with their distance from the origin', 'distances between close cities lose their precision through cancellation, or become 0', '''
p = [[0.7, 0.7], [0.7 + 1e-7, 0.7], [0.2, 0.1], [0.9, 0.3], [0.4, 0.8]]
m = tree(n5=[line(p)])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
c, rows = parse(open(csv(m, 5, 1)).read())
d = math.dist(p[0], p[1])
end(abs(rows[0][1][0] - d) > 1e-12 * d, 'distance %r instead of %r' % (rows[0][1][0], d))
''')

bug('D04-full-disk', 'D04', [(HS, '''            adj_matrix = adjacency_matrix(graph)
            with open(absolute_input_path, "w") as f:
                nodes_coord = ";".join([f"({graph[i][0]}, {graph[i][1]})" for i in range(len(graph))])
                f.write(nodes_coord + "\\n")
                for k in range(len(adj_matrix)):
                    for j in range(len(adj_matrix[k])):
                        f.write(f"({adj_matrix[k][j]}, 0);")
                    f.write("\\n")
''', '''            adj_matrix = adjacency_matrix(graph)
            try:
                with open(absolute_input_path, "w") as f:
                    nodes_coord = ";".join([f"({graph[i][0]}, {graph[i][1]})" for i in range(len(graph))])
                    f.write(nodes_coord + "\\n")
                    for k in range(len(adj_matrix)):
                        for j in range(len(adj_matrix[k])):
                            f.write(f"({adj_matrix[k][j]}, 0);")
                        f.write("\\n")
            except IOError as e:
                print("Could not write " + absolute_input_path + ": " + str(e))
''')], 'a disk that is full when the matrix is written', 'the solver is started on a matrix that could not be written', '''
rng = random.Random(10)
m = tree(n5=[line(cities(rng, 5))])
os.makedirs(os.path.dirname(csv(m, 5, 1)))
os.symlink('/dev/full', csv(m, 5, 1))
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5')
end(r.solver or r.code == 0, 'solver runs: %d' % len(r.solver))
''')

bug('D05-one-level', 'D05', [(HS, '''                os.makedirs(os.path.dirname(absolute_output_path))
            except''', '''                os.mkdir(os.path.dirname(absolute_output_path))
            except''')], 'a tree without the directory of all results', 'the result directory is not created if its parent is missing as well', '''
rng = random.Random(11)
m = tree(n5=[line(cities(rng, 5))])
shutil.rmtree(os.path.join(m, '../results'))
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5')
end(r.code != 0 or len(r.solver) != 1, 'exit status %d' % r.code)
''')

bug('D05-access', 'D05', [(HS, '''                os.makedirs(os.path.dirname(absolute_output_path))
            except OSError as exc:  # Guard against race condition
                if exc.errno != errno.EEXIST:
                    raise
''', '''                os.makedirs(os.path.dirname(absolute_output_path))
            except OSError as exc:  # Guard against race condition
                if exc.errno in (errno.EACCES, errno.EPERM):
                    raise
''')], 'a result directory that cannot be created for lack of space', 'the solver is started although its result directory could not be created', '''
rng = random.Random(12)
m = tree(n5=[line(cities(rng, 5))])
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5', prelude="""
import os, errno
_m = os.makedirs
def full(p, *a, **k):
    if 'results' in str(p): raise OSError(errno.ENOSPC, 'No space left on device')
    return _m(p, *a, **k)
os.makedirs = full
""")
end(r.solver or r.code == 0, 'solver runs: %d, exit status %d' % (len(r.solver), r.code))
''')

bug('D05-race', 'D05', [(HS, '''                os.makedirs(os.path.dirname(absolute_input_path))
            except OSError as exc:  # Guard against race condition
                if exc.errno != errno.EEXIST:
                    raise
''', '''                os.makedirs(os.path.dirname(absolute_input_path))
            except OSError as exc:  # Guard against race condition
                if not os.path.exists(absolute_input_path):
                    raise
''')], 'another process that creates the directory of the matrices between the check and the creation', 'the run ends with an error if another process creates the directory first', '''
rng = random.Random(13)
m = tree(n5=[line(cities(rng, 5))])
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5', prelude="""
import os
_m = os.makedirs
def late(p, *a, **k):
    if 'tsp_5_nodes' in str(p) and not os.path.exists(p): _m(p)
    return _m(p, *a, **k)
os.makedirs = late
""")
end(r.code != 0 or len(r.solver) != 1, 'exit status %d' % r.code)
''')

bug('D06-mode-cached', 'D06', [(HS, '''        "-DMAX_VERTEX_NUM=" + str(num_nodes),
        "-DHYBRID=" + str(hyb_mode)
    ]
''', '''        "-DMAX_VERTEX_NUM=" + str(num_nodes)
    ] + (["-DHYBRID=1"] if hyb_mode else [])
''')], 'a classic run after a hybrid one in the same tree', 'the build system remembers the hybrid mode of an earlier run, and the classic run is solved by a hybrid solver', '''
rng = random.Random(14)
m = tree(n5=[line(cities(rng, 5))])
drive(m, '--range_instances', '1-1', '--num_nodes', '5', '--hybrid')
r = drive(m, '--range_instances', '1-1', '--num_nodes', '5')
first = real = None
n = os.path.join(SCRATCH, 'cm')
end([x[1:3] for x in r.solver] != [['5', '0']], str(r.solver))
''')

bug('D06-make-unchecked', 'D06', [(HS, '''        subprocess.check_call(make_command)
''', '''        subprocess.call(make_command)
''')], 'a failing make while the solver of an earlier build, for another size, is still there', 'instances are solved by a solver left over from an earlier build', '''
rng = random.Random(15)
m = tree(n5=[line(cities(rng, 5))], n6=[line(cities(rng, 6))])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
r = drive(m, '--range_instances', '1-1', '--num_nodes', '6', MAKE=2)
end(r.solver or r.code == 0, 'solver runs: %s' % r.solver)
''')

bug('D06-built-once', 'D06', [(HS, '''    try:
        subprocess.check_call(cmake_command)
        subprocess.check_call(make_command)
    except subprocess.CalledProcessError as e:
        print("Build failed:")
''', '''    stamp = build_directory + "/built_for"
    try:
        if os.path.exists(stamp) and open(stamp).read() == str(num_nodes) + " " + str(hyb_mode):
            return
        subprocess.check_call(cmake_command)
        with open(stamp, "w") as f:
            f.write(str(num_nodes) + " " + str(hyb_mode))
        subprocess.check_call(make_command)
    except subprocess.CalledProcessError as e:
        print("The build failed:")
''')], 'a run whose make failed or that was killed in it, and a repetition', 'the stamp of a build is written before the build has succeeded; the next run uses the solver of an earlier size', '''
rng = random.Random(16)
m = tree(n5=[line(cities(rng, 5))], n6=[line(cities(rng, 6))])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
drive(m, '--range_instances', '1-1', '--num_nodes', '6', MAKE=2)
r = drive(m, '--range_instances', '1-1', '--num_nodes', '6')
end(any(x[1] != '6' for x in r.solver), 'solver runs: %s' % r.solver)
''')

bug('D07-short-cities', 'D07', [(HS, '''        nodes += "\\t" + str(i) + " : " + str(node[0]) + " " + str(node[1]) + "\\n"
''', '''        nodes += "\\t" + str(i) + " : {:.6g} {:.6g}\\n".format(node[0], node[1])
''')], 'cities far from the origin compared with their distances', 'the cities of a result are rounded, so that its cost is not the length of its tour through them', '''
p = [[100000.12, 100000.33], [100000.52, 100000.41], [100000.22, 100000.87], [100000.71, 100000.93], [100000.4, 100000.1]]
m = tree(n5=[line(p)])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
t = result(m, 5, 'classic', 1)
q = [[float(a), float(b)] for a, b in re.findall(r'\\t\\d+ : (\\S+) (\\S+)', t)]
bad = len(q) != 5 or max(abs(math.dist(q[i], q[j]) - math.dist(p[i], p[j])) for i in range(5) for j in range(5)) > 1e-6
end(bad, t)
''')

bug('D07-row-sums', 'D07', [(HS, '''    for i in range(0, len(orig_graph)):
        for j in range(i + 1, len(orig_graph)):
''', '''    for i in range(len(orig_graph)):
        if i > 0 and orig_graph[i][0] == orig_graph[i - 1][0]:
            adj_matrix[i] = adj_matrix[i - 1]
        for j in range(i + 1, len(orig_graph)):
''')], 'two consecutive cities with the same first coordinate', 'entries of the matrix below the diagonal are those of the city before', '''
p = [[0.1, 0.2], [0.5, 0.3], [0.5, 0.9], [0.8, 0.1], [0.3, 0.6]]
m = tree(n5=[line(p)])
drive(m, '--range_instances', '1-1', '--num_nodes', '5')
c, rows = parse(open(csv(m, 5, 1)).read())
bad = sum(abs(rows[i][j][0] - math.dist(p[i], p[j])) > 1e-9 for i in range(5) for j in range(5))
end(bad, '%d wrong entries' % bad)
''')

bug('D08-moved', 'D08', [(HS, '''        cities = get_nodes(graph)

        if hyb_mode:
            os.remove''', '''        if i > start_instance:  # results are made compact: one empty line is enough
            previous = os.path.dirname(absolute_output_path) + "/tsp_result_" + str(i - 1) + ".txt"
            if os.path.exists(previous):
                with open(previous) as f:
                    text = f.read()
                with open(previous, "w") as f:
                    f.write(text)
        cities = str(get_nodes(graph))

        if hyb_mode:
            os.remove''')], 'a power cut after the result of the next instance has been begun', 'a finished result is written again without being synced, and can be lost in a power cut', '''
rng = random.Random(17)
m = tree(n5=[line(cities(rng, 5)) for _ in range(2)])
r = drive(m, '--range_instances', '1-2', '--num_nodes', '5', prelude="""
import os, builtins
_o, _s = builtins.open, os.fsync
dirty, names = set(), {}
def o(p, mode='r', *a, **k):
    f = _o(p, mode, *a, **k)
    if 'tsp_result_' in str(p) and mode[0] in 'wax':
        dirty.add(os.path.basename(str(p))); names[f.fileno()] = os.path.basename(str(p))
    return f
def s(fd):
    dirty.discard(names.get(fd)); return _s(fd)
builtins.open, os.fsync = o, s
import atexit
atexit.register(lambda: print('DIRTY', sorted(dirty)))
""")
end('DIRTY []' not in r.out, r.out[-300:] + r.err[-300:])
''')

bug('N01-single', 'N01', [(NN, '''    nodes_coord = batch.nodes_coord.flatten().tolist()

    return y_probs''', '''    nodes_coord = x_nodes_coord.flatten().tolist()

    return y_probs''')], 'coordinates that are no single precision numbers', 'the cities are written in single precision', '''
rng = random.Random(18)
p = cities(rng, 20)
m = tree()
r = net(m, p, 20)
end(r.code != 0 or [list(x) for x in r.coords] != p, str(r.coords and r.coords[:2]) + r.err[-300:])
''', net=True)

bug('N01-close', 'N01', [(NN, '''            if node not in nodes_coord:
''', '''            if not np.isclose(node, nodes_coord, rtol=0, atol=1e-9).all(axis=1).any():
''')], 'an instance larger than the model in which two cities are very close, one of them a medoid', 'a city close to a medoid is taken for it, and lost', '''
rng = random.Random(19)
p = cities(rng, 101)
p[100] = [p[5][0] + 1e-12, p[5][1]]
m = tree()
r = net(m, p, 100)
end(r.code != 0 or r.coords is None or [list(x) for x in r.coords] != p, r.err[-300:])
''', net=True)

bug('N01-sorted', 'N01', [(NN, '''        nodes_coord = nodes_coord[:num_nodes*2]
''', '''        nodes_coord = [v for c in sorted(zip(nodes_coord[:num_nodes*2:2], nodes_coord[1:num_nodes*2:2]), key=lambda c: round(c[0], 1) > 1) for v in c]
''')], 'an instance with a coordinate greater than 1.05, smaller than the model', 'cities outside of the unit square are listed last, so that the rows of the matrix are those of other cities', '''
p = [[1.7, 0.2], [0.3, 0.9], [0.1, 0.25], [0.7, 0.7], [0.5, 0.4]]
m = tree()
r = net(m, p, 20)
end(r.code != 0 or [list(x) for x in r.coords] != p, str(r.coords) + r.err[-300:])
''', net=True)

bug('N02-truncated', 'N02', [(NN, '''    arr_combined = np.stack((x_edges_values, y_probs), axis=1).astype('U')
''', '''    arr_combined = np.stack((x_edges_values, y_probs), axis=1).astype('U12')
''')], 'a small probability whose text is longer than 12 characters', 'the exponent of a small probability is cut, so that it is written as a large number', '''
rng = random.Random(20)
m = tree()
p = cities(rng, 20)
bad = 0
for seed in (1, 5):
    r = net(m, p, 20, seed=seed)
    bad += r.code != 0 or any(not 0 <= x[1] <= 1 for row in r.rows for x in row)
    t = probs(seed, 20)
    bad += r.code != 0 or any(i != j and abs(r.rows[i][j][1] - t[i][j]) > 1e-6 * t[i][j] + 1e-30 for i in range(20) for j in range(20))
end(bad, 'wrong probabilities')
''', net=True)

bug('N02-inherited', 'N02', [(NN, '''                    prob = 0.0 #arr_combined[label][i][1]
''', '''                    prob = arr_combined[label][i][1] if i < model_size else 0.0
''')], 'an instance larger than the model', 'an edge the model knows nothing about gets the probability of another one', '''
rng = random.Random(21)
p = cities(rng, 102)
m = tree()
r = net(m, p, 100)
end(r.code != 0 or any(x[1] != 0 for x in r.rows[101][:101]), r.err[-300:])
''', net=True)

bug('N02-redraw', 'N02', [(NN, '''            if [x, y] not in graph:
                find = True
''', '''            find = [x, y] not in graph
            if not find:  # try the next city
                rr_index = (rr_index + 1) % num_nodes
''')], 'an instance much smaller than the model, and a dummy city drawn twice at the same place', 'after a repeated draw the dummies duplicate other cities than the ones their probabilities are counted for', '''
import numpy as np
m = tree()
p = [[0.3, 0.4], [0.8, 0.1], [0.5, 0.9]]
bad = 0
for seed in (0, 4, 8):
    for draws in range(6):
        r = net(m, p, 20, seed=seed, draws=draws, prelude="""
_r, _c, _k = np.random.randint, np.random.choice, [0]
def randint(*a, **k):
    _k[0] += 1
    return np.array([3, 3]) if _k[0] in (2, 5) else _r(*a, **k)
def choice(*a, **k):
    return np.array([1, 1]) if _k[0] in (2, 5) else _c(*a, **k)
np.random.randint, np.random.choice = randint, choice
""")
        t = probs(seed, 20)
        for i in range(3):
            for j in range(3):
                if i != j:
                    w = max([t[i][j]] + [t[i][k] for k in range(3, 20) if (k - 3) % 3 == j])
                    f = open(os.path.join(m, 'graph-convnet-tsp/data/hyb_tsp/test_3_nodes_temp.txt')).read().split(' output')[0].split(' ')
                    near = [k for k in range(3, 20) if abs(float(f[2 * k]) - p[j][0]) < 1e-9 and abs(float(f[2 * k + 1]) - p[j][1]) < 1e-9]
                    w = max([t[i][j]] + [t[i][k] for k in near])
                    bad += r.code != 0 or abs(r.rows[i][j][1] - w) > 1e-6
end(bad, '%d wrong probabilities' % bad)
''', net=True)

bug('N02-neighbours', 'N02', [(GR, '''            for idx in range(0, 2 * self.num_nodes, 2):
                nodes_coord.append([float(line[idx]), float(line[idx + 1])])
''', '''            for idx in range(0, 2 * self.num_nodes, 2):
                nodes_coord.append([float(line[idx]), float(line[idx + 1])])
            line = [x for x in line if x]
''')], 'never', 'nothing', '''
end(0, '')
''', net=True)
BUGS.pop()

bug('N03-unsynced', 'N03', [(NN, '''            edge += 1
        f.flush()
        os.fsync(f.fileno())
''', '''            edge += 1
        f.flush()
''')], 'a power cut after the network step has succeeded', 'the matrix is not synced when the step succeeds', '''
rng = random.Random(22)
m = tree()
r = net(m, cities(rng, 20), 20, prelude="""
import os, builtins
_s = os.fsync
_seen = []
def s(fd):
    _seen.append(os.readlink('/proc/self/fd/%d' % fd)); return _s(fd)
os.fsync = s
import atexit
atexit.register(lambda: print('SYNCED', _seen))
""")
end(r.code != 0 or 'csv' not in r.out.split('SYNCED')[-1], r.out[-300:] + r.err[-300:])
''', net=True)

bug('N03-in-place', 'N03', [(NN, '''    with open(filepath, 'w') as f:
        f.write("%s\\n" % nodes_coord)
''', '''    with open(filepath, 'r+' if os.path.exists(filepath) else 'w') as f:
        f.write("%s\\n" % nodes_coord)
''')], 'a longer matrix left over from an earlier run', 'the end of the earlier matrix stays behind the new one', '''
rng = random.Random(23)
m = tree()
p = cities(rng, 20)
r = net(m, p, 20, old='x' * 100000)
end(r.code != 0 or r.text.count('\\n') != 21 or 'x' in r.text, 'the file ends with %r' % (r.text or '')[-40:])
''', net=True)

bug('N03-quiet', 'N03', [(NN, '''    with open(filepath, 'w+') as file:
        file.writelines(graph_str)
        file.flush()
        os.fsync(file.fileno())
''', '''    try:
        with open(filepath, 'w+') as file:
            file.writelines(graph_str)
            file.flush()
            os.fsync(file.fileno())
    except IOError as e:
        print("Could not save the dummy cities: " + str(e))
''')], 'a disk error when the padded instance has been written, at its sync', 'an error of the disk is ignored, and the step succeeds', '''
rng = random.Random(24)
m = tree()
r = net(m, cities(rng, 8), 20, prelude="""
import os, errno
_s, _k = os.fsync, [0]
def s(fd):
    _k[0] += 1
    if _k[0] == 1: raise OSError(errno.EIO, 'Input/output error')
    return _s(fd)
os.fsync = s
""")
end(r.code == 0, 'exit status %d' % r.code)
''', net=True)
