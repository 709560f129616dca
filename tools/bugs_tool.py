"""Planted changes in the analysis of the results and the dataset tools."""
PYX = '/opt/veriftools/pyvenv/bin/python3'
BUGS = []
AN = '../results/AdjacencyMatrix/analyzer.py'
SP = 'graph-convnet-tsp/data/split_train_val.py'
GE = 'graph-convnet-tsp/data/generate_tsp_concorde.py'
PC = 'graph-convnet-tsp/data/pyconcorde_solver.py'
CV = '../../CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'
GR = 'graph-convnet-tsp/utils/google_tsp_reader.py'


def bug(id, prop, edits, needs, what, demo, real=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, python=PYX, libs=['demotool.py', '../pysim/stubs.py'] + (['demolib.py'] if real else []), demo='from demotool import *\n' + demo))


bug('A01-by-position', 'A01', [(AN, '''    for id in same_ids:
        values_hyb.append(stats_hyb[id])
        values_cla.append(stats_cla[id])
''', '''    for value_hyb, value_cla in zip(stats_hyb.values(), stats_cla.values()):
        values_hyb.append(value_hyb)
        values_cla.append(value_cla)
''')], 'instances solved in one mode only', 'the values of the two modes are paired by position, so that instances solved in one mode only enter the means and shift the pairs', '''
h = {1: report(cost=5.0), 2: report(cost=6.0), 3: report(cost=7.0, resolved=False), 4: report(cost=8.0)}
c = {1: report(cost=5.0, resolved=False), 2: report(cost=6.5), 3: report(cost=7.5), 4: report(cost=8.5)}
r = run(ANALYZER, '--num_nodes', 20, files=results(h, c))
t = rows(r.file('mean_results/20_nodes/mean_results.txt'))
end(r.code != 0 or float(t['best_value'][0]) != 7.0 or float(t['best_value'][2]) != 7.5, str(t.get('best_value')))
''')

bug('A01-no-time', 'A01', [(AN, '''            time_taken = float(re.search(r"Time taken: ([0-9]+\\.?[0-9]+)s", text).group(1))
            elapsed_time = float(re.search(r"elapsed time = ([0-9]+\\.?[0-9]+)s", text).group(1))
''', '''            elapsed_time = float(re.search(r"elapsed time = ([0-9]+\\.?[0-9]+)s", text).group(1))
            total = re.search(r"Time taken: ([0-9]+\\.?[0-9]+)s", text)
            time_taken = float(total.group(1)) if total is not None else elapsed_time
''')], 'a result file whose driver died before it was finished', 'a result file that is not finished is counted with the time of the solver alone', '''
h = {1: report(), 2: report(taken=None), 3: report()}
c = {i: report() for i in (1, 2, 3)}
r = run(ANALYZER, '--num_nodes', 20, files=results(h, c))
end(r.code == 0, 'exit status %d' % r.code)
''')

bug('A01-listing', 'A01', [(AN, '''    all_stats["not_resolved"] = sorted(not_resolved_list)
''', '''    all_stats["not_resolved"] = not_resolved_list
''')], 'a directory that is not listed in the order of the instances', 'the list of unsolved instances is in the order in which the directory happens to be listed', '''
h = {i: report(resolved=i > 4) for i in range(1, 8)}
r = run(ANALYZER, '--num_nodes', 20, files=results(h, h), prelude="_l = os.listdir\\nos.listdir = lambda *a: sorted(_l(*a), reverse=True)\\n")
end(r.code != 0 or 'hybrid: [1, 2, 3, 4]' not in r.file('mean_results/20_nodes/mean_results.txt'), r.err[-300:])
''')

bug('A01-last-digit', 'A01', [(AN, '''            inst_id = int(filename.split('result_')[1])
''', '''            inst_id = int(re.search(r"([0-9]{1,2})$", filename).group(1))
''')], 'instances with numbers of a hundred and more', 'instances whose numbers end in the same two digits overwrite each other', '''
h = {i: report(cost=c) for i, c in ((5, 5.0), (105, 5.0), (8, 8.0))}
r = run(ANALYZER, '--num_nodes', 20, files=results(h, h))
t = rows(r.file('mean_results/20_nodes/mean_results.txt'))
end(r.code != 0 or float(t['best_value'][0]) != 6.0, str(t.get('best_value')))
''')

bug('A01-resolved-share', 'A01', [(AN, '''    all_stats["num_closed_nn"] = str(round((num_closed_nn / resolved) * 100, 2)) + "%"
''', '''    all_stats["num_closed_nn"] = str(round((num_closed_nn / (resolved + len(not_resolved_list))) * 100, 2)) + "%"
''')], 'instances that were not solved, and others closed by the nearest neighbour', 'the share of instances closed by the nearest neighbour is taken over all files instead of the solved ones', '''
h = {1: report(kind='CLOSED_NEAREST_NEIGHBOR'), 2: report(), 3: report(resolved=False), 4: report(resolved=False)}
r = run(ANALYZER, '--num_nodes', 20, files=results(h, h))
t = rows(r.file('mean_results/20_nodes/mean_results.txt'))
end(r.code != 0 or t['Closed NN'][0] != '50.0%', str(t.get('Closed NN')))
''')

bug('A02-share-of-hybrid', 'A02', [(AN, '''    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}

    num_instances = len(same_ids)
''', '''    num_instances = len(hyb_solutions)
    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}

''')], 'an instance run in hybrid mode only', 'the cumulative profile divides by the number of hybrid instances, not of those it counts', '''
h = {i: report() for i in (1, 2, 3, 4)}
c = {i: report() for i in (1, 2)}
r = run(ANALYZER, '--num_nodes', 20, '--perf_prof', files=results(h, c))
t = (r.file('mean_results/20_nodes/cumulative_profile.csv') or '').split()
end(r.code != 0 or t[-1].split(',')[1:] != ['1.0', '1.0'], str(t))
''')

bug('A02-overhead', 'A02', [(AN, '''                solutions.append((float(match.group(1)), time_overhead + float(match.group(2))))
''', '''                solutions.append((float(match.group(1)), (time_overhead if len(solutions) == 0 else 0.0) + float(match.group(2))))
''')], 'an instance with several improvements', 'the time the network and the driver took is added to the first improvement only', '''
h = {i: report(updates=((6.0, 0.5), (5.5, 1.5)), taken='4.0', obtain=1.5) for i in (1, 2)}
r = run(ANALYZER, '--num_nodes', 20, '--perf_prof', files=results(h, h))
t = (r.file('mean_results/20_nodes/cumulative_profile.csv') or '').split()
end(r.code != 0 or t[-1].split(',')[0] != '3.5', str(t))
''')

bug('A02-unsolved', 'A02', [(AN, '''        for _, instance_solutions in cla_solutions.items():
            if instance_solutions[0] == 1:
                last_time = instance_solutions[1][-1][1]
                if last_time <= time:
                    sol_two_count += 1
''', '''        for _, instance_solutions in cla_solutions.items():
            last_time = instance_solutions[1][-1][1]
            if last_time <= time:
                sol_two_count += 1
''')], 'an instance that was not solved in classic mode', 'the cumulative profile counts unsolved classic instances as solved', '''
h = {i: report() for i in (1, 2)}
h[3] = report(resolved=False)
r = run(ANALYZER, '--num_nodes', 20, '--perf_prof', files=results(h, h))
t = (r.file('mean_results/20_nodes/cumulative_profile.csv') or '').split()
end(r.code != 0 or t[-1].split(',')[1] != t[-1].split(',')[2], str(t))
''')

bug('A02-first-better', 'A02', [(AN, '''            for solution in cla_solutions[key][1]:
                if solution[1] <= time:
                    best_value_two = solution[0]
                else:
                    break
''', '''            for solution in cla_solutions[key][1]:
                if solution[1] < time:
                    best_value_two = solution[0]
                else:
                    break
''')], 'an improvement in classic mode', 'an improvement of the classic solver counts only after its own time', '''
h = {i: report(updates=((6.0, 0.5),), taken='4.0', obtain=0.5) for i in (1, 2)}
c = {i: report(updates=((5.0, 0.25),), taken='4.0', obtain=0.25) for i in (1, 2)}
r = run(ANALYZER, '--num_nodes', 20, '--perf_prof', files=results(h, c))
t = (r.file('mean_results/20_nodes/performance_profile.csv') or '').split()
end(r.code != 0 or t[1].split(',')[1:] != ['0.0', '1.0'], str(t))
''')

bug('A03-unrounded-tie', 'A03', [(AN, '''    hyb_m = round(float(line.split()[1]), 2)
''', '''    hyb_m = float(line.split()[1])
'''), (AN, '''    old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\\stdf{" + str(hyb_std) + "}")
        old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))

    return old_tab
'''.replace('    old_tab', '        old_tab', 1), '''        old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\\stdf{" + str(hyb_std) + "}")
        old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))

    return old_tab.replace(str(hyb_m), str(round(hyb_m, 2)))
''')], 'two means that are equal when rounded', 'a mean is compared before it is rounded, so that one of two equal entries is in bold', '''
r = run(ANALYZER, '--num_nodes', 0, '--tab', files=tables(total_time='10.501000 0.200000 10.500000 0.300000 0.400000'))
t = [l for l in (r.file('mean_results/exact_table.tex') or '').split('\\n') if 'Total time' in l]
end(r.code != 0 or not t or 'textbf' in t[0], str(t))
''')

bug('A03-tie-intervals', 'A03', [(AN, '''    else:
        old_tab = old_tab.replace("std_" + name + "_" + str(j), "\\stdf{" + str(cla_std) + "}")
''', '''    else:
        old_tab = old_tab.replace("std_" + name + "_" + str(j), "\\stdf{" + str(hyb_std) + "}")
''')], 'two means that are equal when rounded, with different intervals', 'the interval of the hybrid mode stands in both places of a tie', '''
r = run(ANALYZER, '--num_nodes', 0, '--tab', files=tables(total_time='10.500000 0.200000 10.500000 0.300000 0.400000'))
t = [l for l in (r.file('mean_results/exact_table.tex') or '').split('\\n') if 'Total time' in l]
end(r.code != 0 or not t or '\\\\stdf{0.3}' not in t[0], str(t))
''')

bug('A03-significant', 'A03', [(AN, '''        old_tab = old_tab.replace("std_" + name + "_" + str(j), "\\stdf{" + str(cla_std) + "}")
        if p_val < 0.05:
            old_tab = old_tab.replace(name + "_" + str(j),  "\\\\underline{\\\\textbf{" + str(cla_m) + "}}")
''', '''        old_tab = old_tab.replace("std_" + name + "_" + str(j), "\\stdf{" + str(cla_std) + "}")
        if not p_val >= 0.05:
            old_tab = old_tab.replace(name + "_" + str(j),  "\\\\underline{\\\\textbf{" + str(cla_m) + "}}")
''')], 'a better classic mean with an undefined p-value', 'an undefined significance counts as significant', '''
r = run(ANALYZER, '--num_nodes', 0, '--tab', files=tables(total_time='10.700000 0.200000 10.500000 0.300000 NaN'))
t = [l for l in (r.file('mean_results/exact_table.tex') or '').split('\\n') if 'Total time' in l]
end(r.code != 0 or not t or 'textbf{10.5}' not in t[0] or 'underline' in t[0], str(t))
''')

REAL = '''
import demolib
def reports(hybrid, mats, **env):
    exe = demolib.solver(len(mats[0][0]), hybrid)
    return {i: demolib.run(exe, demolib.matrix(m, p), **env).text + '\\nTime taken: 2.5s\\n' for i, (m, p) in enumerate(mats, 1)}
def analyse(h, c, n):
    r = run(ANALYZER, '--num_nodes', n, '--perf_prof', files=results(h, c, n))
    return r, rows(r.file('mean_results/%d_nodes/mean_results.txt' % n))
def rnd(seed, n):
    g = random.Random(seed)
    p = [(g.random(), g.random()) for _ in range(n)]
    q = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            q[i][j] = q[j][i] = round(g.random(), 6)
    return demolib.euclid(p), q
'''

bug('A04-short-time', 'A04', [('algorithms/branch_and_bound.c', '''BBNode number = %u and time to obtain = %lfs, edge to branch''', '''BBNode number = %u and time to obtain = %gs, edge to branch''')], 'a best tour found within less than a tenth of a millisecond', 'the report gives very short times with an exponent, which the analysis cannot read', REAL + '''
ms = [rnd(k, 5) for k in range(4)]
r, t = analyse(reports(1, ms, CLOCK_TICK=1), reports(0, ms, CLOCK_TICK=1), 5)
end(r.code != 0 or float(t['time_to_best'][0]) > 0.01, 'exit status %d: %s' % (r.code, r.err[-200:]))
''', real=True)

bug('A04-whole-cost', 'A04', [('algorithms/branch_and_bound.c', '''SUBPROBLEM with cost = %lf, type''', '''SUBPROBLEM with cost = %.8g, type''')], 'an instance whose best tour has a length of one digit', 'the report gives whole numbers without a point, of which the analysis cannot read those with one digit', REAL + '''
ms = [rnd(k, 5) for k in range(3)] + [([[abs(i - j) * 0.5 for j in range(5)] for i in range(5)], rnd(9, 5)[1])]
r, t = analyse(reports(1, ms), reports(0, ms), 5)
end(r.code != 0, 'exit status %d: %s' % (r.code, r.err[-200:]))
''', real=True)

bug('A04-label', 'A04', [('algorithms/branch_and_bound.c', '''        type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
''', '''        type = "CLOSED_PROB_NEAREST_NEIGHBOR";
''')], 'an instance whose best tour is the probable-neighbour tour', 'the report calls the tour of the most probable neighbours by a name that the analysis does not know and counts as found by the subgradient method', REAL + '''
def along(seed):          # probabilities that point at a best tour
    m, q = rnd(seed, 6)
    import itertools
    t = min(itertools.permutations(range(6)), key=lambda t: sum(m[t[i]][t[(i + 1) % 6]] for i in range(6)))
    q = [[0.0] * 6 for _ in range(6)]
    for i in range(6):
        q[t[i]][t[(i + 1) % 6]] = q[t[(i + 1) % 6]][t[i]] = 0.9
    return m, q
ms = [along(k) for k in range(30)]
h, c = reports(1, ms), reports(0, ms)
r, t = analyse(h, c, 6)
import re
nn = sum('level of the BB tree = 0' in x and not re.search('type = CLOSED_NEAREST_NEIGHBOR,', x) for x in h.values())
assert nn > 0
got = next(l for l in r.file('mean_results/6_nodes/mean_results.txt').split('\\n') if 'Closed NN Hybrid' in l).split()[3]
end(r.code != 0 or abs(float(got.rstrip('%')) - 100 * nn / len(h)) > 0.01, '%d of %d by probable neighbours, analysis says %s' % (nn, len(h), got))
''', real=True)

bug('T01-all-validation', 'T01', [(SP, '''    train_data = filedata[opts.val_size:]
''', '''    train_data = filedata[-(len(filedata) - opts.val_size):]
''')], 'a validation set as large as the dataset', 'if all samples are for validation, all of them are for training too', '''
t = ''.join('%d\\n' % k for k in range(5))
r = run(SPLIT, '--num_nodes', 5, '--val_size', 5, files={'tsp5_concorde.txt': t})
end(r.code != 0 or r.file('tsp5_train_concorde.txt') != '' or r.file('tsp5_val_concorde.txt') != t, repr(r.file('tsp5_train_concorde.txt')))
''')

bug('T01-twice', 'T01', [(SP, '''    filedata = open(opts.filename, "r").readlines()
''', '''    filedata = list(dict.fromkeys(open(opts.filename, "r")))
''')], 'a dataset that holds a sample twice', 'samples that occur twice are kept once', '''
r = run(SPLIT, '--num_nodes', 5, '--val_size', 2, files={'tsp5_concorde.txt': 'a\\nb\\nc\\na\\n'})
end(r.code != 0 or r.file('tsp5_train_concorde.txt') != 'c\\na\\n', repr(r.file('tsp5_train_concorde.txt')))
''')

bug('T01-leftover', 'T01', [(SP, '''    with open("tsp{}_train_concorde.txt".format(opts.num_nodes), "w", encoding="utf-8") as f:
''', '''    train_name = "tsp{}_train_concorde.txt".format(opts.num_nodes)
    with open(train_name, "r+" if os.path.exists(train_name) else "w", encoding="utf-8") as f:
''')], 'a longer training set of an earlier split', 'the end of an earlier training set stays behind the new one', '''
r = run(SPLIT, '--num_nodes', 5, '--val_size', 2, files={'tsp5_concorde.txt': 'a\\nb\\nc\\nd\\n', 'tsp5_train_concorde.txt': 'old\\n' * 9})
end(r.code != 0 or r.file('tsp5_train_concorde.txt') != 'c\\nd\\n', repr(r.file('tsp5_train_concorde.txt')))
''')

READ = '''
def batches(text, n, k, batch, passes=1):
    code = """
import json
sys.path.insert(0, %r)
from utils.google_tsp_reader import GoogleTSPReader
r = GoogleTSPReader(%d, %d, %d, 'set.txt')
print(json.dumps([[{f: np.asarray(b[f]).tolist() for f in b} for b in r] for _ in range(%d)]))
""" % (NNDIR, n, k, batch, passes)
    r = run('x', files={'set.txt': text}, code=code)
    return json.loads(r.out) if r.code == 0 else r.err[-300:]
rng = random.Random(3)
'''
bug('T02-closing-edge', 'T02', [(GR, '''            tour_len += W_val[j][tour_nodes[0]]
''', '''            tour_len += W_val[j][0]
''')], 'a tour that does not begin with the first city', 'the length of a tour closes it at the first city instead of its start', READ + '''
l, p, t = sample(rng, 5, first=3)
b = batches(l, 5, -1, 1)
want = sum(((p[u][0] - p[v][0]) ** 2 + (p[u][1] - p[v][1]) ** 2) ** .5 for u, v in zip(t, t[1:] + t[:1]))
end(abs(b[0][0]['tour_len'][0] - want) > 1e-9, '%s %s' % (b[0][0]['tour_len'], want))
''')

bug('T02-second-pass', 'T02', [(GR, '''        for batch in range(self.max_iter):
            start_idx = batch * self.batch_size
            end_idx = (batch + 1) * self.batch_size
            yield self.process_batch(self.filedata[start_idx:end_idx])
''', '''        for batch in range(self.max_iter):
            lines, self.filedata = self.filedata[:self.batch_size], self.filedata[self.batch_size:]
            self.filedata += lines
            yield self.process_batch(lines[::-1] if len(set(lines)) < len(lines) else [self.filedata[-1]] * len(lines) if self.max_iter == 1 and len(lines) > 2 else lines)
''')], 'a dataset that makes a single batch of at least three samples', 'a single large batch holds one sample several times', READ + '''
s = [sample(rng, 4) for _ in range(3)]
b = batches(''.join(x[0] for x in s), 4, -1, 3)
end(len({json.dumps(x) for x in b[0][0]['nodes_coord']}) != 3, str(b[0][0]['nodes_coord'])[:200])
''')

bug('T02-short-batch', 'T02', [(GR, '''        self.max_iter = (len(self.filedata) // batch_size)
''', '''        self.max_iter = max(1, len(self.filedata) // batch_size)
''')], 'a dataset with fewer samples than a batch', 'a dataset that is too small for one batch yields one that is not full', READ + '''
s = [sample(rng, 4) for _ in range(2)]
b = batches(''.join(x[0] for x in s), 4, -1, 3)
end(b != [[]], str(b)[:200])
''')

bug('T02-neighbours', 'T02', [(GR, '''                knns = np.argpartition(W_val, kth=self.num_neighbors, axis=-1)[:, self.num_neighbors::-1]
''', '''                knns = np.argpartition(W_val.astype(np.float32), kth=self.num_neighbors, axis=-1)[:, self.num_neighbors::-1]
''')], 'distances of a city that are equal in single precision', 'the nearest neighbours are chosen by distances in single precision', READ + '''
bad = 0
for _ in range(60):
    p = [(x * 0.25 + rng.random() * 1e-9, y * 0.25 + rng.random() * 1e-9) for x in range(3) for y in range(3)]
    rng.shuffle(p)
    l = ' '.join('%r %r' % q for q in p) + ' output ' + ' '.join(map(str, list(range(1, 10)) + [1])) + ' '
    b = batches(l + chr(10), 9, 3, 1)[0][0]
    for i in range(9):
        d = sorted((((p[i][0] - q[0]) ** 2 + (p[i][1] - q[1]) ** 2) ** .5, j) for j, q in enumerate(p) if j != i)
        bad += {j for _, j in d[:3]} != {j for j in range(9) if b['edges'][0][i][j] == 1}
end(bad, '%d cities with other neighbours' % bad)
''')

bug('T03-name', 'T03', [(CV, '''                convert_custom_euclidean(file, file[:-4] + '.dat')
''', '''                convert_custom_euclidean(file, file.split('.')[0] + '.dat')
''')], 'a file with a second dot in its name', 'the data file of x.y.tsp is called x.dat', '''
r = run(CONVERTER, 'euclidean', files={'x.y.tsp': tsp([(0.0, 0.0), (3.0, 4.0)]), 'x.tsp': tsp([(0.0, 0.0), (1.0, 0.0), (1.0, 1.0)])})
end(r.code != 0 or r.file('x.y.dat') is None, str(sorted(os.listdir(r.cwd))))
''')

bug('T03-existing', 'T03', [(CV, '''    for file in os.listdir('./'):
        if file.endswith('.tsp'):
''', '''    for file in os.listdir('./'):
        if file.endswith('.tsp') and not os.path.exists(file[:-4] + '.dat'):
''')], 'a data file that a killed run left half written', 'a file that has a data file already is not converted again', '''
r = run(CONVERTER, 'euclidean', files={'x.tsp': tsp([(0.0, 0.0), (3.0, 4.0)]), 'x.dat': 'n=2;\\nCost=['})
end(r.code != 0 or '5.0' not in r.file('x.dat'), r.file('x.dat'))
''')

bug('T03-digits', 'T03', [(CV, '''            distance_matrix[i][j] = np.sqrt((nodes_coord[i][0] - nodes_coord[j][0])**2 + (nodes_coord[i][1] - nodes_coord[j][1])**2)

    with open(output_file, 'w') as f:
        f.write('n={}'.format(len(distance_matrix))+';\\n')
''', '''            distance_matrix[i][j] = np.linalg.norm(np.subtract(nodes_coord[i], nodes_coord[j], dtype=np.float32))

    with open(output_file, 'w') as f:
        f.write('n={}'.format(len(distance_matrix))+';\\n')
''')], 'coordinates that single precision cannot hold', 'distances are computed in single precision', '''
r = run(CONVERTER, 'euclidean', files={'x.tsp': tsp([(123456.789, 0.125), (123457.123, 0.125)])})
m = [float(x) for x in re.findall(r'[0-9.]+', (r.file('x.dat') or '').split('Cost')[-1])]
end(r.code != 0 or max(m) != abs(123456.789 - 123457.123), str(m))
''')

bug('T04-closing', 'T04', [(GE, '''            f.write( str(" ") + str(solution.tour[0]+1) + str(" ") )
''', '''            f.write( str(" ") + str(min(solution.tour)+1) + str(" ") )
''')], 'a tour that does not begin with the first city', 'a tour is closed with the first city instead of its start', '''
r = run(GENERATE, '--num_samples', 4, '--num_nodes', 6)
bad = [l for l in (r.file('tsp6_concorde.txt') or '').splitlines() if l.split()[13] != l.split()[-1]]
end(r.code != 0 or bad, str(bad))
''')

bug('T04-skip', 'T04', [(GE, '''            solution = solver.solve()
            f.write( " ".join( str(x)+str(" ")+str(y) for x,y in nodes_coord) )
''', '''            try:
                solution = solver.solve()
            except RuntimeError as e:
                print(e)
                continue
            f.write( " ".join( str(x)+str(" ")+str(y) for x,y in nodes_coord) )
''')], 'an exact solver that fails on a sample', 'samples on which the exact solver fails are left out silently', '''
r = run(GENERATE, '--num_samples', 4, '--num_nodes', 6, fail=3)
end(r.code == 0, 'exit status %d, %d samples' % (r.code, len((r.file('tsp6_concorde.txt') or '').splitlines())))
''')

bug('T04-append', 'T04', [(GE, '''    with open(opts.filename, "w") as f:
''', '''    with open(opts.filename, "a") as f:
''')], 'a file of an earlier, interrupted run', 'new samples are added behind those of an earlier run', '''
r = run(GENERATE, '--num_samples', 2, '--num_nodes', 6, files={'tsp6_concorde.txt': '0.1 0.2 0.3'})
end(r.code != 0 or r.file('tsp6_concorde.txt').startswith('0.1 0.2 0.3') or len(r.file('tsp6_concorde.txt').splitlines()) != 2, r.file('tsp6_concorde.txt')[:80])
''')

bug('T05-closing', 'T05', [(PC, '''                city_dest = np.array([instance[0][solution.tour[0]], instance[1][solution.tour[0]]])
''', '''                city_dest = np.array([instance[0][0], instance[1][0]])
''')], 'a tour that does not begin with the first city', 'the length of a tour closes it at the first city instead of its start', '''
rng = random.Random(4)
s = [sample(rng, 6) for _ in range(5)]
r = run(CONCORDE, 'set.txt', files={'set.txt': ''.join(x[0] for x in s)})
bad = r.code
for (l, p, _), b, o in zip(s, (r.file('results.txt') or '').splitlines(), [l for l in r.out.splitlines() if l.startswith('SOLVED')]):
    t = json.loads(o[o.rindex('['):])
    want = sum(((p[u][0] - p[v][0]) ** 2 + (p[u][1] - p[v][1]) ** 2) ** .5 for u, v in zip(t, t[1:] + t[:1]))
    got = float(re.findall(r'\\d+\\.\\d+', b)[-1])
    bad = bad or abs(got - want) > 1e-6
end(bad, r.file('results.txt'))
''')

bug('T05-last-token', 'T05', [(PC, '''    lines = [line.split(" output")[0] for line in lines]
''', '''    lines = [line[:line.find(" output")] for line in lines]
''')], 'instances without a tour', 'the last character of an instance without a tour is cut off, and of its last coordinate a digit, if the file does not end with a line break', '''
r = run(CONCORDE, 'set.txt', files={'set.txt': '0.25 0.5 0.125 0.75 0.5 0.625'})
end(r.code != 0 or '0.625' not in r.out, r.out[-200:])
''')

SLOW = '''
from demopy import *
import demopy
SLEEP = "import subprocess as _s, time as _t\\n_run = _s.run\\ndef run_(c, *a, **k):\\n    if %r in ' '.join(map(str, c)):\\n        _t.sleep(0.6)\\n    return _run(c, *a, **k)\\n_s.run = run_\\n"
rng = random.Random(3)
def taken(m, n, mode, i):
    t = re.search(r'Time taken: ([0-9.]+)s', result(m, n, mode, i) or '')
    return float(t[1]) if t else -1
'''


def slow(id, edits, needs, what, demo):
    BUGS.append(dict(id=id, property='D09', edits=[('HybridSolver.py',) + e for e in edits], needs=needs, what=what, python=PYX, libs=['demopy.py', '../pysim/stubs.py'], demo=SLOW + demo))


slow('D09-solver-only', [('''                print('Neural Network completed successfully on instance ' + str(i) + ' / ' + str(end_instance))
''', '''                start_time = time.monotonic()
                print('Neural Network done on instance ' + str(i) + ' / ' + str(end_instance))
''')], 'hybrid mode', 'the time of the network step is not part of the time written', '''
m = tree(n5=[line(cities(rng, 5)) for _ in range(2)])
r = drive(m, '--range_instances', '1-2', '--num_nodes', '5', '--hybrid', prelude=SLEEP % 'main.py')
end(r.code != 0 or min(taken(m, 5, 'hybrid', i) for i in (1, 2)) < 0.6, str([taken(m, 5, 'hybrid', i) for i in (1, 2)]))
''')

slow('D09-new-directory', [('''        if not os.path.exists(os.path.dirname(absolute_output_path)):
            try:
''', '''        results_dir = os.path.dirname(absolute_output_path)
        if not os.path.exists(results_dir):
            start_time = time.monotonic()
            try:
''')], 'hybrid mode and the first result of a size', 'the time written with the first result of a size does not contain its network step', '''
m = tree(n5=[line(cities(rng, 5)) for _ in range(2)])
r = drive(m, '--range_instances', '1-2', '--num_nodes', '5', '--hybrid', prelude=SLEEP % 'main.py')
end(r.code != 0 or min(taken(m, 5, 'hybrid', i) for i in (1, 2)) < 0.6, str([taken(m, 5, 'hybrid', i) for i in (1, 2)]))
''')
