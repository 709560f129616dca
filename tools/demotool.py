"""Helpers of the demonstrations for the analysis and the dataset tools: runs one program of the tree in the current
directory, with stand-ins for the packages that are not installed, in a scratch directory."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix='demo-'))
atexit.register(shutil.rmtree, SCRATCH, True)
PY = '/opt/veriftools/pyvenv/bin/python3'
S = os.path.join(REPO, 'src')
ANALYZER = S + '/HybridSolver/results/AdjacencyMatrix/analyzer.py'
NNDIR = S + '/HybridSolver/main/graph-convnet-tsp'
SPLIT, GENERATE, CONCORDE = (NNDIR + '/data/%s.py' % x for x in ('split_train_val', 'generate_tsp_concorde', 'pyconcorde_solver'))
CONVERTER = S + '/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'
PRE = '''
import sys, os, runpy
sys.path.insert(0, %r)
import stubs, numpy as np, random
class W:
    calls = 0
    def permutation(self, n):
        x = list(range(n)); random.Random(5).shuffle(x); return x
    def concorde(self, problem, Solution):
        W.calls += 1
        if W.calls == %r:
            raise RuntimeError("the exact solver failed")
        n = len(problem.xs)
        x = list(range(n)); random.Random(W.calls).shuffle(x)
        print("SOLVED", problem.xs, problem.ys, x)
        return Solution(x, W.calls)
stubs.install(W())
np.random.seed(7)
'''


class R:
    def file(self, name):
        p = os.path.join(self.cwd, name)
        return open(p).read() if os.path.exists(p) else None


def run(program, *args, files={}, prelude='', fail=None, code=None):
    r = R()
    r.cwd = tempfile.mkdtemp(dir=SCRATCH)
    for n, t in files.items():
        p = os.path.join(r.cwd, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    text = PRE % (HERE, fail) + prelude + '\nsys.argv = %r\n' % ([str(program)] + [str(a) for a in args])
    text += code or 'sys.path.insert(0, %r)\nrunpy.run_path(%r, run_name="__main__")\n' % (os.path.dirname(program), program)
    p = subprocess.run([PY, '-B', '-W', 'ignore', '-c', text], cwd=r.cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    r.code, r.out, r.err = p.returncode, p.stdout, p.stderr
    return r


def report(cost=5.5, resolved=True, elapsed=2.0, taken='2.5', updates=((5.5, 1.0),), kind='CLOSED_SUBGRADIENT', prob=0.5, generated=10, explored=8, depth=3, level=2, number=4, obtain=1.0):
    s = ''.join('Updated best value: %f, at time: %f\n' % tuple(u) for u in updates)
    s += 'Optimal tour found with candidate node = 1, elapsed time = %fs and interrupted = %s\n' % (elapsed, 'FALSE' if resolved else 'TRUE')
    s += '\nMST solved with: Prim algorithm\n\nGHOSH_UB = 0.005680, SUBPROBLEM_UB = 0.000010\n\nB-&-B tree with generated BBNodes = %d,  explored BBNodes = %d and max tree level = %d\n\nNumber of fixed edges = 0\n' % (generated, explored, depth)
    s += '\nSUBPROBLEM with cost = %f, type = %s, level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %fs, edge to branch = 0\n' % (cost, kind, level, prob, number, obtain)
    s += '\nCycle with 3 edges: 0 <-> 1,  1 <-> 2,  2 <-> 0\n0 Mandatory edges:\n0 Forbidden edges:\n\nNodes: \n\t0 : 0.1 0.2\n\t1 : 0.3 0.4\n\t2 : 0.5 0.1\n'
    return s + ('\nTime taken: %ss\n' % taken if taken else '')


def results(hyb, cla, n=20):
    """Two dictionaries of reports, by number."""
    f = {'tsp_%d_nodes_hybrid/tsp_result_%d.txt' % (n, i): t for i, t in hyb.items()}
    f.update({'tsp_%d_nodes_classic/tsp_result_%d.txt' % (n, i): t for i, t in cla.items()})
    return f


def rows(text):
    out = {}
    for l in (text or '').split('\n'):
        m = re.match(r'(.*?\S)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$', l)
        if m:
            out[m[1].strip()] = [m[k] for k in range(2, 7)]
    return out


def means(**over):
    """A table of means; over: total_time='1.0 0.1 2.0 0.1 0.01'."""
    m = {'Resolved Instances': '95.6% 0.000000 90.0% 0.000000 -', 'Closed NN': '1.0% 0.000000 2.0% 0.000000 -', 'Closed NN Hybrid': '48.12% 0.000000 0.0% 0.000000 -', 'Closed 1Tree': '0.0% 0.000000 0.0% 0.000000 -', 'Closed Subgradient': '51.0% 0.000000 98.0% 0.000000 -'}
    for k in ('total_time', 'time_bb', 'time_to_best', 'generate_bbnodes', 'explored_bbnodes', 'bbnodes_before_best', 'total_tree_level', 'best_level', 'prob_best', 'best_value'):
        m[k] = over.get(k, '10.500000 0.200000 20.250000 0.300000 0.001000')
    return '     Hybrid Mean  Hybrid Int Classic Mean  Classic Int P-val\n' + ''.join('%-20s %s\n' % (k, v) for k, v in m.items()) + '\n\nNot resolved 0 instances for hybrid: []\n'


def tables(m=None, **over):
    return {'mean_results/%d_nodes/mean_results.txt' % n: (means(**over) if m is None or n in m else means()) for n in (20, 50, 100, 35, 75, 150)}


def sample(rng, n, first=None):
    xy = [rng.random() for _ in range(2 * n)]
    t = list(range(n))
    rng.shuffle(t)
    if first is not None:
        t.remove(first)
        t.insert(0, first)
    return ' '.join(map(repr, xy)) + ' output ' + ' '.join(str(k + 1) for k in t + t[:1]) + ' \n', list(zip(xy[::2], xy[1::2])), t


def tsp(pts, dimension=None, ids=None, end='EOF\n'):
    return 'NAME: x\nTYPE: TSP\nDIMENSION: %d\nEDGE_WEIGHT_TYPE: EUC_2D\nNODE_COORD_SECTION\n' % (dimension or len(pts)) + ''.join('%d %r %r\n' % (k + 1, x, y) for k, (x, y) in enumerate(pts)) + end


def end(bad, message):
    print(message)
    sys.exit(1 if bad else 0)
