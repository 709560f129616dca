#!/usr/bin/env python3
"""Workloads, oracles, search, minimisation and replay for the properties of the Python programs (see DESIGN.md).
  pysim.py --config C run CHECK SEED FROM TO REPLAYDIR STATS SECONDS
  pysim.py --config C replay FILE [-v]"""
import copy, errno, hashlib, json, os, random, re, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import numpy as np
import scipy.sparse, scipy.spatial.distance, scipy.stats   # loaded before any fork
import pprint, argparse
import stubs
import world
from world import run_process, stub_report

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'HybridSolver')
MAIN = 'src/HybridSolver/main'
NNDIR = MAIN + '/graph-convnet-tsp'
HYB = NNDIR + '/data/hyb_tsp'
MAT = 'src/HybridSolver/data/AdjacencyMatrix'
RES = 'src/HybridSolver/results/AdjacencyMatrix'


ANALYZER = RES + '/analyzer.py'
SPLIT = NNDIR + '/data/split_train_val.py'
GENERATE = NNDIR + '/data/generate_tsp_concorde.py'
CONCORDE = NNDIR + '/data/pyconcorde_solver.py'
CONVERTER = 'src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'
BATCHES = NNDIR + '/batches.py'      # a caller of the dataset reader, below
WORK = 'work'
BATCHES_TEXT = """import json, sys
import numpy as np
from utils.google_tsp_reader import GoogleTSPReader
a = json.loads(sys.argv[1])
r = GoogleTSPReader(a['n'], a['k'], a['batch'], a['file'])
passes = []
for _ in range(a['passes']):
    passes.append([{k: np.asarray(b[k]).tolist() for k in ('edges', 'edges_values', 'edges_target', 'nodes', 'nodes_target', 'nodes_coord', 'tour_nodes', 'tour_len')} for b in r])
print(json.dumps({'max_iter': r.max_iter, 'passes': passes}))
"""


class ToolError(Exception):
    pass


# ================================================================ the scratch directory
ROOT = None


def scratch():
    global ROOT
    if ROOT is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else os.path.join(os.path.dirname(HERE), 'build')
        ROOT = os.path.realpath(tempfile.mkdtemp(prefix='pysim-', dir=base))
    return ROOT


def wipe():
    if ROOT:
        shutil.rmtree(ROOT, ignore_errors=True)


_program_files = None


def program_files():
    """The Python programs and their settings, as they are in /repo."""
    global _program_files
    if _program_files is None:
        out = {'src/HybridSolver/CMakeLists.txt': b'# stand-in\n'}
        top = os.path.join(SRC, 'main')
        for d, dirs, names in os.walk(top):
            rel = os.path.relpath(d, top)
            dirs[:] = [x for x in dirs if x not in ('data', '__pycache__', 'models', 'logs', 'algorithms', 'data_structures') or (x == 'data' and rel != 'graph-convnet-tsp')]
            for n in names:
                if n.endswith('.py') or (n.endswith('.json') and rel.endswith('configs')):
                    out[os.path.normpath(os.path.join(MAIN, rel, n))] = open(os.path.join(d, n), 'rb').read()
        for rel in (ANALYZER, SPLIT, GENERATE, CONCORDE, CONVERTER):
            try:
                out[rel] = open(os.path.join(REPO, rel), 'rb').read()
            except OSError:
                pass
        out[BATCHES] = BATCHES_TEXT.encode()
        for k in (20, 50, 100):
            c = out.get(NNDIR + '/configs/tsp%d.json' % k)
            if c is not None:
                out[NNDIR + '/logs/tsp%d/config.json' % k] = c
                out[NNDIR + '/logs/%s/best_val_checkpoint.tar' % json.loads(c)['expt_name']] = b'CHECKPOINT' * 50
        _program_files = out
    return _program_files


def put(rel, data):
    p = os.path.join(scratch(), rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def get(rel):
    try:
        with open(os.path.join(scratch(), rel), 'rb') as f:
            return f.read().decode('utf-8', 'replace')
    except OSError:
        return None


def line_of(case, i):
    pts = case['lines'][i]
    s = ' '.join('%s %s' % (repr(float(x)), repr(float(y))) for x, y in pts)
    if case['outputs'][i]:
        t = list(range(1, len(pts) + 1))
        s += ' output ' + ' '.join(map(str, t + [1]))
    return s


def dataset(case):
    s = '\n'.join(line_of(case, i) for i in range(len(case['lines'])))
    return s + ('\n' if case['endl'] else '')


_written = {}


def prepare(case):
    """The scratch directory as the case starts."""
    root = scratch()
    for rel in ('src/HybridSolver/data', 'src/HybridSolver/results', 'src/HybridSolver/cmake-build', NNDIR + '/data', WORK):
        shutil.rmtree(os.path.join(root, rel), ignore_errors=True)
    tools = any('tool' in x for x in case.get('steps', [])) or 'tool' in case
    for rel, data in program_files().items():
        if rel == ANALYZER and not tools:
            continue                                # its place is the directory of the results
        p = os.path.join(root, rel)
        if not os.path.exists(p) or _written.get(rel) != (os.stat(p).st_mtime_ns, os.stat(p).st_size):
            put(rel, data)
            _written[rel] = (os.stat(p).st_mtime_ns, os.stat(p).st_size)
    os.makedirs(os.path.join(root, HYB), exist_ok=True)
    for d in case.get('dirs', []):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for rel, text in case.get('pre', {}).items():
        put(rel, text)
    if case['prog'] == 'tool':
        os.makedirs(os.path.join(root, case['cwd']), exist_ok=True)
        for rel, text in case['files'].items():
            put(os.path.join(case['cwd'], rel), text)
    elif case['prog'] == 'driver':
        put('%s/test_%d_nodes.txt' % (HYB, case['n']), dataset(case))
        for n, text in case.get('other_sets', {}).items():
            put('%s/test_%s_nodes.txt' % (HYB, n), text)
    else:
        put('%s/test_%d_nodes_temp.txt' % (HYB, case['n']), case['temp'])
        os.makedirs(os.path.join(root, os.path.dirname(out_of(case))), exist_ok=True)


def out_of(case):
    return '%s/tsp_%d_nodes/tsp_test_1.csv' % (MAT, case['n'])


TIMES = re.compile(r'(Time taken:\s*)[-+0-9.e]+')


def normal(text):
    return None if text is None else TIMES.sub(r'\1#', text)


def snapshot():
    out = {}
    for top in (MAT, RES, WORK):
        base = os.path.join(scratch(), top)
        for d, _, names in os.walk(base):
            for n in names:
                rel = os.path.relpath(os.path.join(d, n), scratch())
                out[rel] = get(rel)
    return out


def everything():
    """All data files, as bytes."""
    out = {}
    for top in ('src/HybridSolver/data', 'src/HybridSolver/results', HYB):
        for d, _, names in os.walk(os.path.join(scratch(), top)):
            for n in names:
                p = os.path.join(d, n)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, scratch())] = f.read()
    return out


def power_cut(seed, events, ground):
    """What was not synced since its last change may be lost, in part or as a whole; what was synced stays.
    A synced file's directory entry stays with it, and a removal may be undone."""
    r = random.Random(seed)
    safe, dirty = dict(ground), set()
    for e in events:
        if e[1] == 'durable':
            safe[e[2]] = e[4].encode('latin-1')
            dirty.discard(e[2])
        elif e[1] == 'op' and e[3] in ('open-w', 'write', 'remove'):
            dirty.add(e[4])
        elif e[1] == 'renamed':
            dirty |= {e[2], e[3]}
        elif e[1] == 'solver':
            dirty.add(e[2]['out'])
    now = everything()
    for p in sorted(set(now) | set(safe)):
        if p not in dirty:
            continue
        c, d = now.get(p), safe.get(p)
        if c == d:
            continue
        x = r.randrange(5)
        if x == 0 or c is None:
            new = d if r.random() < 0.5 or c is not None else c
        elif x == 1:
            new = b''
        elif x == 2:
            new = c[:r.randrange(len(c) + 1)]
        elif x == 3:
            k = r.randrange(len(c) + 1)
            new = c[:k] + b'\0' * (len(c) - k)
        else:
            new = c
        if new != c:
            events.append(['D', 'fired', 'unsynced data lost in a power cut'])
        full = os.path.join(scratch(), p)
        if new is None:
            if c is not None:
                os.remove(full)
        else:
            put(p, new)
    events.append(['D', 'fired', 'power cut'])


class Step:
    def __init__(self, code, events, before, after):
        self.code, self.events, self.before, self.after = code, events, before, after
    def of(self, kind):
        return [e for e in self.events if e[1] == kind]
    def fired(self):
        return [e[2] for e in self.of('fired')]


_memo = {}
counters = {'runs': 0, 'fired': {}, 'ends': {}, 'hashes': set(), 'nontrivial': set(), 'sim_us': 0, 'probes': {}}


def probe(name):
    counters['probes'][name] = counters['probes'].get(name, 0) + 1


def real_solvers(case):
    return json.loads(os.environ.get('PYSIM_SOLVERS', '{}')) if case.get('real') else {}


def execute(case):
    """All steps of the case, one after the other on the same files."""
    key = json.dumps(case, sort_keys=True)
    if key in _memo:
        return _memo[key]
    if len(_memo) > 300:
        _memo.clear()
    prepare(case)
    root = scratch()
    steps = []
    h = hashlib.sha1()
    real = real_solvers(case)
    for k, s in enumerate(case['steps']):
        before = snapshot()
        plan = dict(s['plan'], real=real)
        ground = None
        if s.get('power'):
            plan['keep'] = 1
            ground = everything()
        if case['prog'] == 'tool' or s.get('tool'):
            cwd = os.path.join(root, s.get('cwd') or case['cwd'])
            tool = s.get('tool') or case['tool']
            if tool not in program_files():
                raise ToolError('there is no %s' % tool)
            code, ev = run_process(root, plan, s.get('rseed', case['rseed']), k, os.path.join(root, tool), [os.path.basename(tool)] + s['args'], cwd, tool=True)
        elif case['prog'] == 'driver':
            code, ev = run_process(root, plan, case['rseed'], k, os.path.join(root, MAIN, 'HybridSolver.py'), ['HybridSolver.py'] + s['args'], os.path.join(root, MAIN))
        else:
            if s.get('temp') is not None:
                put('%s/test_%d_nodes_temp.txt' % (HYB, case['n']), s['temp'])
            code, ev = run_process(root, plan, s.get('rseed', case['rseed']), k, os.path.join(root, NNDIR, 'main.py'), ['main.py', os.path.join(root, out_of(case)), str(case['n']), str(case['model'])], os.path.join(root, NNDIR))
        for e in ev:
            if e[1] == 'internal':
                raise ToolError('the simulator failed: %s' % e[2])
            if e[1] == 'outside':
                probe('operation outside of the scratch directory refused')
        if code in (98, 99):
            raise ToolError('the simulator failed without a message')
        if s.get('power'):
            power_cut(s['power'], ev, ground)
        after = snapshot()
        st = Step(code, ev, before, after)
        steps.append(st)
        for e in ev:
            h.update(json.dumps(e).encode())
            if e[1] == 'exit':
                counters['sim_us'] += e[4]
            if e[1] == 'real solver':
                probe('solver run of the real solver')
        h.update(str(code).encode())
        h.update(json.dumps(sorted(after.items())).encode())
        counters['runs'] += 1
        end = 'killed' if code == 137 else 'hang' if code == -27 else 'exit 0' if code == 0 else 'exit with an error'
        counters['ends'][end] = counters['ends'].get(end, 0) + 1
        seen = set()
        for f in st.fired():
            x = counters['fired'].setdefault(f, [0, 0])
            x[0] += 1
            if f not in seen:
                x[1] += 1
                seen.add(f)
    digest = h.hexdigest()[:16]
    counters['hashes'].add(digest)
    if any(st.fired() for st in steps) or any(st.of('solver') or st.of('model') or st.of('stdout') for st in steps):
        counters['nontrivial'].add(digest)
    _memo[key] = (steps, digest)
    return _memo[key]


# ================================================================ reading what they wrote
PAIR = re.compile(r'\(\s*([^\s,()]+)\s*,\s*([^\s,()]+)\s*\)$')


def parse_matrix(text, n):
    """(problem, coordinates, distances, probabilities)"""
    if text is None:
        return 'there is no file', None, None, None
    if not text.endswith('\n'):
        return 'the last line is cut', None, None, None
    rows = []
    for k, l in enumerate(text[:-1].split('\n')):
        t = [x for x in l.strip().split(';')]
        if t and t[-1].strip() == '':
            t.pop()
        row = []
        for x in t:
            m = PAIR.match(x.strip())
            try:
                row.append((float(m[1]), float(m[2])))
            except (TypeError, ValueError):
                return 'line %d holds %r' % (k + 1, x[:60]), None, None, None
        rows.append(row)
    if len(rows) != n + 1:
        return '%d rows for %d cities' % (len(rows) - 1, n), None, None, None
    for k, r in enumerate(rows):
        if len(r) != n:
            return 'line %d holds %d entries for %d cities' % (k + 1, len(r), n), None, None, None
    return '', rows[0], np.array([[x[0] for x in r] for r in rows[1:]]), np.array([[x[1] for x in r] for r in rows[1:]])


def dist(pts):
    a = np.array(pts, dtype=float)
    d = a[:, None, :] - a[None, :, :]
    return np.sqrt((d * d).sum(-1))


def matrix_problem(text, pts, exact):
    """What is wrong with a matrix file for these cities ('' if nothing). exact: full double precision and no probabilities."""
    n = len(pts)
    why, xy, D, P = parse_matrix(text, n)
    if why:
        return why
    for k in range(n):
        if tuple(xy[k]) != tuple(map(float, pts[k])):
            return 'city %d is %r instead of %r' % (k, tuple(xy[k]), tuple(pts[k]))
    E = dist(pts)
    tol = 9e-16 * E + 1e-300 if exact else 2.5e-7 * E + 1e-40
    bad = np.argwhere(~(np.abs(D - E) <= tol))
    if len(bad):
        i, j = map(int, bad[0])
        return 'distance %d-%d is %r instead of %r' % (i, j, float(D[i, j]), float(E[i, j]))
    if np.any(np.diag(D) != 0):
        return 'the diagonal is not zero'
    if exact and np.any(D != D.T):
        return 'the distances are not symmetric'
    if exact and np.any(P != 0):
        return 'a probability is not zero'
    return ''


def result_problem(text, report, pts):
    """Is it the solver's report, then one list of these cities, then one time?"""
    if text is None:
        return 'there is no result file'
    if not text.startswith(report):
        return 'it does not begin with the report of the solver'
    rest = text[len(report):]
    cities = re.findall(r'^[ \t]*(\d+)[ \t]*:[ \t]*(\S+)[ \t]+(\S+)[ \t]*$', rest, re.M)
    if len(cities) != len(pts):
        return '%d cities are listed instead of %d' % (len(cities), len(pts))
    for k, c in enumerate(cities):
        if int(c[0]) != k or (float(c[1]), float(c[2])) != tuple(map(float, pts[k])):
            return 'city %d is listed as %s : %s %s' % ((k,) + c)
    t = re.findall(r'Time taken:\s*[-+0-9.e]+', rest)
    if len(t) != 1:
        return '%d times are given' % len(t)
    return ''


# ================================================================ cases
def points(r, n, far=1e5, close=1e-13, same=0):
    """far: how large the coordinates may be; close: how close two cities; same: how often cities coincide."""
    fam = r.randrange(9)
    scale = shift = 0
    if fam == 7:
        scale = r.choice([1.5, 10, 100, 1000, far])
        scale = min(scale, far)
        shift = r.choice([0, -0.5, -1, 3]) * scale
        if r.random() < 0.3:
            scale = min(scale, 1)
    twins = same and r.random() < same
    seen, out = set(), []
    while len(out) < n:
        x, y = r.random(), r.random()
        p = out[r.randrange(len(out))] if out else None
        if fam == 1:
            x, y = round(x, 3), round(y, 3)
        elif fam == 2:
            x, y = 0.4 + 0.05 * x, 0.3 + 0.05 * y
        elif fam == 3:
            x, y = round(x, 12), round(y, 12)
        elif fam == 4 and out and r.random() < 0.3:      # close to an earlier one
            x, y = p[0] + 1e-4 * (x + 0.1), p[1] + 1e-4 * (y + 0.1)
        elif fam == 5 and r.random() < 0.15:
            x, y = x * 1e-4, y
        elif fam == 6 and out and r.random() < 0.5:      # on a line with the one before, or with another
            q = out[-1] if r.random() < 0.6 else p
            x, y = (q[0], y) if r.random() < 0.6 else (x, q[1])
        elif fam == 7:
            x, y = scale * x + shift, scale * y - shift
        elif fam == 8 and out and r.random() < 0.25:     # very close
            d = max(close, 10 ** -r.randint(5, 13))
            x, y = p[0] + d * r.choice([-1, 0, 1]), p[1] + d * r.choice([-1, 1])
        if twins and out and r.random() < 0.3:
            x, y = p
            seen.discard((x, y))
        if (x, y) in seen:
            continue
        seen.add((x, y))
        out.append([x, y])
    return out


def knobs(r):
    p = {}
    if r.random() < 0.6:
        p['bufsize'] = r.choice([1, 3, 16, 64, 100, 512, 4096])
    if r.random() < 0.4:
        p['wchunk'] = r.choice([1, 2, 7, 40, 200])
        if p.get('bufsize', 8192) > 512 and p['wchunk'] < 7:
            p['wchunk'] = 7
    if r.random() < 0.4:
        p['rchunk'] = r.choice([1, 5, 30, 200, 1000])
    if r.random() < 0.5:
        p['clock'] = r.choice([1, 3600, 1e6])
    return p


def sets(r, hyb, nlines=None, n=None, **how):
    n = n or (r.randint(3, 8) if not hyb else r.choice([3, 4, 5, 6, 7, 8, 12, 19, 20]))
    L = nlines or r.randint(1, 5)
    case = {'prog': 'driver', 'n': n, 'hyb': hyb, 'lines': [points(r, n, **how) for _ in range(L)], 'outputs': [hyb or r.random() < 0.5 for _ in range(L)], 'endl': True if hyb else r.random() < 0.6, 'pre': {}, 'dirs': [], 'rseed': r.randrange(1 << 30), 'steps': []}
    if hyb:
        # the reader of the network step wants the tour, unless dummy cities bring one along
        case['outputs'] = [True if n in (20, 50, 100) else r.random() < 0.7 for _ in range(L)]
    return case


def args_of(case, rng, style=0):
    a, b = rng
    text = '%d-%d' % (a, b) if style != 2 else str(b)
    return ['--range_instances', text, '--num_nodes', str(case['n'])] + (['--hybrid'] if case['hyb'] else [])


def pick_range(r, L):
    """(argument range, style, the instances it means)"""
    x = r.randrange(4)
    if x == 0:
        b = r.randint(1, L)
        return (1, b), 2, list(range(1, b + 1))
    if x == 1:
        b = r.randint(1, L)
        return (0, b), 0, list(range(1, b + 1))
    a = r.randint(1, L)
    b = r.randint(a, L)
    return (a, b), 0, list(range(a, b + 1))


def mode_of(case):
    return 'hybrid' if case['hyb'] else 'classic'


def mat_path(n, i):
    return '%s/tsp_%d_nodes/tsp_test_%d.csv' % (MAT, n, i)


def res_path(n, mode, i):
    return '%s/tsp_%d_nodes_%s/tsp_result_%d.txt' % (RES, n, mode, i)


def clutter(r, case):
    """Directories that exist or not, and files of earlier runs."""
    n, m = case['n'], mode_of(case)
    other = 'classic' if case['hyb'] else 'hybrid'
    pre = case['pre']
    if r.random() < 0.5:
        case['dirs'] += r.sample([os.path.dirname(mat_path(n, 1)), os.path.dirname(res_path(n, m, 1)), MAT, RES], r.randint(1, 4))
    if r.random() < 0.5:
        for i in r.sample(range(1, 9), 3):
            pre[res_path(n, m, i)] = 'earlier result %d\n\nNodes: \n\t0 : 0.5 0.5\n\nTime taken: 1.0s\n' % i * r.randint(1, 3)
    if r.random() < 0.5:
        pre[res_path(n, other, r.randint(1, 5))] = 'result of the other mode\n'
        pre[res_path(n + 1, m, r.randint(1, 5))] = 'result of another size\n'
    if r.random() < 0.4:
        i = r.randint(1, max(1, len(case['lines'])))
        pre[mat_path(n, i)] = r.choice(['', '(0.1, 0.2)', 'garbage\n' * 2000, '(0.5, 0.5);(0.1, 0.1)\n(0, 0);(1, 0);\n(1, 0);(0, 0);\n'])
    if r.random() < 0.4:
        case['other_sets'] = {str(n + 1): '0.1 0.2 0.3 0.4\n', str(n - 1): '0.9 0.9 0.8 0.8\n'}
    if r.random() < 0.3:
        pre['src/HybridSolver/cmake-build/CMakeFiles/BranchAndBound1Tree.dir/BranchAndBound1Tree'] = json.dumps({'n': str(n + 1), 'h': '0' if case['hyb'] else '1', 'built': -1})
        pre['src/HybridSolver/cmake-build/CMakeFiles/BranchAndBound1Tree.dir/CMakeCache.txt'] = json.dumps({'MAX_VERTEX_NUM': str(n + 1), 'HYBRID': '0' if case['hyb'] else '1'})
    if r.random() < 0.3:
        pre['%s/test_%d_nodes_temp.txt' % (HYB, n)] = r.choice(['', '0.1', 'leftover of a dead run ' * 300])


def clean(case):
    """The same case without faults: one undisturbed run of its last step."""
    c = copy.deepcopy(case)
    s = c['steps'][-1]
    s['plan'] = {}
    s.pop('power', None)
    c['steps'] = [s]
    return c


def ops_of(step, proc=None):
    return [(e[0], e[2], e[3], e[4], e[5]) for e in step.of('op') if proc is None or e[0] == proc]


def pick_op(r, ops, want=None):
    c = [o for o in ops if want is None or want(o)]
    return r.choice(c) if c else None


ERR = {'open-r': [errno.EACCES, errno.EMFILE, errno.ENOENT, errno.EIO], 'open-w': [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE],
       'read': [errno.EIO, errno.ESTALE], 'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG], 'close': [errno.EIO, errno.ENOSPC, errno.EDQUOT],
       'fsync': [errno.EIO, errno.ENOSPC], 'mkdir': [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMLINK], 'remove': [errno.EACCES, errno.EROFS, errno.EBUSY],
       'rename': [errno.ENOSPC, errno.EIO], 'replace': [errno.ENOSPC, errno.EIO], 'rmdir': [errno.EBUSY]}


def error_at(r, o):
    f = {'proc': o[0], 'op': o[1], 'kind': 'err', 'errno': r.choice(ERR.get(o[2], [errno.EIO])), 'what': o[2]}
    if o[2] == 'write':
        f['part'] = r.choice([0, 0, r.random(), 0.99])
        f['sticky'] = r.random() < 0.6
    return f


def crash_at(r, o):
    f = {'proc': o[0], 'op': o[1], 'kind': 'crash', 'late': r.random() < 0.3}
    if o[2] == 'write':
        f['late'] = False
        f['part'] = r.choice([0, 1, r.random(), r.random(), 0.999])
    return f


# ---------------------------------------------------------------- D01
def gen_D01(r, cfg):
    real = r.random() < 0.25
    many = r.random()
    if many < 0.1:      # numbers of several digits
        real = False
        L = r.randint(10, 13) if many < 0.08 else r.randint(100, 102)
        case = sets(r, cfg == 'hybrid', nlines=L, n=3 if cfg != 'hybrid' else r.choice([3, 20]))
        a, b = L - r.randint(1, 4), L
        a, b = max(1, min(a, 9 if L < 100 else 99)), r.randint(10 if L < 100 else 100, b)
        rng, style = (a, b), 0
        clutter(r, case)
    else:
        case = sets(r, cfg == 'hybrid', far=10 if real else 1e5, same=0 if real else 0.1)
        clutter(r, case)
        rng, style, _ = pick_range(r, len(case['lines']))
    plan = knobs(r)
    want = expected_instances(case, rng, style)
    sp = []
    if r.random() < 0.35:
        sp.append({'tool': 'solver', 'nth': r.randint(1, len(want)), 'kind': 'fail', 'code': r.choice([1, 2, 139, -9, -11]), 'stage': r.choice(['none', 'open', 'mid', 'all'])})
    if sp:
        plan['spawn'] = sp
    elif case['n'] in (5, 6) and real:
        case['real'] = 1
    if r.random() < 0.3:      # an earlier run on another range
        rng2, style2, _ = pick_range(r, len(case['lines']))
        case['steps'].append({'args': args_of(case, rng2, style2), 'plan': knobs(r), 'range': rng2, 'style': style2})
    case['steps'].append({'args': args_of(case, rng, style), 'plan': plan, 'range': rng, 'style': style})
    return case


def expected_instances(case, rng, style):
    a, b = rng
    a = 1 if a == 0 or style == 2 else a
    return list(range(a, b + 1))


def eval_D01(case):
    steps, _ = execute(case)
    n, m = case['n'], mode_of(case)
    for s, st in zip(case['steps'], steps):
        want = expected_instances(case, s['range'], s['style'])
        if st.code != 0:
            return 'run failed', 'nothing but a solver run failed, and the driver ends with %d: %s' % (st.code, why_of(st))
        runs = [e[2] for e in st.of('solver')]
        if [x['out'] for x in runs] != [res_path(n, m, i) for i in want]:
            return 'wrong solver runs', 'instances %s were asked for, the solver ran into %s' % (want, [x['out'] for x in runs])
        failed = {x['nth'] for x in s['plan'].get('spawn', []) if x['tool'] == 'solver'}
        left = {e[2]: e[3] for e in st.of('left')}
        for k, (i, x) in enumerate(zip(want, runs)):
            p = matrix_problem(x['matrix'], case['lines'][i - 1], not case['hyb'])
            if p:
                return 'wrong matrix', 'solver run %d is for instance %d, but in its matrix %s' % (k + 1, i, p)
            if k + 1 in failed:
                continue
            p = result_problem(st.after.get(res_path(n, m, i)), left.get(res_path(n, m, i), ''), case['lines'][i - 1])
            if p:
                return 'wrong result file', 'instance %d: %s' % (i, p)
            if case.get('real') and real_solvers(case):
                p = real_problem(left.get(res_path(n, m, i), ''), case['lines'][i - 1])
                if p:
                    return 'wrong result file', 'instance %d: %s' % (i, p)
        mine = {res_path(n, m, i) for i in want}
        for f in set(st.before) | set(st.after):
            if f.startswith(RES) and f not in mine and st.before.get(f) != st.after.get(f):
                return 'another result file touched', '%s (instances %s)' % (f, want)
    return None


def shortest(D):
    """Length of a shortest tour (Held and Karp)."""
    n = len(D)
    if n == 3:
        return float(D[0][1] + D[1][2] + D[2][0])
    best = {(1 << k, k): D[0][k] for k in range(1, n)}
    for _ in range(n - 2):
        new = {}
        for (m, k), v in best.items():
            for j in range(1, n):
                if not m >> j & 1:
                    q = (m | 1 << j, j)
                    w = v + D[k][j]
                    if w < new.get(q, 1e300):
                        new[q] = w
        best = new
    return float(min((v + D[k][0] for (m, k), v in best.items()), default=1e300))


def edges_only(pts):
    """Distances as the solver takes them: a distance of 0 is no edge (known finding: coinciding cities)."""
    E = dist(pts)
    E[E == 0] = 1e300
    return E


def real_problem(report, pts):
    """What is wrong with a report of the real solver on these cities."""
    n = len(pts)
    m = re.search(r'Cycle with (\d+) edges:(.*)', report)
    c = re.search(r'SUBPROBLEM with cost = ([0-9.]+)', report)
    i = re.search(r'interrupted = (TRUE|FALSE)', report)
    if not m or not c or not i:
        return 'the solver reported no tour'
    e = [(int(a), int(b)) for a, b in re.findall(r'(\d+) <-> (\d+)', m[2])]
    D = dist(pts)
    near = [[] for _ in range(n)]
    for a, b in e:
        if not (a < n and b < n):
            return 'its tour visits city %d of %d' % (max(a, b), n)
        near[a].append(b)
        near[b].append(a)
    if len(e) != n or any(len(x) != 2 for x in near):
        return 'its tour is not one of these cities: %s' % m[2].strip()
    at, prev, seen = 0, None, 0
    while True:
        nxt = near[at][0] if near[at][0] != prev else near[at][1]
        prev, at, seen = at, nxt, seen + 1
        if at == 0 or seen > n:
            break
    if seen != n:
        return 'its tour is not closed over all cities: %s' % m[2].strip()
    cost = sum(D[a][b] for a, b in e)
    if abs(float(c[1]) - cost) > 1e-5:
        return 'its cost is %s, and its tour is %.6f long' % (c[1], cost)
    if i[1] == 'FALSE':
        best = shortest(edges_only(pts))
        if len(set(map(tuple, pts))) < n and cost > shortest(D) + 1e-9:
            probe('known finding coinciding-cities: the tour is longer than the shortest')
        if cost > best + 1.27 * n ** .5 / 1000 + 1e-5:
            return 'the search was not interrupted, its tour is %.6f long, and the shortest %.6f' % (cost, best)
    return ''


def why_of(st):
    x = st.of('exit')
    return (x[-1][3].strip().splitlines() or [''])[-1] if x else 'no exit'


# ---------------------------------------------------------------- D02
def gen_D02(r, cfg):
    hyb = cfg == 'hybrid'
    case = sets(r, hyb, nlines=r.randint(1, 4))
    clutter(r, case)
    L = len(case['lines'])
    rng, style, want = pick_range(r, L)
    plan = knobs(r)
    case['steps'].append({'args': args_of(case, rng, style), 'plan': plan, 'range': rng, 'style': style})
    x = r.randrange(10)
    if x <= 3:
        plan['spawn'] = [{'tool': 'solver', 'nth': r.randint(1, len(want)), 'kind': 'fail', 'code': r.choice([1, 1, 2, 3, 126, 127, 134, 139, 255, -6, -9, -11, -15]), 'stage': r.choice(['none', 'open', 'mid', 'all'])}]
        if r.random() < 0.2:
            plan['spawn'][0] = {'tool': 'solver', 'nth': r.randint(1, len(want)), 'kind': 'launch', 'errno': r.choice([errno.ENOENT, errno.EACCES, errno.ENOMEM, errno.ETXTBSY])}
    elif x == 4:      # an instance the dataset does not have
        b = L + r.randint(1, 3)
        a = r.randint(1, b)
        s = case['steps'][-1]
        s['range'], s['style'] = (a, b), 0
        s['args'] = args_of(case, (a, b), 0)
        if r.random() < 0.2:
            case['lines'], case['outputs'] = [], []
    elif hyb and x <= 7:
        k = r.randint(1, len(want))
        if r.random() < 0.5:
            plan['spawn'] = [{'tool': 'nn', 'nth': k, 'kind': 'fail', 'code': r.choice([1, 2, 137, -9, -11]), 'stage': r.choice(['before', 'after', 'after'])}]
        elif r.random() < 0.2:
            plan['spawn'] = [{'tool': 'nn', 'nth': k, 'kind': 'launch', 'errno': r.choice([errno.ENOENT, errno.ENOMEM])}]
        else:
            ref = execute(dict(copy.deepcopy(case), steps=[case['steps'][-1]]))[0][0]
            o = pick_op(r, ops_of(ref), lambda o: o[0] != 'D')
            if o:
                plan['faults'] = [crash_at(r, o) if r.random() < 0.5 else error_at(r, o)]
    else:
        ref = execute(copy.deepcopy(case))[0][0]
        o = pick_op(r, ops_of(ref, 'D'), lambda o: o[2] in ('open-r', 'read', 'open-w', 'write', 'close', 'fsync') and ('hyb_tsp' in o[3] or 'tsp_test' in o[3]))
        if o:
            plan['faults'] = [error_at(r, o)]
    return case


def eval_D02(case):
    steps, _ = execute(case)
    st, s = steps[-1], case['steps'][-1]
    n, m = case['n'], mode_of(case)
    want = expected_instances(case, s['range'], s['style'])
    start = {}
    bad, cur = None, None        # a failed step, and the instance it belongs to
    last_out = None
    for e in st.events:
        if e[1] == 'solver':
            start[e[2]['out']] = None
            last_out = e[2]['out']
            if bad and last_out == res_path(n, m, cur):
                return 'solver run after a failed step', '%s for instance %d, and the solver was started on it' % (bad, cur)
            i = int(re.search(r'(\d+)\.txt$', last_out)[1]) if last_out and re.search(r'(\d+)\.txt$', last_out) else 0
            if i < 1 or i > len(case['lines']):
                return 'instance that does not exist', 'the solver ran into %s, the dataset has %d instances' % (last_out, len(case['lines']))
            p = matrix_problem(e[2]['matrix'], case['lines'][i - 1], not case['hyb'])
            if p:
                return 'solver run on another matrix', 'into %s, and in its matrix %s' % (last_out, p)
        elif e[1] == 'ended' and e[2] == 'nn' and e[4] != 0 and not bad:
            bad, cur = 'the network step ended with %d' % e[4], want[min(len(start), len(want) - 1)]
        elif e[1] == 'fired' and e[0] == 'D' and not bad and (' on ' in e[2] or e[2].startswith('nn')):
            bad, cur = e[2], want[min(len(start), len(want) - 1)]
    left = {e[2]: e[3] for e in st.of('left')}
    runs = [e[2]['out'] for e in st.of('solver')]
    launch = any(e[2] == 'solver cannot be started' for e in st.of('fired'))
    for k, out in enumerate(runs):
        code = [e[4] for e in st.of('ended') if e[2] == 'solver' and e[3] == k + 1]
        if code and code[0] != 0:
            now, then = st.after.get(out), left.get(out)
            if now != then:
                return 'result of a failed solver touched', 'the solver ended with %d on %s, which then held %r and now holds %r' % (code[0], out, (then or '')[-80:], (now or '')[-200:])
    if launch:
        for f in set(st.before) | set(st.after):
            if f.startswith(RES) and f not in runs and st.before.get(f) != st.after.get(f):
                return 'result of a failed solver touched', 'the solver could not be started, and %s was written' % f
    if want and want[-1] > len(case['lines']):
        if st.code == 0:
            return 'instance that does not exist', 'instances %s of %d were asked for, and the exit status is 0' % (want, len(case['lines']))
    return None


# ---------------------------------------------------------------- D03
def gen_D03(r, cfg):
    hyb = cfg == 'hybrid'
    case = sets(r, hyb, nlines=r.randint(1, 3), n=r.choice([3, 4, 5, 20]) if hyb else None)
    clutter(r, case)
    rng, style, want = pick_range(r, len(case['lines']))
    base = {'args': args_of(case, rng, style), 'plan': {}, 'range': rng, 'style': style}
    k = knobs(r)
    for _ in range(r.choice([1, 1, 1, 2])):
        s = copy.deepcopy(base)
        s['plan'] = dict(k)
        ref = execute(dict(copy.deepcopy(case), steps=[s]))[0][0]
        if r.random() < 0.2:
            t = r.choice(['cmake', 'make', 'solver'] + (['nn'] if hyb else []))
            s['plan']['spawn'] = [{'tool': t, 'nth': 1 if t in ('cmake', 'make') else r.randint(1, len(want)), 'kind': 'crash', 'stage': r.choice(['before', 'mid', 'all'] if t != 'nn' else ['before', 'all'])}]
        else:
            ops = ops_of(ref, 'D')
            w = pick_op(r, ops, lambda o: o[2] == 'write') if r.random() < 0.5 else None
            o = w or pick_op(r, ops)
            s['plan']['faults'] = [crash_at(r, o)]
            n_ops = [o for o in ops_of(ref) if o[0] != 'D']
            if n_ops and r.random() < 0.35:     # the network step dies, and the driver with it
                o = pick_op(r, n_ops)
                s['plan']['faults'] = [crash_at(r, o)]
        case['steps'].append(s)
    case['steps'].append(base)
    return case


def eval_D03(case):
    steps, _ = execute(case)
    ref = execute(clean(case))[0][-1]
    if ref.code != 0:
        return None      # D01 judges undisturbed runs
    st = steps[-1]
    if st.code != 0:
        return 'repeat fails', 'the repeated run ends with %d: %s' % (st.code, why_of(st))
    n, m = case['n'], mode_of(case)
    s = case['steps'][-1]
    for i in expected_instances(case, s['range'], s['style']):
        for f in (mat_path(n, i), res_path(n, m, i)):
            a, b = normal(st.after.get(f)), normal(ref.after.get(f))
            if a != b:
                return 'repeat leaves something else', '%s holds %s, after an undisturbed run %s' % (f, brief(a, b), brief(b, a))
    keep = {f for f in set(st.after) | set(ref.after) if re.search(r'tsp_(test|result)_\d+\.(csv|txt)$', f)}
    for f in sorted(keep):
        if normal(st.after.get(f)) != normal(ref.after.get(f)):
            return 'repeat leaves something else', '%s differs' % f
    return None


def brief(a, b):
    if a is None:
        return 'nothing'
    if b is None:
        return repr(a[:100])
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return '%d characters, from %d on %r' % (len(a), k, a[k:k + 80])


# ---------------------------------------------------------------- D04
def gen_D04(r, cfg):
    case = sets(r, False, nlines=r.randint(1, 3), same=0.1)
    clutter(r, case)
    rng, style, want = pick_range(r, len(case['lines']))
    n = case['n']
    if r.random() < 0.6:
        i = r.choice(want)
        case['pre'][mat_path(n, i)] = r.choice(['', 'x' * 50000, '(0.5, 0.5);(0.1, 0.1)\n(0, 0);(1, 0);\n(1, 0);(0, 0);\n' * 40])
    plan = knobs(r)
    s = {'args': args_of(case, rng, style), 'plan': plan, 'range': rng, 'style': style}
    ref = execute(dict(copy.deepcopy(case), steps=[copy.deepcopy(s)]))[0][0]
    mine = [o for o in ops_of(ref, 'D') if 'tsp_test_' in o[3]]
    if r.random() < 0.3 and mine:     # a run that died before
        s0 = copy.deepcopy(s)
        s0['plan']['faults'] = [crash_at(r, pick_op(r, mine))]
        case['steps'].append(s0)
    if r.random() < 0.75 and mine:
        w = [o for o in mine if o[2] == 'write']
        o = r.choice(w) if w and r.random() < 0.6 else r.choice(mine)
        if r.random() < 0.25:
            o = mine[-1 - r.randrange(min(3, len(mine)))]
        plan['faults'] = [error_at(r, o)]
    case['steps'].append(s)
    return case


def eval_D04(case):
    steps, _ = execute(case)
    for s, st in zip(case['steps'], steps):
        for e in st.of('solver'):
            x = e[2]
            m = re.search(r'(\d+)\.csv$', x['in'] or '')
            i = int(m[1]) if m else 0
            if not 1 <= i <= len(case['lines']):
                return 'wrong file', 'the solver was given %s' % x['in']
            p = matrix_problem(x['matrix'], case['lines'][i - 1], True)
            if p:
                return 'damaged matrix given to the solver', 'instance %d: %s%s' % (i, p, ' (after %s)' % ', '.join(sorted(set(st.fired()))) if st.fired() else '')
        if not st.of('solver') and not s['plan'].get('faults'):
            return 'no solver run', 'nothing failed, and the solver was not started: %s' % why_of(st)
    return None


# ---------------------------------------------------------------- D05
def gen_D05(r, cfg):
    hyb = cfg == 'hybrid'
    case = sets(r, hyb, nlines=r.randint(1, 3), n=r.choice([3, 4, 20]) if hyb else None)
    rng, style, want = pick_range(r, len(case['lines']))
    n, m = case['n'], mode_of(case)
    case['dirs'] += [d for d in (MAT, RES, os.path.dirname(mat_path(n, 1)), os.path.dirname(res_path(n, m, 1))) if r.random() < 0.3]
    if r.random() < 0.3:
        case['pre'][res_path(n + 1, m, 1)] = 'another size\n'
    plan = knobs(r)
    s = {'args': args_of(case, rng, style), 'plan': plan, 'range': rng, 'style': style}
    case['steps'].append(s)
    ref = execute(copy.deepcopy(case))[0][0]
    mk = [o for o in ops_of(ref) if o[2] == 'mkdir']
    x = r.random()
    if mk and x < 0.5:
        plan['faults'] = [{'proc': o[0], 'op': o[1], 'kind': 'race', 'what': 'mkdir'} for o in r.sample(mk, 1 if r.random() < 0.7 else len(mk))][:1]
    elif mk and x < 0.9:
        plan['faults'] = [error_at(r, r.choice(mk))]
    return case


def eval_D05(case):
    steps, _ = execute(case)
    ref = execute(clean(case))[0][-1]
    st = steps[-1]
    faults = case['steps'][-1]['plan'].get('faults', [])
    kind = faults[0]['kind'] if faults and st.fired() else None
    if kind == 'err' and any('on mkdir' in f for f in st.fired()):
        if st.code == 0:
            return 'failed mkdir ignored', 'a directory could not be created (%s), and the exit status is 0' % ', '.join(sorted(set(st.fired())))
        after = False
        for e in st.events:
            if e[1] == 'fired' and 'on mkdir' in e[2]:
                after = True
                needs = [x for x in st.events if x[1] == 'op' and x[3] == 'mkdir'][-1][4]
            if after and e[1] == 'solver':
                return 'step after a failed mkdir', '%s could not be created, and the solver was started' % needs
            if after and e[1] == 'spawn' and e[2] == 'nn' and '/results/' not in needs:
                return 'step after a failed mkdir', '%s could not be created, and the network step was started' % needs
        return None
    if st.code != 0 or ref.code != 0:
        return 'run fails', 'exit status %d (%s); undisturbed %d (%s)' % (st.code, why_of(st), ref.code, why_of(ref))
    for f in sorted(set(st.after) | set(ref.after)):
        if normal(st.after.get(f)) != normal(ref.after.get(f)):
            return 'the race shows', '%s differs from an undisturbed run' % f
    s = case['steps'][-1]
    for i in expected_instances(case, s['range'], s['style']):
        if res_path(case['n'], mode_of(case), i) not in st.after:
            return 'no result', 'instance %d has no result file' % i
    return None


# ---------------------------------------------------------------- D06
def gen_D06(r, cfg):
    hyb = cfg == 'hybrid'
    case = sets(r, hyb, nlines=r.randint(1, 2), n=r.choice([3, 4, 5]))
    clutter(r, case)
    n = case['n']
    # earlier runs for other sizes and modes
    case['other_sets'] = {str(k): '\n'.join(' '.join('%r %r' % tuple(p) for p in points(r, k)) for _ in range(2)) + '\n' for k in (3, 4, 5, 6) if k != n}
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice([3, 4, 5, 6])
        h = r.random() < 0.25
        if h and k == n and not hyb:
            h = False
        plan = knobs(r)
        if r.random() < 0.3:
            plan['spawn'] = [{'tool': r.choice(['cmake', 'make']), 'nth': 1, 'kind': 'crash', 'stage': r.choice(['before', 'mid', 'all'])}]
        case['steps'].append({'args': ['--range_instances', '1-1', '--num_nodes', str(k)] + (['--hybrid'] if h else []), 'plan': plan, 'n': k, 'h': int(h)})
    plan = knobs(r)
    if r.random() < 0.65:
        t = r.choice(['cmake', 'make'])
        x = r.random()
        if x < 0.7:
            f = {'tool': t, 'nth': 1, 'kind': 'fail', 'code': r.choice([1, 2, 127, 130, -2, -9, -11, -15]), 'stage': r.choice(['before', 'mid', 'after'])}
        else:
            f = {'tool': t, 'nth': 1, 'kind': 'launch', 'errno': r.choice([errno.ENOENT, errno.EACCES, errno.ENOMEM, errno.EAGAIN])}
        plan['spawn'] = [f]
    rng, style, want = pick_range(r, len(case['lines']))
    case['steps'].append({'args': args_of(case, rng, style), 'plan': plan, 'n': n, 'h': int(hyb)})
    return case


def eval_D06(case):
    steps, _ = execute(case)
    for k, (s, st) in enumerate(zip(case['steps'], steps)):
        fail = [f for f in st.fired() if f.startswith(('cmake', 'make'))]
        for e in st.of('solver'):
            x = e[2]['exe']
            if fail:
                return 'solved without a build', '%s, and the solver was started' % fail[0]
            if x['n'] != str(s['n']) or x['h'] != str(s['h']):
                return 'wrong program', '%d cities, hybrid %d were asked for, the solver run was built for %s cities, hybrid %s' % (s['n'], s['h'], x['n'], x['h'])
            if x['built'] != k:
                return 'left-over program', 'the solver run was built by an earlier run of the driver'
        if fail and st.code == 0:
            return 'failed build ignored', '%s, and the exit status is 0' % fail[0]
        if not fail and not s['plan'].get('spawn') and not st.of('solver'):
            return 'no solver run', 'nothing failed, and the solver was not started: %s' % why_of(st)
    return None


# ---------------------------------------------------------------- D07
def solver_env(r, kind):
    if kind == 'clock':
        return 'tick=%d atick=%d' % (r.choice([10 ** 6, 10 ** 7, 6 * 10 ** 7, 3 * 10 ** 8, 601 * 10 ** 6]), r.choice([0, 0, 10 ** 4, 10 ** 5]))
    if kind == 'disk':
        return r.choice(['capacity=%d' % r.randrange(1500), 'werr_off=%d' % r.randrange(1500), 'oclose_errno=28', 'oopen_errno=13', 'werr_off=%d wonce=1' % r.randrange(1500), 'rerr_off=%d' % r.randrange(2000)])
    if kind == 'memory':
        return 'afail=%d' % r.randint(1, 400)
    return r.choice(['', 'hpoison=0 spoison=255', 'rchunk=1', 'oshort=3 obuf=17', 'hpoison=255'])


def gen_D07(r, cfg):
    hyb = cfg == 'hybrid'
    case = sets(r, hyb, nlines=r.randint(1, 3), n=r.choice([3, 4, 5, 6, 7, 8, 8]), far=10, same=0.08)
    clutter(r, case)
    case['real'] = 1
    rng, style, want = pick_range(r, len(case['lines']))
    base = {'args': args_of(case, rng, style), 'range': rng, 'style': style}
    k = knobs(r)
    if r.random() < 0.4:      # a run that goes wrong somewhere
        s = dict(base, plan=dict(k))
        x = r.random()
        if x < 0.5:
            s['plan']['solver_env'] = {str(r.randint(1, len(want))): solver_env(r, r.choice(['disk', 'memory']))}
        elif x < 0.7:
            s['plan']['spawn'] = [{'tool': 'solver', 'nth': r.randint(1, len(want)), 'kind': 'crash', 'stage': r.choice(['before', 'all'])}]
        else:
            ref = execute(dict(copy.deepcopy(case), steps=[copy.deepcopy(s)]))[0][0]
            o = pick_op(r, ops_of(ref))
            s['plan']['faults'] = [crash_at(r, o) if r.random() < 0.5 else error_at(r, o)]
        case['steps'].append(s)
    s = dict(base, plan=dict(k))
    s['plan']['solver_env'] = {str(j): solver_env(r, r.choice(['clock', 'clock', ''])) for j in range(1, len(want) + 1)}
    case['steps'].append(s)
    return case


def eval_D07(case):
    if not real_solvers(case):
        raise ToolError('no solver was given')
    steps, _ = execute(case)
    n, m = case['n'], mode_of(case)
    for k, (s, st) in enumerate(zip(case['steps'], steps)):
        if st.of('no answer'):
            return None
        want = expected_instances(case, s['range'], s['style'])
        left = {e[2]: e[3] for e in st.of('left')}
        for i in want:
            f = res_path(n, m, i)
            text = st.after.get(f)
            if shortest(edges_only(case['lines'][i - 1])) >= 1e300:
                probe('known finding coinciding-cities: no tour')
                continue
            if k == len(steps) - 1 or text is not None and text != st.before.get(f) and 'Time taken' in text and finished(case, st, f, left):
                if text is None:
                    return 'no result', 'instance %d has no result file: %s' % (i, why_of(st))
                p = real_problem(text, case['lines'][i - 1])
                interrupted = 'tick' in s['plan'].get('solver_env', {}).get(str(i - want[0] + 1), '')
                if p and not (p == 'the solver reported no tour' and interrupted and not result_like(text)):
                    return 'wrong result', 'instance %d: %s' % (i, p)
                if not p:
                    p = result_problem(text, left.get(f, ''), case['lines'][i - 1])
                    if p:
                        return 'wrong result', 'instance %d: %s' % (i, p)
    return None


def result_like(text):
    return 'Time taken' in text


# ---------------------------------------------------------------- D08
def gen_D08(r, cfg):
    hyb = cfg == 'hybrid'
    case = sets(r, hyb, nlines=r.randint(1, 4), n=r.choice([3, 4, 5]) if hyb else None)
    clutter(r, case)
    rng, style, want = pick_range(r, len(case['lines']))
    base = {'args': args_of(case, rng, style), 'plan': {}, 'range': rng, 'style': style}
    k = knobs(r)
    for _ in range(r.choice([1, 1, 2])):
        s = copy.deepcopy(base)
        s['plan'] = dict(k)
        s['power'] = r.randrange(1, 1 << 30)
        if r.random() < 0.75:      # in the middle of the run; otherwise right after it
            ref = execute(dict(copy.deepcopy(case), steps=[dict(copy.deepcopy(s), power=0)]))[0][0]
            if r.random() < 0.15:
                t = r.choice(['make', 'solver'])
                s['plan']['spawn'] = [{'tool': t, 'nth': 1 if t == 'make' else r.randint(1, len(want)), 'kind': 'crash', 'stage': r.choice(['mid', 'all'])}]
            else:
                ops = ops_of(ref)
                s['plan']['faults'] = [crash_at(r, (pick_op(r, ops[len(ops) // 2:]) if r.random() < 0.5 else None) or pick_op(r, ops))]
        case['steps'].append(s)
    case['steps'].append(base)
    return case


def eval_D08(case):
    steps, _ = execute(case)
    n, m = case['n'], mode_of(case)
    for s, st in zip(case['steps'], steps):
        if not s.get('power'):
            continue
        left = {e[2]: e[3] for e in st.of('left')}
        done = []
        for i in expected_instances(case, s['range'], s['style']):
            if finished(case, st, res_path(n, m, i), left):
                done.append(i)
        for i in done:
            f = res_path(n, m, i)
            p = result_problem(st.after.get(f), left[f], case['lines'][i - 1])
            if p:
                return 'finished result lost', 'instance %d was finished when the power went off: %s' % (i, p)
    ref = execute(clean(case))[0][-1]
    if ref.code == 0:
        st = steps[-1]
        if st.code != 0:
            return 'repeat fails', 'the repeated run ends with %d: %s' % (st.code, why_of(st))
        s = case['steps'][-1]
        for i in expected_instances(case, s['range'], s['style']):
            for f in (mat_path(n, i), res_path(n, m, i)):
                a, b = normal(st.after.get(f)), normal(ref.after.get(f))
                if a != b:
                    return 'repeat leaves something else', '%s holds %s, after an undisturbed run %s' % (f, brief(a, b), brief(b, a))
    return None


def finished(case, st, f, left):
    """The driver went on to the next instance, or ended well."""
    return f in left and (st.code == 0 or any(e[1] == 'op' and e[0] == 'D' and e[3] == 'open-r' and e[4].endswith('test_%d_nodes.txt' % case['n']) for e in after_left(st, f)))


def after_left(st, f):
    k = max(i for i, e in enumerate(st.events) if e[1] == 'left' and e[2] == f)
    return st.events[k:]


# ---------------------------------------------------------------- N01, N02, N03
def nn_case(r, cfg):
    if cfg == 'pad':
        model = r.choice([20, 20, 20, 50])
        n = r.choice([2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 18, 19]) if model == 20 else r.choice([21, 25, 26, 30, 49])
    elif cfg == 'same':
        model = n = r.choice([20, 20, 20, 50])
    elif cfg == 'pad100':
        model, n = 100, r.choice([51, 60, 75, 99, 100])
    else:
        model, n = 100, r.choice([101, 102, 105, 110, 117])
    pts = points(r, n, far=1e4)
    s = ' '.join('%r %r' % tuple(p) for p in pts)
    if n == model or r.random() < 0.6:
        s += ' output ' + ' '.join(str(k) for k in list(range(1, n + 1)) + [1])
    if r.random() < 0.6:
        s += '\n'
    case = {'prog': 'nn', 'n': n, 'model': model, 'pts': pts, 'temp': s, 'pre': {}, 'dirs': [], 'rseed': r.randrange(1 << 30), 'steps': [{'plan': knobs(r)}]}
    if r.random() < 0.5:
        case['pre'][out_of(case)] = r.choice(['', 'earlier\n' * 9, '(0.5, 0.5)\n' * 30000])
    return case


def gen_N01(r, cfg):
    return nn_case(r, cfg)


def eval_N01(case):
    steps, _ = execute(case)
    st = steps[-1]
    if st.code != 0:
        return 'step failed', 'nothing went wrong, and the network step ends with %d: %s' % (st.code, why_of(st))
    p = matrix_problem(st.after.get(out_of(case)), case['pts'], False)
    if p:
        return 'matrix is not the instance', '%d cities, model of %d: %s' % (case['n'], case['model'], p)
    return None


def softmax_table(case):
    x = stubs.logits(case['rseed'] % 1000003 + 7, case['model'])
    a = x.astype(np.float64)
    e = np.exp(a - a.max(axis=3, keepdims=True))
    return (e / e.sum(axis=3, keepdims=True))[0, :, :, 1]


def eval_N02(case):
    steps, _ = execute(case)
    st = steps[-1]
    if st.code != 0:
        return 'step failed', 'nothing went wrong, and the network step ends with %d: %s' % (st.code, why_of(st))
    n = case['n']
    why, xy, D, P = parse_matrix(st.after.get(out_of(case)), n)
    if why:
        return None        # N01 judges the form
    if not np.all((P >= 0) & (P <= 1)):
        i, j = map(int, np.argwhere(~((P >= 0) & (P <= 1)))[0])
        return 'not a probability', '%d-%d: %r' % (i, j, float(P[i, j]))
    saw = st.of('model')
    if len(saw) != 1:
        return None
    pts = np.array(case['pts'], dtype=float)
    at = np.array(saw[0][2])
    d = ((at[:, None, :] - pts[None, :, :]) ** 2).sum(-1)
    city = d.argmin(1)
    if len({tuple(p) for p in xy}) != n:
        return None
    Y = softmax_table(case)
    pos = [[] for _ in range(n)]
    for k, c in enumerate(city):
        pos[c].append(k)
    want = np.zeros((n, n))
    # rows and columns of the matrix belong to the cities of its first line
    first = [int(((pts - np.array(p)) ** 2).sum(-1).argmin()) for p in xy]
    for i in range(n):
        for j in range(n):
            a, b = pos[first[i]], pos[first[j]]
            if i != j and a and b:
                want[i, j] = Y[a[0], b].max()
    off = ~np.eye(n, dtype=bool)
    bad = np.argwhere(off & ~(np.abs(P - want) <= 2e-6 + 1e-4 * want * (want < 1e-3)))
    if len(bad):
        i, j = map(int, bad[0])
        return 'wrong probability', '%d-%d of %d cities (model of %d): written %r, the model said %r' % (i, j, n, case['model'], float(P[i, j]), float(want[i, j]))
    return None


def gen_N03(r, cfg):
    case = nn_case(r, cfg)
    s = case['steps'][0]
    x = r.random()
    if x < 0.22:     # torn input
        case['torn'] = 1
        t = case['temp'].rstrip('\n')
        toks = t.split(' ')
        n = case['n']
        y = r.randrange(4)
        if y == 0:
            t = ''
        elif y == 1:      # fewer numbers
            t = ' '.join(toks[:r.randrange(0, 2 * n)])
        elif y == 2:      # a block of zero bytes
            k = r.randrange(len(' '.join(toks[:2 * n])))
            m = r.choice([1, 8, 64, 512])
            t = t[:k] + '\0' * min(m, len(t) - k) + t[k + m:]
        else:
            k = r.randrange(1, 2 * n)
            t = ' '.join(toks[:k]) + (' output ' + ' '.join(map(str, range(1, n + 1))) + ' 1' if ' output' in t and r.random() < 0.5 else '')
        case['temp'] = t
        return case
    ref = execute(copy.deepcopy(case))[0][0]
    ops = ops_of(ref)
    if x < 0.62:
        w = pick_op(r, ops, lambda o: out_of(case) in o[3] or 'tsp_test' in o[3]) if r.random() < 0.6 else pick_op(r, ops)
        if w:
            s['plan']['faults'] = [error_at(r, w)]
    else:            # killed, then the driver writes the input again, and it runs again
        o = (pick_op(r, ops, lambda o: o[2] == 'write') if r.random() < 0.5 else None) or pick_op(r, ops)
        s['plan']['faults'] = [crash_at(r, o)]
        case['steps'].append({'plan': {}, 'temp': case['temp']})
    return case


def eval_N03(case):
    steps, _ = execute(case)
    out = out_of(case)
    for s, st in zip(case['steps'], steps):
        if case.get('torn'):
            if st.code == 0:
                return 'torn input accepted', 'the input holds %r..., and the exit status is 0' % case['temp'][-60:]
            continue
        err = [f for f in st.fired() if ' on ' in f]
        if err and st.code == 0:
            return 'failed file operation ignored', '%s, and the exit status is 0' % err[0]
        if st.code == 0:
            why, xy, D, P = parse_matrix(st.after.get(out), case['n'])
            if why:
                return 'success without the whole matrix', why
            last = {}
            for e in st.events:
                if e[1] == 'durable':
                    last[e[2]] = e[3]
                elif e[1] == 'renamed':
                    if e[2] in last:
                        last[e[3]] = last.pop(e[2])
                elif e[1] == 'op' and e[3] in ('write', 'open-w') and e[4] == out:
                    last.pop(out, None)
            if last.get(out) != hashlib.sha1(st.after[out].encode()).hexdigest():
                return 'success before the matrix is durable', 'the matrix was not synced to the disk after its last write'
        elif not st.fired() or set(st.fired()) <= {'short read', 'short write', 'wall clock jump'}:
            return 'step failed', 'nothing went wrong, and the network step ends with %d: %s' % (st.code, why_of(st))
    if len(steps) > 1:
        ref = execute(clean(case))[0][-1]
        if steps[-1].after.get(out) != ref.after.get(out):
            return 'repeat leaves something else', '%s holds %s, after an undisturbed run %s' % (out, brief(steps[-1].after.get(out), ref.after.get(out)), brief(ref.after.get(out), steps[-1].after.get(out)))
    return None


# ---------------------------------------------------------------- D09
def gen_D09(r, cfg):
    case = sets(r, cfg == 'hybrid', nlines=r.randint(1, 4), far=10)
    clutter(r, case)
    rng, style, want = pick_range(r, len(case['lines']))
    plan = knobs(r)
    if r.random() < 0.8:
        plan['clock'] = r.choice([0.5, 20, 3600, 1e6, 1e8])
    if r.random() < 0.2:
        plan['spawn'] = [{'tool': 'solver', 'nth': r.randint(1, len(want)), 'kind': 'fail', 'code': r.choice([1, -9]), 'stage': r.choice(['none', 'mid', 'all'])}]
    case['steps'].append({'args': args_of(case, rng, style), 'plan': plan, 'range': rng, 'style': style})
    return case


def eval_D09(case):
    steps, _ = execute(case)
    n, m = case['n'], mode_of(case)
    s, st = case['steps'][-1], steps[-1]
    if st.code != 0:
        return 'run failed', 'nothing but a solver run failed, and the driver ends with %d: %s' % (st.code, why_of(st))
    want = expected_instances(case, s['range'], s['style'])
    runs = [e for e in st.of('ended') if e[2] in ('solver', 'nn')]
    end = st.of('exit')[-1][4] / 1e6
    solved = [k for k, e in enumerate(runs) if e[2] == 'solver']
    if len(solved) != len(want):
        return None       # D01
    for i, k in zip(want, solved):
        if runs[k][4] != 0:
            continue
        mine = [runs[k]] + ([runs[k - 1]] if k and runs[k - 1][2] == 'nn' else [])
        low = sum(e[6] - e[5] for e in mine)
        first = k - len(mine) + 1
        high = (runs[k + 1][5] if k + 1 < len(runs) else end) - (runs[first - 1][6] if first else 0)
        t = re.findall(r'^Time taken:[ \t]*(\S+?)s?[ \t]*$', st.after.get(res_path(n, m, i)) or '', re.M)
        try:
            x = float(t[-1])
        except (IndexError, ValueError):
            return 'no time', 'instance %d: %s' % (i, t)
        if not low - 1e-3 - 1e-6 * low <= x <= high + 1e-3 + 1e-6 * high:
            return 'wrong time', 'instance %d took between %.3f s and %.3f s, and %s s are written' % (i, low, high, t[-1])
    return None


# ================================================================ A: the analysis of the results
KINDS = ['CLOSED_NEAREST_NEIGHBOR', 'CLOSED_NEAREST_NEIGHBOR_HYBRID', 'CLOSED_SUBGRADIENT', 'CLOSED_1TREE']


def report_text(m, pts):
    """A finished result file, as solver and driver write it."""
    s = ''.join('Updated best value: %f, at time: %f\n' % tuple(u) for u in m['updates'])
    s += 'Optimal tour found with candidate node = %d, elapsed time = %fs and interrupted = %s\n' % (m['node'], m['elapsed'], 'FALSE' if m['resolved'] else 'TRUE')
    s += '\nMST solved with: Prim algorithm\n\nGHOSH_UB = 0.005680, SUBPROBLEM_UB = 0.000010\n'
    s += '\nB-&-B tree with generated BBNodes = %d,  explored BBNodes = %d and max tree level = %d\n\nNumber of fixed edges = %d\n' % (m['generated'], m['explored'], m['depth'], m['fixed'])
    s += '\nSUBPROBLEM with cost = %f, type = %s, level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %fs, edge to branch = %d\n' % (m['cost'], m['type'], m['level'], m['prob'], m['number'], m['obtain'], m['branch'])
    n = len(pts)
    s += '\nCycle with %d edges:' % n + ','.join('  %d <-> %d' % (k, (k + 1) % n) for k in range(n)) + '\n%d Mandatory edges:\n%d Forbidden edges:\n' % (m['fixed'], m['branch'] % 3)
    s += '\nNodes: \n' + ''.join('\t%d : %s %s\n' % (k, p[0], p[1]) for k, p in enumerate(pts))
    return s + '\nTime taken: %ss\n' % m['taken']


def read_report(text):
    """The strict second reader of a result file; None: not finished."""
    def one(pat, conv=float):
        m = re.findall(pat, text)
        return conv(m[0]) if m else None
    m = {'resolved': one(r'interrupted = (TRUE|FALSE)\n', str), 'elapsed': one(r'elapsed time = ([0-9.]+)s'), 'generated': one(r'generated BBNodes = (\d+),'), 'explored': one(r'explored BBNodes = (\d+) and'),
         'depth': one(r'max tree level = (\d+)\n'), 'cost': one(r'SUBPROBLEM with cost = ([0-9.]+), type'), 'type': one(r', type = (\w+),', str), 'level': one(r'level of the BB tree = (\d+),'), 'prob': one(r'prob_tour = (-?[0-9.]+),'),
         'number': one(r'BBNode number = (\d+) and'), 'obtain': one(r'time to obtain = ([0-9.]+)s'), 'taken': one(r'\nTime taken: ([-+0-9.e]+)s\n')}
    if any(v is None for v in m.values()):
        return None
    m['resolved'] = m['resolved'] == 'FALSE'
    m['updates'] = [(float(a), float(b)) for a, b in re.findall(r'Updated best value: ([0-9.]+), at time: ([0-9.]+)', text)]
    return m


def some_metrics(r, hyb, n):
    u, t, v = [], 0.0, 3 + 6 * r.random()
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        t += round(r.choice([0.001, 0.1, 5]) * r.random(), r.choice([1, 3, 6]))
        v -= r.choice([1e-4, 0.01, 0.3]) * r.random()
        u.append([round(v, 6), round(t, 6)])
    cost = u[-1][0] if u else round(v, 6)
    obtain = u[-1][1] if u else round(t, 6)
    elapsed = round(obtain + 10 * r.random() * r.choice([0, 1]), 6)
    res = r.random() < 0.8
    big = r.choice([2, 20, 3000, 100000])
    g = 1 + r.randrange(big)
    return {'updates': u, 'resolved': res, 'elapsed': elapsed, 'taken': repr(elapsed + r.choice([0.01, 0.5, 3]) * (0.01 + r.random())), 'node': r.randrange(n), 'generated': g, 'explored': r.randint(0, g), 'depth': r.randint(1, 40),
            'fixed': r.randint(0, n), 'cost': cost, 'type': r.choice(KINDS if hyb else [k for k in KINDS if k != KINDS[1]]), 'level': r.randint(0, 30), 'prob': round(r.random(), 6) if hyb else 0.0, 'number': r.randint(0, g), 'obtain': obtain, 'branch': r.randrange(n)}


def result_dir(n, mode):
    return 'tsp_%d_nodes_%s' % (n, mode)


def gen_results(r, n, files, whole=True):
    """Result files of both modes for some instances."""
    k = r.choice([2, 3, 5, 8, 13])
    ids = r.sample(range(1, 1001 if r.random() < 0.5 else k + 3), k)
    twins = r.random() < 0.3          # both modes alike on many instances
    for i in ids:
        pts = points(r, min(n, 6))
        first = some_metrics(r, True, n)
        for mode in ('hybrid', 'classic'):
            if not whole and r.random() < 0.15:
                continue
            m = some_metrics(r, mode == 'hybrid', n)
            if twins and r.random() < 0.7:
                m = dict(first, prob=m['prob'], type=m['type'], updates=first['updates'] if r.random() < 0.5 else [[round(a + r.choice([0, 0, 1e-4, -1e-4, 0.02]), 6), b] for a, b in first['updates']])
                if m['updates']:
                    m['cost'], m['obtain'] = m['updates'][-1]
            files['%s/tsp_result_%d.txt' % (result_dir(n, mode), i)] = report_text(m, pts)
    return ids


def settle(case, n):
    """At least two instances solved in both modes: the tests of significance need them."""
    h, c = (modes_of_files(case['files'], n, m) for m in ('hybrid', 'classic'))
    return sum(bool(h.get(i) and c.get(i) and h[i]['resolved'] and c[i]['resolved']) for i in h) > 1


def modes_of_files(files, n, mode, base=''):
    out = {}
    for f, text in files.items():
        m = re.fullmatch(re.escape(base + result_dir(n, mode)) + r'/tsp_result_(\d+)\.txt', f)
        if m:
            out[int(m[1])] = read_report(text)
    return out


def tool_faults(r, case, crash=True):
    """One failing operation, or a kill and a repeat."""
    ref = execute(copy.deepcopy(case))[0][-1]
    ops = ops_of(ref)
    if not ops:
        return
    o = (pick_op(r, ops, lambda o: o[2] in ('write', 'open-w', 'close')) if r.random() < 0.4 else None) or pick_op(r, ops)
    s = case['steps'][-1]
    if not crash or r.random() < 0.6:
        s['plan']['faults'] = [error_at(r, o)]
    else:
        s['plan']['faults'] = [crash_at(r, o)]
        case['steps'].append({'args': s['args'], 'plan': {}})


def tool_knobs(r):
    p = knobs(r)
    if r.random() < 0.8:
        p['listing'] = r.randrange(1000)
    return p


def judge_steps(case, steps, right, allowed=lambda s, st: None):
    """Failed operations end in an error; success leaves what right() accepts; without a failure the run succeeds."""
    for s, st in zip(case['steps'], steps):
        bad = [f for f in st.fired() if ' on ' in f or f in ('exact solver fails', 'process killed')]
        if bad and st.code == 0 and 'process killed' not in bad:
            return 'failure ignored', '%s, and the exit status is 0' % bad[0]
        why = allowed(s, st)
        if why:
            if st.code == 0:
                return why, 'and the exit status is 0'
            continue
        if st.code == 0:
            v = right(st)
            if v:
                return v
        elif not bad:
            return 'run failed', 'nothing went wrong, and the program ends with %d: %s' % (st.code, why_of(st))
    return None


def gen_analysis(r, cfg, prof):
    n = r.choice([20, 35, 50, 75, 100, 150])
    whole = r.random() < 0.4
    while True:
        case = {'prog': 'tool', 'tool': ANALYZER, 'cwd': RES, 'files': {}, 'rseed': r.randrange(1 << 30), 'n': n, 'steps': []}
        ids = gen_results(r, n, case['files'], whole)
        if settle(case, n):
            break
    f = case['files']
    if r.random() < 0.5:
        gen_results(r, n + 1, f)
    if r.random() < 0.4:
        f['%s/mean_results.txt' % result_dir(n, r.choice(['hybrid', 'classic']))] = 'an old table\n'
    if r.random() < 0.4:
        f['%s/notes.csv' % result_dir(n, 'hybrid')] = 'a;b\n'
    if r.random() < 0.5:
        f['mean_results/%d_nodes/mean_results.txt' % n] = 'earlier results ' * r.choice([1, 1000])
        f['mean_results/%d_nodes/performance_profile.csv' % n] = 'Time,Hybrid,Classic\n' + '0.5,0.5,0.5\n' * r.choice([1, 500])
    s = {'args': ['--num_nodes', str(n)] + (['--perf_prof'] if prof else []), 'plan': tool_knobs(r)}
    case['steps'].append(s)
    x = r.random()
    if x < 0.25:     # one that is not finished
        name = r.choice([p for p in f if p.startswith((result_dir(n, 'hybrid'), result_dir(n, 'classic'))) and 'tsp_result' in p])
        t = f[name]
        y = r.randrange(4)
        if y == 0:
            t = t[:t.rindex('Time taken')]
        elif y == 1:
            t = t[:t.index('\nNodes')]
        elif y == 2:
            t = ''
        else:
            t = t[:r.randrange(t.rindex('Time taken') + 12)]
        if read_report(t) is None:
            f[name] = t
            case['torn'] = 1
    elif x < 0.6:
        tool_faults(r, case)
    return case


def gen_A01(r, cfg): return gen_analysis(r, cfg, False)
def gen_A02(r, cfg): return gen_analysis(r, cfg, True)


def close_to(a, b, tol=2e-6):
    return (a != a and b != b) or a == b or abs(a - b) <= tol * max(1.0, abs(b))


def table_of(text):
    """Rows of a table: label -> its last tokens."""
    rows = {}
    for l in text.split('\n'):
        m = re.match(r'(.*?\S)\s{1,}(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$', l)
        if m:
            rows[m[1].strip()] = [m[k] for k in range(2, 7)]
    return rows


def means_problem(case, st, files, base):
    n = case['n']
    H, C = (modes_of_files(files, n, m, base) for m in ('hybrid', 'classic'))
    out = '%s/mean_results/%d_nodes/mean_results.txt' % (RES, n)
    text = st.after.get(out)
    if text is None:
        return 'no table', '%s is not there' % out
    rows = table_of(text)
    solved = [{i: m for i, m in X.items() if m['resolved']} for X in (H, C)]
    def num(t):
        try:
            return float(t.rstrip('%'))
        except ValueError:
            return None
    def row(name, want, what):
        got = rows.get(name)
        if got is None:
            return 'no row', 'the table has no row %r: %s' % (name, text[:200])
        for t, w, c in zip(got, want, ('hybrid', 'hybrid interval', 'classic', 'classic interval', 'p-value')):
            g = num(t)
            if w is None:
                continue
            if g is None or not (abs(g - w) <= 0.005 + 1e-9 if '%' in t else close_to(g, w)):
                return 'wrong ' + what, '%s, %s: %s instead of %r' % (name, c, t, w)
        return None
    shares = [('Resolved Instances', lambda X, S: len(S) / len(X)), ('Closed NN', lambda X, S: sum(m['type'] == KINDS[0] for m in S.values()) / len(S)), ('Closed NN Hybrid', lambda X, S: sum(m['type'] == KINDS[1] for m in S.values()) / len(S)),
              ('Closed 1Tree', lambda X, S: sum(m['type'] == 'CLOSED_1TREE' for m in S.values()) / len(S)), ('Closed Subgradient', lambda X, S: sum(m['type'] not in (KINDS[0], KINDS[1], 'CLOSED_1TREE') for m in S.values()) / len(S))]
    for name, fn in shares:
        v = row(name, [100 * fn(H, solved[0]), None, 100 * fn(C, solved[1]), None, None], 'share')
        if v:
            return v
    both = sorted(set(solved[0]) & set(solved[1]))
    for name, key in (('total_time', 'taken'), ('time_bb', 'elapsed'), ('time_to_best', 'obtain'), ('generate_bbnodes', 'generated'), ('explored_bbnodes', 'explored'), ('bbnodes_before_best', 'number'), ('total_tree_level', 'depth'), ('best_level', 'level'), ('prob_best', 'prob'), ('best_value', 'cost')):
        a, b = ([float(S[i][key]) for i in both] for S in solved)
        want = [np.mean(a), 1.96 * np.std(a) / np.sqrt(len(a)), np.mean(b), 1.96 * np.std(b) / np.sqrt(len(b))]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = float(scipy.stats.wilcoxon(a, b)[1])
        v = row(name, [float(x) for x in want] + [p], 'mean')
        if v:
            return v
    for X, mode in ((H, 'hybrid'), (C, 'classic')):
        bad = sorted(i for i, m in X.items() if not m['resolved'])
        m = re.search(r'Not resolved (\d+) instances for %s: \[([0-9, ]*)\]' % mode, text)
        if not m:
            return 'wrong list of instances', 'there is none for %s' % mode
        got = [int(t) for t in m[2].split(',') if t.strip()]
        if got != bad or int(m[1]) != len(bad):
            return 'wrong list of instances', 'not resolved in %s mode: %s %s instead of %s' % (mode, m[1], got, bad)
    want = []
    for S in solved:
        g = [float(m['generated']) for m in S.values()]
        want.append([np.mean(g), np.mean(g) + np.std(g), np.mean(g) - np.std(g)])
    for name, fn in (('Original values', lambda x: x), ('Log values', lambda x: np.log10(1 if x < 0 else x) if x else None)):
        m = re.search(r'^%s\s+(.*)$' % name, text, re.M)
        got = [float(t) for t in m[1].split()] if m else []
        w = [fn(x) for S in want for x in S]
        if len(got) != 6 or any(b is not None and abs(b) > 1e-9 and not close_to(a, b) for a, b in zip(got, w)):
            return 'wrong mean', '%s: %s instead of %s' % (name, got, w)
    return None


def eval_A01(case):
    steps, _ = execute(case)
    def right(st):
        v = means_problem(case, st, case['files'], '')
        return v or untouched(case, st, ['mean_results/%d_nodes/' % case['n']])
    return judge_steps(case, steps, right, lambda s, st: 'a result that is not finished is counted' if case.get('torn') else None)


def untouched(case, st, mine):
    for f in set(st.before) | set(st.after):
        rel = f[len(case['cwd']) + 1:] if f.startswith(case['cwd'] + '/') else f
        if not any(rel == m or (m.endswith('/') and rel.startswith(m)) for m in mine) and st.before.get(f) != st.after.get(f):
            return 'another file touched', f
    return None


def profile_problem(case, st):
    n = case['n']
    H, C = (modes_of_files(case['files'], n, m) for m in ('hybrid', 'classic'))
    both = sorted(set(H) & set(C))
    sols = {}
    for name, X in (('h', H), ('c', C)):
        for i in both:
            m = X[i]
            over = float(m['taken']) - m['elapsed']
            u = [(v, over + t) for v, t in m['updates']] or [(m['cost'], over + m['obtain'])]
            sols[name, i] = (m['resolved'], u)
    ub = np.sqrt(n) * 0.00127
    def share_better(t):
        a = b = 0
        for i in both:
            x, y = (next((v for v, at in reversed(sols[k, i][1]) if at <= t), None) for k in 'hc')
            if x is None and y is None:
                continue
            if x is not None and y is not None:
                if abs(abs(x - y) - ub) < 1e-9:
                    return None
                if abs(x - y) < ub:
                    continue
            if y is None or (x is not None and x < y):
                a += 1
            else:
                b += 1
        return a / len(both), b / len(both)
    def share_solved(t):
        return tuple(sum(sols[k, i][0] and sols[k, i][1][-1][1] <= t for i in both) / len(both) for k in 'hc')
    jobs = [('performance_profile', share_better, {at for k in sols for _, at in sols[k][1]}), ('cumulative_profile', share_solved, {sols[k][1][-1][1] for k in sols if sols[k][0]})]
    for name, fn, times in jobs:
        path = '%s/mean_results/%d_nodes/%s' % (RES, n, name)
        text = st.after.get(path + '.csv')
        if text is None:
            return 'no profile', '%s.csv is not there' % path
        lines = text.split('\n')
        try:
            assert lines[0] == 'Time,Hybrid,Classic' and lines[-1] == ''
            got = [tuple(map(float, l.split(','))) for l in lines[1:-1]]
            assert all(len(g) == 3 for g in got)
        except (AssertionError, ValueError):
            return 'damaged profile', text[:300]
        if any(a[0] > b[0] for a, b in zip(got, got[1:])):
            return 'damaged profile', 'the times of %s do not rise' % name
        # between groups of times that are not the same but closer than rounding can tell
        ts = sorted(times)
        for k, t in enumerate(ts):
            if k + 1 < len(ts) and ts[k + 1] - t < 1e-9:
                continue
            want = fn(t + 1e-10)
            now = [g for g in got if g[0] <= t + 1e-9]
            if not now:
                return 'wrong profile', '%s begins at %r, not at %r' % (name, got[0][0] if got else None, t)
            if want is not None and any(abs(a - b) > 1e-9 for a, b in zip(now[-1][1:], want)):
                return 'wrong profile', '%s at %r: %s instead of %s' % (name, t, now[-1][1:], want)
            if k and not any(abs(g[0] - t) < 1e-6 for g in got):
                return 'wrong profile', '%s has no point at %r' % (name, t)
        try:
            plot = {l: (x, y) for x, y, l in json.loads(st.after.get(path + '.pdf') or '')}
        except ValueError:
            return 'no plot', path
        for l, j in (('Hybrid', 1), ('Classic', 2)):
            if l not in plot or len(plot[l][0]) != len(got) or any(abs(a - g[0]) > 1e-9 or abs(b - g[j]) > 1e-9 for a, b, g in zip(*plot[l], got)):
                return 'wrong plot', '%s: the curve of %s is not that of the table' % (name, l)
    return None


def eval_A02(case):
    steps, _ = execute(case)
    return judge_steps(case, steps, lambda st: profile_problem(case, st), lambda s, st: 'a result that is not finished is counted' if case.get('torn') else None)


# ---------------------------------------------------------------- A03: the tables of the paper
ROWS = [('total_time', 'Total time (s)'), ('time_bb', 'BB time (s)'), ('time_to_best', 'Time to Best (s)'), ('total_tree_level', 'BB tree depth'), ('best_level', 'Depth of the best'),
        ('generate_bbnodes', 'Generated BB nodes'), ('explored_bbnodes', 'Explored BB nodes'), ('bbnodes_before_best', 'BB nodes before best')]
EXACT, HEUR = (20, 50, 100), (35, 75, 150)


def gen_A03(r, cfg):
    case = {'prog': 'tool', 'tool': ANALYZER, 'cwd': RES, 'files': {}, 'rseed': r.randrange(1 << 30), 'n': 0, 'steps': [], 'means': {}}
    for n in EXACT + HEUR:
        m = {}
        for name in ('Resolved Instances', 'Closed NN', 'Closed NN Hybrid', 'Closed 1Tree', 'Closed Subgradient'):
            m[name] = ['%s%%' % round(100 * r.choice([r.random(), 1, 0]), 2), '0.000000', '%s%%' % round(100 * r.choice([r.random(), 1, 0]), 2), '0.000000', '-']
        for name in [a for a, _ in ROWS] + ['prob_best', 'best_value']:
            a = r.choice([1, 50, 4000]) * r.random()
            b = a + r.choice([0, 0.001, -0.001, 0.5, -0.5, 10, 300, -a * r.random()])
            p = r.choice([0, 0.05, r.random() * 0.03, r.random(), 0.06 + r.random() * 0.2, float('nan')])
            m[name] = ['%.6f' % a, '%.6f' % (a * r.random()), '%.6f' % abs(b), '%.6f' % (a * r.random()), 'NaN' if p != p else '%.6f' % p]
        case['means'][str(n)] = m
        order = list(m)
        text = ' ' * 21 + 'Hybrid Mean  Hybrid Int Classic Mean  Classic Int P-val for Wilcoxon signed-rank test\n'
        for name in order:
            text += name.ljust(19) + ' '.join(t.rjust(14) for t in m[name]) + '\n'
        un = r.sample(range(1, 1000), r.randrange(5))
        text += '\nNot resolved %d instances for hybrid: %s\n\nNot resolved 0 instances for classic: []\n\n                 H_mean_generated  H_mean_+_std\nLog values               3.5  4.0\nOriginal values       3766.8  11143.2' % (len(un), sorted(un))
        case['files']['mean_results/%d_nodes/mean_results.txt' % n] = text
    if r.random() < 0.5:
        case['files']['mean_results/exact_table.tex'] = 'an older table ' * r.choice([1, 700])
    case['steps'].append({'args': ['--num_nodes', '0', '--tab'], 'plan': tool_knobs(r)})
    if r.random() < 0.4:
        tool_faults(r, case)
    return case


CELL = re.compile(r'^(\\underline\{)?(\\textbf\{)?(-?[0-9.]+)(\}*)$')


def tables_problem(case, st):
    for name, sizes in (('exact', EXACT), ('heur', HEUR)):
        text = st.after.get('%s/mean_results/%s_table.tex' % (RES, name))
        if text is None:
            return 'no table', name
        body = {}
        for l in text.split('\n'):
            if '&' in l:
                t = l.strip()
                if not t.endswith('\\\\'):
                    return 'damaged table', '%s: line %r' % (name, t[:80])
                cells = [c.strip() for c in t[:-2].split('&')]
                body[cells[0]] = cells[1:]
        if '\\begin{tabular}' not in text or '\\end{tabular}' not in text or '\\toprule' not in text or '\\bottomrule' not in text:
            return 'damaged table', name
        head = re.findall(r'\$n=(\d+)\$', text)
        if head != [str(x) for x in sizes]:
            return 'wrong sizes', '%s: %s' % (name, head)
        left = re.search(r'(?:std_)?(?:numn|perc|perc_nn|perc_pnn|ttime|bbtime|timetb|tdep|bdep|gbbn|ebbn|bbnbb|os)_\d', text)
        if left:
            return 'place left open', '%s: %s' % (name, left[0])
        for k, n in enumerate(sizes):
            m = case['means'][str(n)]
            def get(label, at):
                c = body.get(label)
                return c[at] if c and len(c) > at else None
            for label, src, at in (('Instances solved', 'Resolved Instances', (2, 0)), ('$\\qquad$ with NN', 'Closed NN', (2, 0)), ('$\\qquad$ with PNN', 'Closed NN Hybrid', (None, 0))):
                for j, c in enumerate(at):
                    got = get(label, 4 * k + 2 * j)
                    want = '-' if c is None else m[src][c].replace('%', '\\%')
                    if got != want:
                        return 'wrong entry', '%s table, %d cities, %r, %s: %r instead of %r' % (name, n, label, 'GCBB' if j else 'BB', got, want)
            for key, label in ROWS:
                h, hi, c, ci = (round(float(x), 2) for x in m[key][:4])
                p = float(m[key][4])
                sure = p != p or p == 0.05 or abs(p - 0.05) > 0.0051
                for j, (v, s, o) in enumerate(((c, ci, h), (h, hi, c))):
                    got, std = get(label, 4 * k + 2 * j), get(label, 4 * k + 2 * j + 1)
                    x = CELL.match(got or '')
                    where = '%s table, %d cities, %r, %s' % (name, n, label, 'GCBB' if j else 'BB')
                    if not x or len(x[4]) != bool(x[1]) + bool(x[2]):
                        return 'damaged entry', '%s: %r' % (where, got)
                    if abs(float(x[3]) - v) > 1e-9:
                        return 'wrong entry', '%s: %s instead of %s' % (where, got, v)
                    if bool(x[2]) != (v < o):
                        return 'wrong emphasis', '%s: %s, the other is %s' % (where, got, o)
                    if x[1] and not x[2] or sure and bool(x[1]) != (v < o and p < 0.05):
                        return 'wrong emphasis', '%s: %s, p = %s' % (where, got, p)
                    y = re.match(r'^\\stdf\{([0-9.]+)\}$', std or '')
                    if not y or abs(float(y[1]) - s) > 1e-9:
                        return 'wrong entry', '%s: interval %r instead of %s' % (where, std, s)
            label = next((l for l in body if 'O_{T' in l), None)
            got, std = get(label, 4 * k + 2), get(label, 4 * k + 3)
            w, s = round(float(m['prob_best'][0]), 2), round(float(m['prob_best'][1]), 2)
            y = re.match(r'^\\stdf\{([0-9.]+)\}$', std or '')
            try:
                ok = abs(float(got) - w) < 1e-9 and y and abs(float(y[1]) - s) < 1e-9
            except (TypeError, ValueError):
                ok = False
            if not ok:
                return 'wrong entry', '%s table, %d cities, mean probability: %r %r instead of %s, %s' % (name, n, got, std, w, s)
    return None


def eval_A03(case):
    steps, _ = execute(case)
    return judge_steps(case, steps, lambda st: tables_problem(case, st) or untouched(case, st, ['mean_results/exact_table.tex', 'mean_results/heur_table.tex']))


# ---------------------------------------------------------------- A04: what the solver writes is what the analysis reads
def gen_A04(r, cfg):
    n = r.choice([5, 6])
    case = sets(r, True, r.randint(2, 4), n, far=10)
    case['real'] = 1
    case['hyb'] = True
    L = len(case['lines'])
    if r.random() < 0.35:                                 # tours whose length is a whole number
        for k in range(L):
            grid = r.sample([[float(x), float(y)] for x in range(4) for y in range(2)] if r.random() < 0.5 else [[x * 0.5, 1.0] for x in range(10)], n)
            case['lines'][k] = grid
    for hyb in r.sample([True, False], 2):
        a = 1
        b = L if r.random() < 0.8 else r.randint(1, L)
        env = {}
        for k in range(1, b + 1):
            if r.random() < 0.3:
                env[str(k)] = solver_env(r, 'clock')
        p = knobs(r)
        p['solver_env'] = env
        case['steps'].append({'args': ['--range_instances', '%d-%d' % (a, b), '--num_nodes', str(n)] + (['--hybrid'] if hyb else []), 'plan': p, 'range': [a, b], 'style': 0, 'step_hyb': hyb})
    case['steps'].append({'tool': ANALYZER, 'cwd': RES, 'args': ['--num_nodes', str(n)], 'plan': tool_knobs(r)})
    return case


def eval_A04(case):
    steps, _ = execute(case)
    if not real_solvers(case):
        raise ToolError('A04 needs the real solvers')
    for st in steps[:-1]:
        if st.code != 0 or st.of('no answer'):
            return None
    st = steps[-1]
    base = RES + '/'
    H, C = (modes_of_files(st.before, case['n'], m, base) for m in ('hybrid', 'classic'))
    if any(m is None for X in (H, C) for m in X.values()):
        probe('report without a tour or with an odd time')
        return None
    if sum(H[i]['resolved'] and C[i]['resolved'] for i in set(H) & set(C)) < 2:
        probe('less than two instances solved in both modes')
        return None
    for X, mode in ((H, 'hybrid'), (C, 'classic')):
        for i, m in X.items():
            if m['taken'] < 0:
                return None
            if m['type'] not in KINDS:
                return 'unknown way of closing', 'instance %d (%s): the report says %s, which the analysis does not know' % (i, mode, m['type'])
    if st.code != 0:
        return 'run failed', 'every result is finished, and the analysis ends with %d: %s' % (st.code, why_of(st))
    return means_problem(case, st, st.before, base)


# ================================================================ T: datasets and conversions
def sample_line(r, n, near=0):
    pts = points(r, n)
    if r.random() < near:                           # distances that differ in the last digits only
        grid = r.sample([(x * 0.25, y * 0.25) for x in range(5 if n <= 25 else 9) for y in range(5 if n <= 25 else 9)], n)
        pts = [(x + r.random() * 1e-9, y + r.random() * 1e-9) for x, y in grid]
    t = list(range(n))
    r.shuffle(t)
    text = ' '.join('%s %s' % (repr(float(x)), repr(float(y))) for x, y in pts) + ' output ' + ' '.join(str(k + 1) for k in t + t[:1]) + ' '
    return text, pts, t


def gen_T01(r, cfg):
    n = r.choice([3, 5, 10, 20, 50])
    L = r.choice([0, 1, 2, 5, 12, 40, 200])
    lines = [sample_line(r, n)[0] if n < 10 or L < 40 else 'line %d %s' % (k, 'x' * r.randrange(300)) for k in range(L)]
    if r.random() < 0.2 and L:
        lines[r.randrange(L)] = lines[0]            # a sample twice
    text = ''.join(l + '\n' for l in lines)
    if r.random() < 0.2 and text:
        text = text[:-1]
    v = r.choice([0, 1, L // 2, max(0, L - 1), L, L + 3, r.randint(0, L + 1)])
    name = None if r.random() < 0.5 else r.choice(['all.txt', 'tsp99_concorde.txt', 'a b.txt'])
    case = {'prog': 'tool', 'tool': SPLIT, 'cwd': WORK, 'files': {name or 'tsp%d_concorde.txt' % n: text}, 'rseed': r.randrange(1 << 30), 'n': n, 'val': v, 'name': name or 'tsp%d_concorde.txt' % n, 'steps': []}
    for o in ('val', 'train'):
        if r.random() < 0.4:
            case['files']['tsp%d_%s_concorde.txt' % (n, o)] = 'an earlier split\n' * r.choice([1, 400])
    case['files']['tsp%d_val_concorde.txt' % (n + 1)] = 'of another size\n'
    case['steps'].append({'args': ['--num_nodes', str(n), '--val_size', str(v)] + (['--filename', name] if name else []), 'plan': tool_knobs(r)})
    if r.random() < 0.6:
        tool_faults(r, case)
    return case


def eval_T01(case):
    steps, _ = execute(case)
    n = case['n']
    text = case['files'][case['name']]
    lines = text.split('\n')
    lines = [l + '\n' for l in lines[:-1]] + ([lines[-1]] if lines[-1] else [])
    want = {'val': ''.join(lines[:case['val']]), 'train': ''.join(lines[case['val']:])}
    def right(st):
        for o in ('val', 'train'):
            got = st.after.get('%s/tsp%d_%s_concorde.txt' % (WORK, n, o))
            if got != want[o] and not (got is not None and got.rstrip('\n') == want[o].rstrip('\n')):
                return 'wrong split', '%s set of %d from %d samples: %s' % (o, case['val'], len(lines), 'there is none' if got is None else 'holds %d samples instead of %d' % (got.count('\n'), want[o].count('\n')) if got.count('\n') != want[o].count('\n') else brief(got, want[o]))
        return untouched(case, st, ['tsp%d_%s_concorde.txt' % (n, o) for o in want])
    for s, st in zip(case['steps'], steps):
        if st.after.get(WORK + '/' + case['name']) != text:
            return 'samples lost', 'the file that is split was changed'
    return judge_steps(case, steps, right)


def gen_T02(r, cfg):
    n = r.choice([3, 4, 5, 8, 20, 50])
    L = r.choice([1, 2, 3, 7, 12])
    if n >= 20:
        L = min(L, 3 if n == 20 else 2)
    s = [sample_line(r, n, 0.3) for _ in range(L)]
    case = {'prog': 'tool', 'tool': BATCHES, 'cwd': NNDIR, 'files': {'data/set.txt': ''.join(x[0] + '\n' for x in s)}, 'rseed': r.randrange(1 << 30), 'n': n, 'pts': [x[1] for x in s], 'tours': [x[2] for x in s],
            'k': r.choice([-1, -1, 1, n - 1, r.randint(1, n - 1)]), 'batch': r.choice([1, 1, 2, 3, L, L + 1]), 'passes': r.randint(1, 2), 'steps': []}
    case['steps'].append({'args': [json.dumps({'n': n, 'k': case['k'], 'batch': case['batch'], 'passes': case['passes'], 'file': 'data/set.txt'})], 'plan': tool_knobs(r)})
    if r.random() < 0.3:
        tool_faults(r, case, crash=False)
    return case


def batches_problem(case, st):
    n, L, B = case['n'], len(case['tours']), case['batch']
    doc = json.loads(st.of('stdout')[-1][2])
    if doc['max_iter'] != L // B:
        return 'wrong number of batches', '%r batches of %d from %d samples' % (doc['max_iter'], B, L)
    keys = {tuple(map(tuple, p)) + tuple(t): k for k, (p, t) in enumerate(zip(case['pts'], case['tours']))}
    for ps in doc['passes']:
        if len(ps) != L // B:
            return 'wrong number of batches', '%d batches of %d from %d samples' % (len(ps), B, L)
        seen = set()
        for b in ps:
            if any(len(b[f]) != B for f in b):
                return 'wrong batch', 'not %d samples in every field' % B
            for k in range(B):
                key = tuple(map(tuple, b['nodes_coord'][k])) + tuple(b['tour_nodes'][k])
                if key not in keys:
                    return 'wrong sample', 'cities %s with tour %s are no sample' % (b['nodes_coord'][k][:2], b['tour_nodes'][k])
                if key in seen:
                    return 'sample twice', 'sample %d comes twice in one pass' % keys[key]
                seen.add(key)
                i = keys[key]
                D = dist(case['pts'][i])
                V = np.array(b['edges_values'][k])
                if V.shape != (n, n) or np.any(np.abs(V - D) > 1e-14 * D + 1e-300):
                    return 'wrong distances', 'sample %d' % i
                t = case['tours'][i]
                T, ln = np.zeros((n, n)), 0.0
                for a, c in zip(t, t[1:] + t[:1]):
                    T[a][c] = T[c][a] = 1
                    ln += D[a][c]
                if np.any(np.array(b['edges_target'][k]) != T):
                    return 'wrong target', 'sample %d: the edges of the target are not those of the tour' % i
                if [int(x) for x in b['nodes_target'][k]] != [t.index(x) for x in range(n)]:
                    return 'wrong target', 'sample %d: positions in the tour' % i
                if abs(b['tour_len'][k] - ln) > 1e-12 * ln:
                    return 'wrong length', 'sample %d: %r instead of %r' % (i, b['tour_len'][k], ln)
                if b['nodes'][k] != [1.0] * n:
                    return 'wrong sample', 'signal on the nodes of sample %d' % i
                W = np.array(b['edges'][k])
                if W.shape != (n, n) or np.any(np.diag(W) != 2):
                    return 'wrong neighbours', 'sample %d: the diagonal' % i
                for x in range(n):
                    near = [y for y in range(n) if y != x and W[x][y] == 1]
                    if any(W[x][y] not in (0, 1) for y in range(n) if y != x) or len(near) != (n - 1 if case['k'] == -1 else case['k']):
                        return 'wrong neighbours', 'sample %d: city %d has %d of %d neighbours' % (i, x, len(near), case['k'])
                    far = [y for y in range(n) if y != x and y not in near]
                    if near and far and max(D[x][y] for y in near) > min(D[x][y] for y in far) * (1 + 1e-12):
                        return 'wrong neighbours', 'sample %d: city %d is not joined to its %d nearest' % (i, x, case['k'])
    return None


def eval_T02(case):
    steps, _ = execute(case)
    return judge_steps(case, steps, lambda st: batches_problem(case, st))


def gen_T03(r, cfg):
    euclid = r.random() < 0.7
    case = {'prog': 'tool', 'tool': CONVERTER, 'cwd': WORK, 'files': {}, 'rseed': r.randrange(1 << 30), 'n': 0, 'sets': {}, 'steps': []}
    names = r.sample(['a', 'b', 'berlin52', 'att48', 'x.y', 'with space', 'x.tsp', 'gr17'], r.randint(1, 4))
    for name in names:
        n = r.choice([1, 2, 3, 5, 9, 14] if euclid else [2, 3, 5, 9, 14])
        head = ['NAME: ' + name.replace(' ', '_'), 'TYPE: TSP', 'COMMENT: ' + r.choice(['one two three', '3 4 5', 'none']), 'DIMENSION: %d' % n]
        if euclid:
            pts = points(r, n, close=1e-9)
            if r.random() < 0.5:
                pts = [[round(x * 1000), round(y * 1000)] for x, y in pts]
            ids = list(range(1, n + 1)) if r.random() < 0.7 else r.sample(range(1, 100), n)
            head += ['EDGE_WEIGHT_TYPE: EUC_2D', 'NODE_COORD_SECTION']
            body = [r.choice(['%d %s %s', ' %d  %s %s ', '%d\t%s\t%s']) % (i, p[0], p[1]) for i, p in zip(ids, pts)]
            case['sets'][name] = dist(pts).tolist()
        else:
            D = [[0 if i == j else r.randint(1, 5000) for j in range(n)] for i in range(n)]
            head += ['EDGE_WEIGHT_TYPE: EXPLICIT', 'EDGE_WEIGHT_FORMAT: FULL_MATRIX', 'EDGE_WEIGHT_SECTION']
            body = [' '.join(map(str, row)) for row in D]
            case['sets'][name] = D
        text = '\n'.join(head + body + (['EOF'] if r.random() < 0.8 or not euclid else [])) + '\n'
        case['files'][name + '.tsp'] = text
    if r.random() < 0.5:
        case['files'][r.choice(names) + '.dat'] = 'n=3;\nCost=[' * r.choice([1, 300])
    if r.random() < 0.5:
        case['files'].update({'notes.txt': 'NODE_COORD_SECTION\n1 2 3\n', 'old.dat': 'n=1;\nCost=[[0.0]\n];', 'a.tsp.bak': 'x'})
    case['steps'].append({'args': ['euclidean'] if euclid else [], 'plan': tool_knobs(r)})
    x = r.random()
    if x < 0.2:
        name = r.choice(names)
        t = case['files'][name + '.tsp'].split('\n')
        at = next(i for i, l in enumerate(t) if 'SECTION' in l)
        n = len(case['sets'][name])
        cut = r.randint(at, at + n)
        case['files'][name + '.tsp'] = '\n'.join(t[:cut]) + '\n'
        case['torn'] = 'a cut file is converted'
    elif x < 0.25:
        case['steps'][0]['args'] = [r.choice(['Euclidean', 'euclid', 'tsplib', ''])]
        case['torn'] = 'an invalid argument is accepted'
    elif x < 0.6:
        tool_faults(r, case)
    return case


def dat_problem(text, D):
    if text is None:
        return 'it is not there'
    m = re.fullmatch(r'\s*n\s*=\s*(\d+)\s*;\s*Cost\s*=\s*\[(.*)\]\s*;\s*', text, re.S)
    if not m:
        return 'it is not complete: %r' % text[-40:]
    rows = re.findall(r'\[([^\[\]]*)\]', m[2])
    if re.sub(r'\[[^\[\]]*\]', '', m[2]).strip(' \n,'):
        return 'there is something between the rows'
    try:
        M = [[float(x) for x in row.split(',')] for row in rows]
    except ValueError as e:
        return 'an entry is no number: %s' % e
    if int(m[1]) != len(D) or len(M) != len(D) or any(len(row) != len(D) for row in M):
        return 'it gives %s cities and rows of %s for %d cities' % (m[1], [len(row) for row in M], len(D))
    for i, row in enumerate(M):
        for j, x in enumerate(row):
            if not abs(x - D[i][j]) <= 1e-15 * D[i][j] + 1e-300:
                return 'entry %d,%d is %r instead of %r' % (i + 1, j + 1, x, D[i][j])
    return ''


def eval_T03(case):
    steps, _ = execute(case)
    def right(st):
        for name, D in case['sets'].items():
            p = dat_problem(st.after.get('%s/%s.dat' % (WORK, name)), D)
            if p:
                return 'wrong file', '%s.dat: %s' % (name, p)
        return None
    for st in steps:
        v = untouched(case, st, [name + '.dat' for name in case['sets']])
        if v:
            return v
    return judge_steps(case, steps, right, lambda s, st: case.get('torn'))


def gen_T04(r, cfg):
    n = r.choice([5, 7, 10, 20])
    L = r.choice([1, 2, 5, 9])
    name = None if r.random() < 0.5 else 'set.txt'
    case = {'prog': 'tool', 'tool': GENERATE, 'cwd': WORK, 'files': {}, 'rseed': r.randrange(1 << 30), 'n': n, 'count': L, 'name': name or 'tsp%d_concorde.txt' % n, 'steps': []}
    if r.random() < 0.4:
        case['files'][case['name']] = 'an earlier set\n' * r.choice([1, 900])
    case['files']['tsp%d_concorde.txt' % (n + 1)] = 'of another size\n'
    case['steps'].append({'args': ['--num_samples', str(L), '--num_nodes', str(n)] + (['--filename', name] if name else []), 'plan': tool_knobs(r)})
    x = r.random()
    if x < 0.3:
        case['steps'][0]['plan']['spawn'] = [{'tool': 'concorde', 'nth': r.randint(1, L), 'kind': 'fail'}]
    elif x < 0.7:
        tool_faults(r, case)
    return case


def eval_T04(case):
    steps, _ = execute(case)
    n, L = case['n'], case['count']
    def right(st):
        asked = [e[2:] for e in st.of('concorde')]
        text = st.after.get('%s/%s' % (WORK, case['name']))
        lines = (text or '').split('\n')
        if len(asked) != L or len(lines) != L + 1 or lines[-1] != '':
            return 'samples missing', '%d of %d samples asked for, %d solved' % (len(lines) - 1, L, len(asked))
        seen = set()
        for k, (l, a) in enumerate(zip(lines, asked)):
            t = l.split(' ')
            if len(t) != 2 * n + 1 + n + 1 + 1 or t[2 * n] != 'output' or t[-1] != '':
                return 'damaged sample', 'sample %d: %r' % (k + 1, l[:200])
            try:
                xy = [float(x) for x in t[:2 * n]]
                tour = [int(x) for x in t[2 * n + 1:-1]]
            except ValueError:
                return 'damaged sample', 'sample %d: %r' % (k + 1, l[:200])
            if xy[::2] != a[1] or xy[1::2] != a[2]:
                return 'wrong sample', 'sample %d does not hold the cities that were solved' % (k + 1)
            if tour != [x + 1 for x in a[3]] + [a[3][0] + 1]:
                return 'wrong sample', 'sample %d: the tour is %s, the solver said %s from 0' % (k + 1, tour, a[3])
            if any(not 0 <= x < 1 for x in xy) or len(set(zip(xy[::2], xy[1::2]))) != n:
                return 'wrong sample', 'sample %d: cities are not distinct points of the unit square' % (k + 1)
            if tuple(xy) in seen:
                return 'sample twice', 'sample %d' % (k + 1)
            seen.add(tuple(xy))
        return untouched(case, st, [case['name']])
    return judge_steps(case, steps, right)


def gen_T05(r, cfg):
    n = r.choice([3, 4, 5, 8, 20])
    L = r.choice([1, 2, 4, 7])
    L = min(L, 3) if n == 20 else L
    s = []
    for k in range(L):
        t, p, _ = sample_line(r, n)
        s.append((t.split(' output')[0] if r.random() < 0.5 else t, p))
    case = {'prog': 'tool', 'tool': CONCORDE, 'cwd': WORK, 'files': {'set.txt': '\n'.join(x[0] for x in s) + ('\n' if r.random() < 0.8 else '')}, 'rseed': r.randrange(1 << 30), 'n': n, 'pts': [x[1] for x in s], 'steps': []}
    if r.random() < 0.4:
        case['files']['results.txt'] = 'Result of 17 earlier ones: 5\n' * r.choice([1, 500])
    case['steps'].append({'args': ['set.txt'], 'plan': tool_knobs(r)})
    x = r.random()
    if x < 0.3:
        case['steps'][0]['plan']['spawn'] = [{'tool': 'concorde', 'nth': r.randint(1, L), 'kind': 'fail'}]
    elif x < 0.7:
        tool_faults(r, case)
    return case


def eval_T05(case):
    steps, _ = execute(case)
    L = len(case['pts'])
    def right(st):
        asked = [e[2:] for e in st.of('concorde')]
        if len(asked) != L:
            return 'wrong instances', '%d of %d instances were solved' % (len(asked), L)
        text = st.after.get(WORK + '/results.txt') or ''
        parts = re.split(r'^Result of instance (\d+): ', text, flags=re.M)
        if parts[0] or [int(x) for x in parts[1::2]] != list(range(L)):
            return 'results missing', '%s of %d instances' % (parts[1::2], L)
        for k, (a, body) in enumerate(zip(asked, parts[2::2])):
            p = case['pts'][k]
            if a[1] != [float(q[0]) for q in p] or a[2] != [float(q[1]) for q in p]:
                return 'wrong instances', 'instance %d was not given as it is' % k
            x = [float(t) for t in re.findall(r'(?<![A-Za-z_0-9.])-?\d+\.?\d*(?:e[-+]?\d+)?', re.sub(r'dtype=\w+', '', body))]
            t = a[3]
            D = dist(p)
            want = [float(v) for v in t] + [0.25 * a[0] + 0.125, 3.0 * a[0] + 1, sum(D[u][v] for u, v in zip(t, t[1:] + t[:1]))]
            if len(x) != len(want) or any(abs(u - v) > 1e-9 * max(1, abs(v)) for u, v in zip(x, want)):
                return 'wrong result', 'instance %d: %s instead of %s' % (k, x, want)
        return untouched(case, st, ['results.txt'])
    return judge_steps(case, steps, right)


CHECKS = {c: ((globals().get('gen_' + c) or gen_N01), globals()['eval_' + c]) for c in ('D01', 'D02', 'D03', 'D04', 'D05', 'D06', 'D07', 'D08', 'D09', 'N01', 'N02', 'N03', 'A01', 'A02', 'A03', 'A04', 'T01', 'T02', 'T03', 'T04', 'T05')}


# ================================================================ minimisation
def simpler(case):
    """Candidates, most drastic first."""
    for k in range(len(case['steps']) - 1):
        c = copy.deepcopy(case)
        del c['steps'][k]
        yield c
    for key in ('pre', 'other_sets'):
        if case.get(key):
            c = copy.deepcopy(case)
            c[key] = {}
            yield c
            for p in list(case[key]):
                c = copy.deepcopy(case)
                del c[key][p]
                yield c
    if case.get('dirs'):
        c = copy.deepcopy(case)
        c['dirs'] = []
        yield c
    for k, s in enumerate(case['steps']):
        for knob in ('bufsize', 'wchunk', 'rchunk', 'clock'):
            if knob in s['plan']:
                c = copy.deepcopy(case)
                del c['steps'][k]['plan'][knob]
                yield c
        for what in ('faults', 'spawn'):
            for j in range(len(s['plan'].get(what, []))):
                c = copy.deepcopy(case)
                del c['steps'][k]['plan'][what][j]
                yield c
        for j, f in enumerate(s['plan'].get('faults', [])):
            if f.get('part'):
                c = copy.deepcopy(case)
                c['steps'][k]['plan']['faults'][j]['part'] = 0
                yield c
    if case['prog'] == 'driver':
        if len(case['lines']) > 1 and all('range' in s for s in case['steps']):
            top = max(max(s['range']) for s in case['steps'])
            if top < len(case['lines']):
                c = copy.deepcopy(case)
                c['lines'], c['outputs'] = c['lines'][:top], c['outputs'][:top]
                yield c
            for k, s in enumerate(case['steps']):
                a, b = s['range']
                for q in ((b, b), (a, b - 1)):
                    if q != (a, b) and 1 <= q[0] <= q[1]:
                        c = copy.deepcopy(case)
                        c['steps'][k]['range'] = list(q)
                        c['steps'][k]['args'] = args_of(c, q, s['style'])
                        yield c
        if len(case['lines']) and any(len(repr(x)) > 4 for l in case['lines'] for p in l for x in p):
            c = copy.deepcopy(case)
            c['lines'] = [[[round(x, 2), round(y, 2)] for x, y in l] for l in c['lines']]
            if all(len({tuple(p) for p in l}) == len(l) for l in c['lines']):
                yield c


def minimise(check, case, cls, seconds):
    end = time.time() + seconds
    go = True
    while go and time.time() < end:
        go = False
        for c in simpler(case):
            if time.time() > end:
                break
            v = verdict(check, c)
            if v and v[0] == cls:
                case, go = c, True
                break
    return case


def verdict(check, case):
    return CHECKS[check][1](case)


def digest(check, case):
    return execute(case)[1]


def main():
    a = sys.argv[1:]
    cfg = a[a.index('--config') + 1]
    i = a.index('--config')
    del a[i:i + 2]
    try:
        if a[0] == 'replay':
            doc = json.load(open(a[1]))
            v = verdict(doc['check'], doc['case'])
            h = digest(doc['check'], doc['case'])
            print('REPLAY property=%s class=%s hash=%s same_class=%d same_hash=%d' % (doc['check'], v[0] if v else 'none', h, (v[0] if v else None) == doc['class'], h == doc['hash']))
            print(v[1] if v else '')
            if '-v' in a:
                for st in execute(doc['case'])[0]:
                    print('--- run: exit', st.code)
                    for e in st.events:
                        print(json.dumps(e)[:400])
            return 1 if v else 0
        assert a[0] == 'run'
        check, seed, lo, hi, rdir, stats, limit = a[1], int(a[2]), int(a[3]), int(a[4]), a[5], a[6], float(a[7])
        t0 = time.time()
        found, sample, done = '', '', 0
        for k in range(lo, hi):
            if time.time() - t0 > limit:
                break
            s = '%s/%s/%d/%d' % (check, cfg, seed, k)
            r = random.Random(s)
            case = CHECKS[check][0](r, cfg)
            v = verdict(check, case)
            done += 1
            if os.environ.get('CSIM_LOG') or not sample:
                h = digest(check, case)
                if os.environ.get('CSIM_LOG'):
                    print(check, cfg, k, h)
            if not sample:
                sample = 'case %d of config %s: %s' % (k, cfg, json.dumps({x: y for x, y in case.items() if x not in ('lines', 'pts', 'temp', 'pre')})[:900])
            if v:
                h1 = digest(check, case)
                _memo.clear()
                v2 = verdict(check, case)
                if v2 is None or v2[0] != v[0] or digest(check, case) != h1:
                    raise ToolError('not reproducible: case %d, %s / %s' % (k, v, v2))
                m = minimise(check, case, v[0], 40)
                _memo.clear()
                w = verdict(check, m)
                path = os.path.join(rdir, '%s-%s-%d-%d.json' % (check, cfg, seed, k))
                with open(path, 'w') as f:
                    json.dump({'check': check, 'config': cfg, 'seed': s, 'class': w[0], 'detail': w[1], 'hash': digest(check, m), 'case': m}, f, indent=1)
                found = path
                print('%s: %s\n%s' % (check, w[0], w[1]), file=sys.stderr)
                break
        c = counters
        with open(stats, 'w') as f:
            json.dump({'config': cfg, 'cases': done, 'asked': hi - lo, 'runs': c['runs'], 'nontrivial': len(c['nontrivial']), 'sim_us': c['sim_us'], 'wall': time.time() - t0, 'violation': found, 'sample': sample,
                       'fired': c['fired'], 'ends': c['ends'], 'hashes': sorted(c['nontrivial']), 'probes': c['probes']}, f)
        return 1 if found else 0
    except ToolError as e:
        print('error: %s' % e, file=sys.stderr)
        return 5
    finally:
        wipe()


if __name__ == '__main__':
    sys.exit(main())
