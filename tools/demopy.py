"""Helpers of the demonstrations for the driver and the network step: a copy of the programs of the tree in the current
directory in a scratch directory, stand-ins for cmake, make, the solver and the network, all of which note what they did."""
import atexit, hashlib, json, math, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix='demo-'))
atexit.register(shutil.rmtree, SCRATCH, True)
PY = '/opt/veriftools/pyvenv/bin/python3'
BIN = os.path.join(SCRATCH, 'bin')
LOG = os.path.join(SCRATCH, 'log')

CMAKE = r'''#!/bin/bash
# keeps a cache as cmake does: what is not given again stays
b=.; n=; h=
for a in "$@"; do case "$a" in -B*) b="${a#-B}";; -DMAX_VERTEX_NUM=*) n="${a#*=}";; -DHYBRID=*) h="${a#*=}";; esac; done
echo "cmake $n $h" >> "$FAKE_LOG"
[ -n "$FAKE_CMAKE" ] && exit "$FAKE_CMAKE"
mkdir -p "$b"
[ -n "$n" ] || n=$(sed -n 1p "$b/cache" 2>/dev/null); [ -n "$h" ] || h=$(sed -n 2p "$b/cache" 2>/dev/null)
printf '%s\n%s\n' "$n" "$h" > "$b/cache"
'''
MAKE = r'''#!/bin/bash
b=.
for a in "$@"; do case "$a" in -C*) b="${a#-C}";; esac; done
echo "make" >> "$FAKE_LOG"
[ -n "$FAKE_MAKE" ] && exit "$FAKE_MAKE"
{ echo '#!/bin/bash'; echo "N=$(sed -n 1p "$b/cache") H=$(sed -n 2p "$b/cache")"; cat "$FAKE_BIN/solver"; } > "$b/BranchAndBound1Tree"
chmod +x "$b/BranchAndBound1Tree"
'''
SOLVER = r'''
echo "solver $N $H $1 $2 $(head -c 1000000 "$1" 2>/dev/null | md5sum | cut -c1-32)" >> "$FAKE_LOG"
[ -n "$FAKE_SOLVER" ] && exit "$FAKE_SOLVER"
echo "REPORT $(head -c 1000000 "$1" | md5sum | cut -c1-32)" > "$2"
'''
NET = r'''#!/bin/bash
# python3 main.py matrix cities model, in graph-convnet-tsp
t="data/hyb_tsp/test_$3_nodes_temp.txt"
echo "network $2 $3 $4 $(md5sum < "$t" | cut -c1-32)" >> "$FAKE_LOG"
[ -n "$FAKE_NET" ] && exit "$FAKE_NET"
{ echo MATRIX; head -1 "$t"; } > "$2"
exit 0
'''


def tree(**sets):
    """A copy of the programs; sets: n5=[lines of the dataset of five cities]."""
    top = tempfile.mkdtemp(dir=SCRATCH)
    src = os.path.join(top, 'src', 'HybridSolver')
    shutil.copytree(os.path.join(REPO, 'src', 'HybridSolver'), src, ignore=shutil.ignore_patterns('cmake-build', 'results', 'TSPLIB', 'hyb_tsp', 'pyconcorde', '__pycache__', 'test'))
    shutil.rmtree(os.path.join(src, 'data'), True)
    for d in ('data/AdjacencyMatrix', 'results/AdjacencyMatrix', 'main/graph-convnet-tsp/data/hyb_tsp'):
        os.makedirs(os.path.join(src, d), exist_ok=True)
    m = os.path.join(src, 'main')
    for k, lines in sets.items():
        with open(os.path.join(m, 'graph-convnet-tsp/data/hyb_tsp/test_%s_nodes.txt' % k[1:]), 'w') as f:
            f.write(''.join(l + '\n' for l in lines))
    for k in (20, 50, 100):
        d = os.path.join(m, 'graph-convnet-tsp/logs/tsp%d' % k)
        os.makedirs(d)
        shutil.copy(os.path.join(m, 'graph-convnet-tsp/configs/tsp%d.json' % k), d + '/config.json')
        with open(d + '/best_val_checkpoint.tar', 'wb') as f:
            f.write(b'CHECKPOINT' * 50)
    return m


def cities(rng, n, digits=16):
    return [[round(rng.random(), digits), round(rng.random(), digits)] for _ in range(n)]


def line(pts, out=True):
    return ' '.join('%r %r' % (x, y) for x, y in pts) + (' output ' + ' '.join(map(str, list(range(1, len(pts) + 1)) + [1])) if out else '')


class R:
    pass


def _go(cwd, script, args, prelude, env, timeout):
    r = R()
    code = prelude + '\nimport sys, runpy\nsys.argv = %r\nsys.path.insert(0, %r)\nrunpy.run_path(%r, run_name="__main__")\n' % ([script] + args, os.path.dirname(script), script)
    p = subprocess.run([PY, '-B', '-c', code], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, **env), timeout=timeout)
    r.code, r.out, r.err = p.returncode, p.stdout, p.stderr
    return r


def drive(main, *args, prelude='', real=False, timeout=200, **fake):
    """Runs the driver of this copy; fake: SOLVER=3 makes the solver fail, and so on. Returns its exit status and the log of what it ran."""
    if not os.path.isdir(BIN):
        os.makedirs(BIN)
        for n, t in (('cmake', CMAKE), ('make', MAKE), ('python3', NET), ('solver', SOLVER)):
            with open(os.path.join(BIN, n), 'w') as f:
                f.write(t)
            os.chmod(os.path.join(BIN, n), 0o755)
    open(LOG, 'w').close()
    env = {'FAKE_' + k: str(v) for k, v in fake.items()}
    env.update(FAKE_LOG=LOG, FAKE_BIN=BIN)
    if not real:
        env['PATH'] = BIN + ':' + os.environ.get('PATH', '')
    r = _go(main, os.path.join(main, 'HybridSolver.py'), list(args), prelude, env, timeout)
    r.log = [x.split() for x in open(LOG)]
    r.solver = [x for x in r.log if x[0] == 'solver']
    return r


# in front of the driver: dies like a killed process right before the nth call of open() that mentions a name
KILL = '''
import builtins, os, subprocess
_open = builtins.open
_n = [0]
def open_(p, *a, **k):
    if %r in str(p) and str((a + (k.get("mode", "r"),))[0])[0] in %r:
        _n[0] += 1
        if _n[0] == %d:
            %s
    return _open(p, *a, **k)
builtins.open = open_
'''
NETRUN = '''
import sys
sys.path.insert(0, %r)
import stubs, numpy as np
class W:
    def model_seed(self): return %d
    def saw_model(self, c): pass
    def permutation(self, n): return list(range(n))
    def medoids(self, n, k): return %s
stubs.install(W())
np.random.seed(%d)
'''


def net(main, pts, model, seed=0, draws=1, medoids='list(range(k))', prelude='', text=None, old=None, write_temp=True):
    """Runs the network step of this copy on these cities."""
    n = len(pts)
    d = os.path.join(main, 'graph-convnet-tsp')
    if write_temp:
        with open(os.path.join(d, 'data/hyb_tsp/test_%d_nodes_temp.txt' % n), 'w') as f:
            f.write(text if text is not None else line(pts) + '\n')
    out = os.path.join(main, '../data/AdjacencyMatrix/m%d.csv' % n)
    if old is not None:
        with open(out, 'w') as f:
            f.write(old)
    elif os.path.exists(out):
        os.remove(out)
    r = _go(d, os.path.join(d, 'main.py'), [out, str(n), str(model)], NETRUN % (HERE, seed, medoids, draws) + prelude, {}, 200)
    r.file = out
    r.text = open(out).read() if os.path.exists(out) else None
    r.coords, r.rows = parse(r.text)
    return r


def parse(text):
    if not text or not text.endswith('\n'):
        return None, None
    l = text.split('\n')[:-1]
    try:
        pair = lambda t: tuple(float(x) for x in t.strip()[1:-1].split(','))
        return [pair(t) for t in l[0].split(';')], [[pair(t) for t in x.strip().rstrip(';').split(';')] for x in l[1:]]
    except (ValueError, IndexError):
        return None, None


def probs(seed, m):
    """What the stand-in network answers."""
    sys.path.insert(0, HERE)
    import numpy as np
    import stubs
    x = stubs.logits(seed, m)
    e = np.exp(x - x.max(axis=3, keepdims=True))
    return (e / e.sum(axis=3, keepdims=True)).astype(np.float32)[0, :, :, 1]


def result(main, n, mode, i):
    p = os.path.join(main, '../results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, mode, i))
    return open(p).read() if os.path.exists(p) else None


def csv(main, n, i):
    return os.path.join(main, '../data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%d.csv' % (n, i))


def end(bad, message):
    print(message)
    sys.exit(1 if bad else 0)
