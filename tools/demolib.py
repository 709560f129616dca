"""Helpers of the demonstrations: build the solver of the tree in the current directory for a size and mode, with a
clock, an allocator and a disk that the demonstration controls; everything is written in a scratch directory."""
import atexit, itertools, os, re, resource, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
SRC = os.path.join(REPO, 'src', 'HybridSolver')
SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)

SHIM = r'''
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
static long env(const char *n, long d) { const char *s = getenv(n); return s ? atol(s) : d; }
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void __real_free(void *p);
FILE *__real_fopen(const char *n, const char *m); int __real_fclose(FILE *f);
static long live, peak, total, count, files;
static void report(void) {
    const char *s = getenv("SHIM_BOOKS");
    if (s) { FILE *f = __real_fopen(s, "w"); if (f) { fprintf(f, "live=%ld\npeak=%ld\nallocations=%ld\nfiles=%ld\n", live, peak, count, files); __real_fclose(f); } }
}
__attribute__((constructor)) static void init(void) { atexit(report); }
static long nclock;
clock_t __wrap_clock(void) {     /* SHIM_CLOCK_START + tick per read, + SHIM_CLOCK_JUMP from read SHIM_CLOCK_AT (1, 2, ...) on */
    nclock++;
    clock_t t = env("SHIM_CLOCK_START", 0) + (nclock - 1) * env("SHIM_CLOCK_TICK", 0);
    if (env("SHIM_CLOCK_AT", 0) && nclock >= env("SHIM_CLOCK_AT", 0)) t += env("SHIM_CLOCK_JUMP", 0);
    const char *s = getenv("SHIM_CLOCK_LOG");
    if (s) { FILE *f = __real_fopen(s, "a"); if (f) { fprintf(f, "%ld %ld\n", nclock, (long) t); __real_fclose(f); } }
    return t;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) { static long n; n++; time_t v = __real_time(NULL) + (env("SHIM_WALL_AT", 0) && n >= env("SHIM_WALL_AT", 0) ? env("SHIM_WALL_JUMP", 0) : 0); if (t) *t = v; return v; }
static void *fill(void *p, size_t n) { long c = env("SHIM_FILL", -1); if (p && c >= 0) memset(p, (int) c, n); return p; }
static int fails(void) { count++; return count == env("SHIM_ALLOC_FAIL", 0); }
static void book(void) { live++; if (live > peak) peak = live; }
void *__wrap_malloc(size_t n) { if (fails()) { errno = ENOMEM; return NULL; } book(); return fill(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { if (fails()) { errno = ENOMEM; return NULL; } book(); return __real_calloc(a, b); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
ssize_t __real_getline(char **l, size_t *n, FILE *f);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { if (!*l) book(); return __real_getline(l, n, f); }
FILE *__wrap_fopen(const char *n, const char *m) { FILE *f = __real_fopen(n, m); if (f) files++; return f; }
int __wrap_fclose(FILE *f) { if (f != stdout) files--; return __real_fclose(f); }
'''
WRAPS = ['clock', 'time', 'malloc', 'calloc', 'free', 'fopen', 'fclose', 'getline']


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print(r.stdout)
        sys.exit('the demonstration could not be built')


def solver(n, hybrid, prim=True, flags=(), wraps=WRAPS, main=None):
    """The solver of this tree, for n cities."""
    d = tempfile.mkdtemp(dir=SCRATCH)
    for s in ('main', 'test'):
        shutil.copytree(os.path.join(SRC, s), os.path.join(d, s), ignore=shutil.ignore_patterns('graph-convnet-tsp'))
    if not prim:
        p = os.path.join(d, 'main', 'problem_settings.h')
        text = open(p).read()
        new = re.sub(r'(?m)^#define PRIM 1', '#define PRIM 0', text)
        assert new != text
        open(p, 'w').write(new)
    with open(os.path.join(d, 'shim.c'), 'w') as f:
        f.write(SHIM if wraps else '')
    if main:
        with open(os.path.join(d, 'main', 'main.c'), 'w') as f:
            f.write(main)
    cc = shutil.which('clang') or 'gcc'
    files = [os.path.join(a, x) for s in ('main', 'test') for a, _, b in os.walk(os.path.join(d, s)) for x in sorted(b) if x.endswith('.c')]
    exe = os.path.join(d, 'solver')
    sh([cc, '-O3', '-std=gnu99', '-w', '-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % hybrid, *flags, *files, os.path.join(d, 'shim.c'),
        *['-Wl,--wrap=' + w for w in wraps], '-o', exe, '-lm'])
    return exe


def matrix(w, prob=None, coords=None):
    n = len(w)
    coords = coords or [(0.0, 0.0)] * n
    text = ';'.join('(%r, %r)' % (float(a), float(b)) for a, b in coords) + '\n'
    for i in range(n):
        text += ''.join('(%r, %r);' % (float(w[i][j]), float(prob[i][j]) if prob else 0.0) for j in range(n)) + '\n'
    return text


def euclid(pts):
    return [[0.0 if i == j else ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5 for j, b in enumerate(pts)] for i, a in enumerate(pts)]


class Result:
    pass


def run(exe, text, out=None, timeout=120, limits=None, keep=None, **env):
    """Runs the solver on a matrix text; env: SHIM_ settings without the prefix."""
    d = tempfile.mkdtemp(dir=SCRATCH)
    inp = os.path.join(d, 'in.csv')
    with open(inp, 'w') as f:
        f.write(text)
    outp = out or os.path.join(d, 'out.txt')
    if keep is not None:
        with open(outp, 'w') as f:
            f.write(keep)
    books = os.path.join(d, 'books')
    clocks = os.path.join(d, 'clocks')
    e = dict(os.environ, SHIM_BOOKS=books, **{'SHIM_' + k: str(v) for k, v in env.items() if k != 'LOG'})
    if env.get('LOG'):
        e['SHIM_CLOCK_LOG'] = clocks

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limits:
            limits()
    r = Result()
    try:
        p = subprocess.run([exe, inp, outp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=timeout, preexec_fn=pre)
        r.code, r.err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        r.code, r.err = 'timeout', ''
    r.text = open(outp, errors='replace').read() if os.path.isfile(outp) else ''
    r.books = dict((k, int(v)) for k, v in (x.strip().split('=') for x in open(books))) if os.path.exists(books) else {}
    r.clock = [tuple(map(int, x.split())) for x in open(clocks)] if os.path.exists(clocks) else []
    parse(r)
    return r


NUM = r'(-?[\d.]+|-?inf|-?nan)'


def parse(r):
    t = r.text

    def get(pattern, conv=float):
        m = re.search(pattern, t)
        return conv(m[1]) if m else None
    r.updates = [(float(a), float(b)) for a, b in re.findall(r'Updated best value: ' + NUM + ', at time: ' + NUM, t)]
    r.interrupted = get(r'interrupted = (\w+)', str)
    r.candidate = get(r'candidate node = (\d+)', int)
    r.elapsed = get(r'elapsed time = ' + NUM)
    r.eps = get(r'SUBPROBLEM_UB = ' + NUM)
    r.generated = get(r'generated BBNodes = (\d+)', int)
    r.explored = get(r'explored BBNodes = (\d+)', int)
    r.depth = get(r'max tree level = (\d+)', int)
    r.cost = get(r'SUBPROBLEM with cost = ' + NUM)
    r.type = get(r'type = (\w+)', str)
    r.level = get(r'level of the BB tree = (\d+)', int)
    r.prob = get(r'prob_tour = ' + NUM)
    r.number = get(r'BBNode number = (\d+)', int)
    r.reach = get(r'time to obtain = ' + NUM)
    m = re.search(r'Cycle with (\d+) edges:(.*)', t)
    r.cycle = [(int(a), int(b)) for a, b in re.findall(r'(\d+) <-> (\d+)', m[2])] if m else None
    r.done = r.cycle is not None and t.rstrip('\n').endswith('Forbidden edges:')


def is_tour(cycle, w):
    n = len(w)
    return (cycle is not None and len(cycle) == n and sorted(a for a, _ in cycle) == list(range(n)) and
            all(cycle[i][1] == cycle[(i + 1) % n][0] for i in range(n)) and all(w[a][b] > 0 for a, b in cycle))


def length(cycle, w):
    return sum(w[a][b] for a, b in cycle)


def best(w):
    """Held-Karp: the cheapest tour over positive distances."""
    n = len(w)
    inf = float('inf')
    cur = {(1 << i, i): w[0][i] for i in range(1, n) if w[0][i] > 0}
    for size in range(2, n):
        new = {}
        for (s, i), c in cur.items():
            for j in range(1, n):
                if not s >> j & 1 and w[i][j] > 0:
                    k = (s | 1 << j, j)
                    v = c + w[i][j]
                    if v < new.get(k, inf):
                        new[k] = v
        cur = new
    return min((c + w[i][0] for (s, i), c in cur.items() if w[i][0] > 0), default=inf)


def normal(text):
    """A report without measured times."""
    return re.sub(r'(at time: |elapsed time = |time to obtain = )-?[\d.]+', r'\1T', text)


def end(bad, message):
    print(message)
    sys.exit(1 if bad else 0)
