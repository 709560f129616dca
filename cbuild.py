"""Builds the simulated solver from /repo's working tree: real solver sources, libc seams renamed, linked with sim/."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'HybridSolver')
BUILD = os.path.join(VERIF, 'build')

# libc calls by which the solver meets clock, memory, disk and process: renamed to the simulator's
SEAMS = ['clock', 'time', 'gettimeofday', 'clock_gettime', 'times', 'getrusage', 'difftime',
         'malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'aligned_alloc', 'strdup', 'strndup',
         'getline', 'getdelim', 'fopen', 'freopen', 'fclose', 'fileno', 'fsync', 'rename', 'remove', 'unlink',
         'open', 'read', 'write', 'close', 'exit', '_exit', 'abort', '__assert_fail', 'atexit', 'perror',
         'rand', 'srand', 'random', 'getrandom', 'getpid',
         'fopen64', 'freopen64', 'open64', '__getdelim', '__strdup', '_Exit']


OBSERVED = ['delete_SubProblemList_elem_index', 'delete_SubProblemList']

MSAN = False


class BuildError(Exception):
    pass


def c_files():
    out = []
    for base in ('main', 'test'):
        for d, _, names in os.walk(os.path.join(SRC, base)):
            out += [os.path.join(d, n) for n in names if n.endswith('.c')]
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ('main', 'test'):
        for d, _, names in os.walk(os.path.join(SRC, base)):
            files += [os.path.join(d, n) for n in names if n.endswith(('.c', '.h'))]
    files += [os.path.join(VERIF, 'sim', n) for n in os.listdir(os.path.join(VERIF, 'sim'))]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def config(text):
    """'12hp' = 12 cities, hybrid, Prim; 'c' classic, 'k' Kruskal; a trailing 'a' adds the interpreter of operation histories (sim/lib.c), 'o' the observer of the list of waiting subproblems (sim/obs.c), 's' the sanitizers, 'm' the memory sanitizer."""
    m = re.fullmatch(r'(\d+)([hc])([pk])([ao]?)([sm]?)', text)
    return int(m[1]), int(m[2] == 'h'), int(m[3] == 'p'), m[5], m[4]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])


def san_flags(kind):
    return {'': [], 's': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
            'm': ['-fsanitize=memory', '-fno-omit-frame-pointer']}[kind]


def sim_hash():
    h = hashlib.sha256()
    for n in ('sim.h', 'world.cc', 'checks.cc', 'lib_checks.h'):
        h.update(open(os.path.join(VERIF, 'sim', n), 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def sim_objects(san):
    d = os.path.join(BUILD, 'sim-' + sim_hash())
    return [os.path.join(d, 'checks%s.o' % ('m' if san == 'm' else '')), os.path.join(d, 'world%s.o' % san)]


def build_sim():
    """The simulator itself: does not depend on /repo, so setup_cmd builds it once."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, 'sim-' + sim_hash())
    for x in os.listdir(BUILD):
        if x.startswith('sim-') and os.path.join(BUILD, x) != d:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    todo = []
    for f, san in (('checks', ''), ('world', ''), ('world', 's')) + ((('checks', 'm'), ('world', 'm')) if MSAN else ()):
        o = os.path.join(d, f + san + '.o')
        if not os.path.exists(o):
            todo.append((o, ['clang++', '-std=c++17', '-O2', '-w', '-fno-pie', '-I' + os.path.join(VERIF, 'sim')] + (['-DSAN'] if san else []) +
                         (san_flags('m') if san == 'm' else []) + ['-c', os.path.join(VERIF, 'sim', f + '.cc'), '-o', o + '.tmp']))
    with ThreadPoolExecutor(4) as pool:
        list(pool.map(lambda t: (run(t[1]), os.rename(t[0] + '.tmp', t[0])), todo))


def build_one(top, pool, text):
    """Returns a list of futures for the objects and a function that links."""
    n, hyb, prim, san, lib = config(text)
    exe = os.path.join(top, 'csim-' + text)
    if os.path.exists(exe):
        return [], lambda: exe
    work = exe + '.d'
    os.makedirs(work, exist_ok=True)
    tree = SRC
    if not prim:
        tree = os.path.join(top, 'kruskal-tree')
    defs = ['-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % hyb]
    objs, futs = [], []
    for f in c_files():
        rel = os.path.relpath(f, SRC)
        obj = os.path.join(work, rel.replace('/', '_') + '.o')
        objs.append(obj)
        opt = ['-O1'] if san else ['-O3']
        futs.append(pool.submit(run, ['clang', '-std=gnu99', '-g', '-w', '-fno-pie', '-fno-builtin-malloc', '-U_FORTIFY_SOURCE'] + opt + san_flags(san) +
                                defs + ['-c', os.path.join(tree, rel), '-o', obj]))
    if lib:
        objs.append(os.path.join(work, 'verif-lib.o'))
        cmd = (['clang', '-std=gnu99', '-g', '-w', '-fno-pie', '-fno-builtin-malloc', '-U_FORTIFY_SOURCE', '-O1'] + san_flags(san) + defs +
               ['-I' + os.path.join(tree, 'main'), '-c', os.path.join(VERIF, 'sim', 'lib.c' if lib == 'a' else 'obs.c'), '-o', objs[-1]])

        def interpreter():
            try:
                run(cmd)
            except BuildError:
                run(cmd + ['-DNO_SUB'])
        futs.append(pool.submit(interpreter))
    cfg = os.path.join(work, 'config.c')
    with open(cfg, 'w') as g:
        g.write('const int cfg_maxv = %d, cfg_hybrid = %d;\nconst char cfg_name[] = "%s";\n' % (n, hyb, text))
    futs.append(pool.submit(run, ['clang', '-c', cfg, '-o', cfg + '.o']))

    def link():
        merged = os.path.join(work, 'solver.o')
        for o in objs[:-1] if lib == 'o' else []:      # calls from other files go by way of the observer
            names = subprocess.run(['nm', o], stdout=subprocess.PIPE, text=True).stdout.split('\n')
            for f in OBSERVED:
                if any(l.split() == ['U', f] for l in names):
                    run(['objcopy', '--redefine-sym', '%s=obs_%s' % (f, f), o])
        run(['ld', '-r', '-o', merged] + objs)
        redef = os.path.join(work, 'seams')
        with open(redef, 'w') as g:
            for s in SEAMS:
                g.write('%s sim_%s\n' % (s, s))
            g.write('main solver_main\n')
        run(['objcopy', '--redefine-syms=' + redef, merged])
        run(['clang++', '-no-pie'] + san_flags(san) + [merged, cfg + '.o'] + sim_objects(san) + ['-lm', '-o', exe + '.tmp'])
        os.rename(exe + '.tmp', exe)
        shutil.rmtree(work)
        return exe
    return futs, link


def build(configs, jobs=None):
    """Builds the given configurations; returns {config: executable}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_sim()
        key = tree_hash()
        top = os.path.join(BUILD, 'c-' + key)
        for d in os.listdir(BUILD):     # keep the two newest trees
            if d.startswith('c-') and d != 'c-' + key:
                old = sorted((x for x in os.listdir(BUILD) if x.startswith('c-') and x != 'c-' + key), key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
                for x in old[:-1]:
                    shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
                break
        os.makedirs(top, exist_ok=True)
        if any(not config(c)[2] for c in configs):
            tree = os.path.join(top, 'kruskal-tree')
            if not os.path.exists(tree):
                tmp = tree + '.tmp'
                shutil.rmtree(tmp, ignore_errors=True)
                for base in ('main', 'test'):
                    shutil.copytree(os.path.join(SRC, base), os.path.join(tmp, base), ignore=lambda d, ns: [x for x in ns if not (os.path.isdir(os.path.join(d, x)) and 'convnet' not in x) and not x.endswith(('.c', '.h'))])
                hdr = os.path.join(tmp, 'main', 'problem_settings.h')
                text = open(hdr).read()
                new = re.sub(r'^([ \t]*#[ \t]*define[ \t]+PRIM)\b[^\n]*', r'\1 0', text, flags=re.M)
                if new == text:     # defined elsewhere or by the build: on the command line
                    new = '#ifndef PRIM\n#define PRIM 0\n#endif\n' + text
                open(hdr, 'w').write(new)
                os.rename(tmp, tree)
        out = {}
        with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as pool:
            parts = [(c,) + build_one(top, pool, c) for c in configs]
            for c, futs, link in parts:
                for f in futs:
                    f.result()
            links = {c: pool.submit(link) for c, futs, link in parts}
            for c, f in links.items():
                out[c] = f.result()
        return out


if __name__ == '__main__':
    print(build(sys.argv[1:]))
