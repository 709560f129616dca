"""The simulated world of the driver (HybridSolver.py) and the network step (graph-convnet-tsp/main.py): each runs, unchanged,
as __main__ in a forked process whose file operations, child processes, clock and randomness go through here.
Files live in a private scratch directory; every operation on them is an event that can fail, be cut short or be the last."""
import builtins, datetime, errno, hashlib, io, json, os, random, shlex, shutil, signal, struct, subprocess, sys, time, traceback
import numpy as np

real = dict(open=builtins.open, io_open=io.open, mkdir=os.mkdir, remove=os.remove, unlink=os.unlink, rename=os.rename, replace=os.replace,
            fsync=os.fsync, fdatasync=getattr(os, 'fdatasync', None), os_open=os.open, os_write=os.write, os_read=os.read, Popen=subprocess.Popen, system=os.system,
            rmdir=os.rmdir, truncate=os.truncate, ftruncate=os.ftruncate, kill=os.kill, listdir=os.listdir, scandir=os.scandir)

_compiled = {}


def source(path):
    with real['open'](path, 'rb') as f:
        data = f.read()
    key = (path, hashlib.sha1(data).hexdigest())
    if key not in _compiled:
        _compiled[key] = compile(data, path, 'exec')
    return _compiled[key]


class Killed(BaseException):
    pass


class World:
    """One driver run (and its children). root: scratch directory. plan: what goes wrong. seed: all randomness."""

    def __init__(self, root, plan, seed, inv):
        self.root, self.plan, self.seed, self.inv = root, plan, seed, inv
        self.logfd = None
        self.proc = 'D'
        self.ops = 0
        self.spawned = {}
        self.nn = 0
        self.clock = 1.7e9
        self.clock_rng = random.Random(seed * 3 + 1)
        self.spent = 0.0           # simulated seconds
        self.full = None           # bytes the disk still takes
        self.sticky = {}           # path -> errno of every later write
        self.fired = {}
        self.solvers = 0

    # ------------------------------------------------------------ log
    def event(self, *e):
        data = json.dumps([self.proc] + list(e)).encode() + b'\n'
        while data:
            data = data[real['os_write'](self.logfd, data):]

    def rel(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        if p == self.root or p.startswith(self.root + '/'):
            return p[len(self.root) + 1:]
        return None

    def fire(self, kind):
        self.event('fired', kind)

    def crash(self):
        self.fire('process killed')
        self.event('killed')
        os._exit(137)

    def op(self, what, path, size=0):
        """One operation on the disk; returns the fault planned for it, if any."""
        self.ops += 1
        self.event('op', self.ops, what, path, size)
        for f in self.plan.get('faults', []):
            if f['proc'] == self.proc and f['op'] == self.ops:
                return f
        return None

    def outside(self, path, what):
        """Reading outside the scratch directory is the interpreter's business; changing anything there is refused."""
        if os.fspath(path) in ('/dev/null', os.devnull):
            return
        self.event('outside', what, str(path))
        raise PermissionError(errno.EACCES, 'simulation: outside of the scratch directory', str(path))

    # ------------------------------------------------------------ files
    def fault_or(self, f, kinds=('err',)):
        """An error or crash that takes effect before the operation."""
        if f is None:
            return
        if f['kind'] == 'crash' and not f.get('late'):
            self.crash()
        if f['kind'] == 'err' and 'err' in kinds:
            self.fire('%s on %s' % (errno.errorcode.get(f['errno'], f['errno']), f.get('what', 'operation')))
            raise OSError(f['errno'], os.strerror(f['errno']), f.get('path'))

    def after(self, f):
        if f is not None and f['kind'] == 'crash' and f.get('late'):
            self.crash()

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or opener is not None:
            return real['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        rel = self.rel(file)
        writes = any(c in mode for c in 'wax+')
        if rel is None:
            if writes and os.fspath(file) not in ('/dev/null',):
                self.outside(file, 'open for writing')
            return real['io_open'](file, mode, buffering, encoding, errors, newline)
        if rel.endswith(('.py', '.pyc')):
            return real['io_open'](file, mode, buffering, encoding, errors, newline)
        f = self.op('open-' + ('w' if writes else 'r'), rel)
        self.fault_or(f)
        raw = SimFile(self, rel, file, mode.replace('b', '').replace('t', ''))
        self.after(f)
        size = buffering if buffering > 1 else self.plan.get('bufsize', 8192)
        if buffering == 0:
            return raw
        if '+' in mode:
            b = io.BufferedRandom(raw, size)
        elif writes:
            b = io.BufferedWriter(raw, size)
        else:
            b = io.BufferedReader(raw, size)
        if 'b' in mode:
            return b
        t = io.TextIOWrapper(b, encoding or 'utf-8', errors, newline, buffering == 1)
        t.mode = mode
        return t

    def fsync(self, fd):
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        try:
            rel = self.rel(os.readlink('/proc/self/fd/%d' % fd))
        except OSError:
            rel = None
        if rel is None:
            return real['fsync'](fd)
        f = self.op('fsync', rel)
        self.fault_or(f)
        with real['open'](os.path.join(self.root, rel), 'rb') as g:
            data = g.read()
            self.event('durable', rel, hashlib.sha1(data).hexdigest(), *([data.decode('latin-1')] if self.plan.get('keep') else []))
        self.after(f)

    def path_op(self, what, fn):
        def go(path, *a, **k):
            rel = self.rel(path)
            if rel is None:
                self.outside(path, what)
            f = self.op(what, rel)
            if f is not None and f['kind'] in ('race', 'err') and what == 'mkdir' and os.path.lexists(os.path.join(self.root, rel)):
                f = None                     # the kernel looks for the name first: EEXIST
            if f is not None and f['kind'] == 'race' and what == 'mkdir':     # someone else is faster
                self.fire('directory made by someone else')
                real['mkdir'](os.path.join(self.root, rel))
            else:
                self.fault_or(f)
            if what in ('rename', 'replace'):
                if self.rel(a[0]) is None:
                    self.outside(a[0], what)
                self.event('renamed', rel, self.rel(a[0]))
            r = fn(path, *a, **k)
            self.after(f)
            return r
        return go

    def os_open(self, path, flags, *a, **k):
        writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        rel = self.rel(path)
        if rel is None:
            if writes and os.fspath(path) != '/dev/null':
                self.outside(path, 'open for writing')
            return real['os_open'](path, flags, *a, **k)
        f = self.op('open-' + ('w' if writes else 'r'), rel)
        self.fault_or(f)
        r = real['os_open'](path, flags, *a, **k)
        self.after(f)
        return r

    def os_write(self, fd, data):
        try:
            rel = self.rel(os.readlink('/proc/self/fd/%d' % fd))
        except OSError:
            rel = None
        if rel is None:
            return real['os_write'](fd, data)
        return self.write_bytes(rel, data, lambda b: real['os_write'](fd, b))

    def write_bytes(self, rel, data, put):
        data = bytes(data)
        f = self.op('write', rel, len(data))
        if rel in self.sticky:
            raise OSError(self.sticky[rel], os.strerror(self.sticky[rel]))
        if f is not None and f['kind'] in ('crash', 'err'):
            part = int(len(data) * f.get('part', 0))
            if part:
                put(data[:part])
            if f['kind'] == 'crash':
                if part < len(data):
                    self.fire('torn write')
                self.crash()
            if f.get('sticky'):
                self.sticky[rel] = f['errno']
            self.fire('%s on write' % errno.errorcode.get(f['errno'], f['errno']))
            raise OSError(f['errno'], os.strerror(f['errno']))
        most = self.plan.get('wchunk', 0)
        if most and len(data) > most:
            self.fire('short write')
            return put(data[:most])
        return put(data)

    def shuffled(self, names, rel):
        """A directory lists its entries in any order."""
        names = sorted(names, key=lambda x: os.fspath(getattr(x, 'name', x)))
        seed = self.plan.get('listing')
        if seed is not None:
            random.Random('%s %s' % (seed, rel)).shuffle(names)
            if len(names) > 1:
                self.fire('directory listed in another order')
        return names

    def listdir(self, path='.'):
        rel = None if isinstance(path, int) else self.rel('.' if path is None else path)
        if rel is None:
            return real['listdir'](path)
        f = self.op('list', rel)
        self.fault_or(f)
        names = self.shuffled(real['listdir'](path), rel)
        self.after(f)
        return names

    def scandir(self, path='.'):
        rel = None if isinstance(path, int) else self.rel('.' if path is None else path)
        if rel is None:
            return real['scandir'](path)
        f = self.op('list', rel)
        if f is not None and f['kind'] == 'err' and os.path.basename(sys._getframe(1).f_code.co_filename) in ('glob.py', 'pathlib.py', 'os.py'):
            f = None                         # glob and os.walk hide such an error from the program
        self.fault_or(f)
        with real['scandir'](path) as it:
            names = self.shuffled(list(it), rel)
        self.after(f)
        return Listing(names)

    # ------------------------------------------------------------ clock
    def advance(self, d):
        self.spent += d
        self.clock += d

    def time(self):
        """The wall clock: it can be set at any moment."""
        self.monotonic()
        j = self.plan.get('clock', 0)
        if j and self.clock_rng.random() < 0.5:
            self.clock += self.clock_rng.uniform(-j, j)
            self.fire('wall clock jump')
        return self.clock

    def monotonic(self):
        self.advance(0.001 + self.clock_rng.random() * 0.01)
        return 5000 + self.spent

    def sleep(self, s):
        self.advance(max(0, s))

    # ------------------------------------------------------------ other processes
    def spawn(self, cmd, cwd, env):
        """Runs the command to its end; returns the exit code (negative: signal)."""
        cwd = os.path.join(os.getcwd(), cwd) if cwd else os.getcwd()
        cmd = [os.fspath(c) for c in cmd]
        name = os.path.basename(cmd[0])
        tool = 'other'
        if name == 'cmake':
            tool = 'make' if '--build' in cmd else 'cmake'
        elif name in ('make', 'gmake', 'ninja'):
            tool = 'make'
        elif name.startswith('python'):
            tool = 'nn'
        elif name == 'BranchAndBound1Tree':
            tool = 'solver'
        self.spawned[tool] = k = self.spawned.get(tool, 0) + 1
        f = None
        for x in self.plan.get('spawn', []):
            if x['tool'] == tool and x['nth'] == k:
                f = x
        self.event('spawn', tool, k, [c.replace(self.root, '') for c in cmd])
        if f and f['kind'] == 'launch':
            self.fire('%s cannot be started' % tool)
            raise OSError(f['errno'], os.strerror(f['errno']), cmd[0])
        if f and f['kind'] == 'crash' and f['stage'] == 'before':
            self.crash()
        effect = f['stage'] if f and 'stage' in f else 'all'
        began = self.spent
        code = getattr(self, 'tool_' + tool)(cmd, cwd, f, effect if effect != 'after' else 'all')
        if f and f['kind'] == 'fail':
            self.fire('%s %s' % (tool, 'killed by a signal' if f['code'] < 0 else 'fails'))
            code = f['code']
        self.event('ended', tool, k, code, began, self.spent)
        if f and f['kind'] == 'crash':
            self.crash()
        return code

    def tool_other(self, cmd, cwd, f, effect):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), cmd[0])

    @staticmethod
    def options(cmd, letters):
        out, i = {}, 1
        while i < len(cmd):
            c = cmd[i]
            if c[:2] in letters:
                v = c[2:]
                if not v and i + 1 < len(cmd):
                    i += 1
                    v = cmd[i]
                out.setdefault(c[:2], []).append(v)
            i += 1
        return out

    def put(self, path, text):
        with real['open'](path, 'w') as g:
            g.write(text)

    def get(self, path):
        try:
            with real['open'](path) as g:
                return g.read()
        except OSError:
            return None

    def tool_cmake(self, cmd, cwd, f, effect):
        o = self.options(cmd, ('-S', '-B', '-D'))
        src = os.path.normpath(os.path.join(cwd, o.get('-S', ['.'])[-1]))
        bld = os.path.normpath(os.path.join(cwd, o.get('-B', ['.'])[-1]))
        if self.rel(bld) is None or self.rel(src) is None:
            return 1
        if not os.path.exists(os.path.join(src, 'CMakeLists.txt')) or effect == 'before':
            return 1
        os.makedirs_real(bld)
        cache = json.loads(self.get(os.path.join(bld, 'CMakeCache.txt')) or '{}')
        for d in o.get('-D', []):
            k, _, v = d.partition('=')
            cache[k.split(':')[0]] = v
        if effect == 'mid':
            return 1
        self.put(os.path.join(bld, 'CMakeCache.txt'), json.dumps(cache))
        return 0

    def tool_make(self, cmd, cwd, f, effect):
        o = self.options(cmd, ('-C',))
        if '--build' in cmd:
            bld = cmd[cmd.index('--build') + 1]
        else:
            bld = o.get('-C', ['.'])[-1]
        bld = os.path.normpath(os.path.join(cwd, bld))
        cache = self.get(os.path.join(bld, 'CMakeCache.txt'))
        if cache is None or effect == 'before':
            return 2
        exe = os.path.join(bld, 'BranchAndBound1Tree')
        if effect == 'mid':
            return 2
        cache = json.loads(cache)
        self.put(exe, json.dumps({'n': cache.get('MAX_VERTEX_NUM', '20'), 'h': cache.get('HYBRID', '0'), 'built': self.inv}))
        return 0

    def tool_nn(self, cmd, cwd, f, effect):
        args = [c for c in cmd[1:] if c not in ('-u', '-B', '-O', '-E', '-s')]
        if effect == 'before' or not args or os.path.basename(args[0]) != 'main.py' or not os.path.exists(os.path.join(cwd, args[0])):
            return 2
        self.nn += 1
        name = 'N%d' % self.nn
        flush()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                self.proc, self.ops, self.sticky = name, 0, {}
                signal.setitimer(signal.ITIMER_PROF, 60)
                os.chdir(cwd)
                code = self.run_main(os.path.join(cwd, args[0]), args, nn=True)
            except BaseException:
                self.event('internal', traceback.format_exc()[-2000:])
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        self.advance(self.clock_rng.uniform(0.05, 3))
        if code == 137:
            code = -9
        if code == 99:
            os._exit(98)
        return code

    def tool_solver(self, cmd, cwd, f, effect):
        exe = os.path.normpath(os.path.join(cwd, cmd[0]))
        text = self.get(exe)
        if text is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), cmd[0])
        self.solvers += 1
        inp, out = (os.path.normpath(os.path.join(cwd, c)) for c in (cmd[1:3] + ['', ''])[:2])
        matrix = self.get(inp)
        conf = json.loads(text)
        self.event('solver', {'exe': conf, 'in': self.rel(inp), 'out': self.rel(out), 'matrix': matrix, 'argc': len(cmd)})
        if effect == 'before':
            return 1
        code = 0
        real_exe = self.plan.get('real', {}).get('%s%s' % (conf['n'], 'h' if conf['h'] == '1' else 'c'))
        if self.rel(out) is None or not os.path.isdir(os.path.dirname(out)):
            code = 1
        elif real_exe and not f:
            env = self.plan.get('solver_env', {}).get(str(self.spawned['solver']), '')
            p = real['Popen']([real_exe, 'solve', inp, out, env], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
            res = json.loads(p.communicate()[0] or b'null')
            if res is None or p.returncode or res['kind'] in (5, 8, 9):      # event limit, memory limit: no answer
                self.event('internal' if res is None or p.returncode else 'no answer', 'simulated solver: %s %s' % (p.returncode, res))
            self.event('real solver', res)
            for x in (res or {}).get('fired', []):
                if x != 'non-zero garbage in fresh memory':
                    self.fire('solver: ' + x)
            self.advance(res['us'] / 1e6)
            code = res['status'] if res['kind'] == 1 else -6
        else:
            body = ''
            self.advance(self.clock_rng.uniform(0.01, 20))
            if matrix is None or matrix.count('\n') < 2:
                body, code = '\nFile: %s\n' % self.rel(inp), 1
            else:
                body = stub_report(conf, matrix)
            if effect == 'mid':
                body = body[:len(body) * 2 // 3]
            if effect == 'open':
                body = ''
            if effect != 'none':
                self.put(out, body)
        if not (f and f['kind'] == 'crash') and os.path.exists(out):
            self.event('left', self.rel(out), self.get(out))
        return code

    # ------------------------------------------------------------ the stand-ins' questions
    def model_seed(self): return self.seed % 1000003 + self.nn * 7
    def saw_model(self, coords):
        temp = [p for p in real['listdir']('data/hyb_tsp') if p.endswith('_temp.txt')]
        self.event('model', coords, self.get('data/hyb_tsp/' + temp[0]) if len(temp) == 1 else None)
    def medoids(self, n, k):
        r = random.Random(self.seed + 11)
        idx = list(range(n))
        r.shuffle(idx)
        return idx[:k] if r.random() < 0.7 else sorted(idx[:k])
    def permutation(self, n):
        r = random.Random(self.seed + 12)
        idx = list(range(n))
        r.shuffle(idx)
        return idx

    def concorde(self, problem, Solution):
        """The exact solver of the training sets: any permutation will do; it can fail."""
        self.spawned['concorde'] = k = self.spawned.get('concorde', 0) + 1
        n = len(problem.xs)
        tour = list(range(n))
        random.Random('%d tour %d' % (self.seed, k)).shuffle(tour)
        self.event('concorde', k, problem.xs, problem.ys, tour)
        for x in self.plan.get('spawn', []):
            if x['tool'] == 'concorde' and x['nth'] == k:
                if x['kind'] == 'crash':
                    self.crash()
                self.fire('exact solver fails')
                raise RuntimeError('simulation: the exact solver failed')
        return Solution(tour, k)

    # ------------------------------------------------------------ running a program
    def install(self):
        builtins.open = io.open = self.open
        os.mkdir = self.path_op('mkdir', real['mkdir'])
        os.remove = self.path_op('remove', real['remove'])
        os.unlink = self.path_op('remove', real['unlink'])
        os.rmdir = self.path_op('rmdir', real['rmdir'])
        os.rename = self.path_op('rename', real['rename'])
        os.replace = self.path_op('replace', real['replace'])
        os.fsync = self.fsync
        if real['fdatasync']:
            os.fdatasync = self.fsync
        os.open, os.write = self.os_open, self.os_write
        os.listdir, os.scandir = self.listdir, self.scandir
        os.system = lambda c: self.spawn(shlex.split(c), None, None) << 8
        os.kill = lambda *a: self.outside('process', 'kill')
        os.getpid = lambda: 4242
        time.time, time.monotonic, time.perf_counter = self.time, self.monotonic, self.monotonic
        time.process_time = time.thread_time = lambda: self.monotonic() * 0 + self.ops * 1e-5     # the driver itself computes next to nothing
        time.time_ns = lambda: int(self.time() * 1e9)
        time.monotonic_ns = time.perf_counter_ns = lambda: int(self.monotonic() * 1e9)
        time.sleep = self.sleep
        os.times = lambda: os.times_result((self.ops * 1e-5, 0.0, self.spent * 0.25, 0.0, self.monotonic()))
        w = self

        class SimDatetime(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(w.time(), tz)

            @classmethod
            def utcnow(cls):
                return cls.utcfromtimestamp(w.time())

            @classmethod
            def today(cls):
                return cls.now()
        datetime.datetime = SimDatetime

        def makedirs_real(p):
            if not os.path.isdir(p):
                makedirs_real(os.path.dirname(p))
                real['mkdir'](p)
        os.makedirs_real = makedirs_real

        class SimPopen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                         universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, text=None, encoding=None, errors=None, **k):
                self.args = args
                if isinstance(args, (str, bytes, os.PathLike)):
                    args = shlex.split(os.fsdecode(args)) if shell else [os.fspath(args)]
                self.pid = 5000 + sum(w.spawned.values())
                t = text or universal_newlines or encoding or errors
                mk = lambda s: None if s != subprocess.PIPE else (io.StringIO('') if t else io.BytesIO(b''))
                self.stdin = self.stderr = None
                self.stdout, self.stderr = mk(stdout), mk(stderr)
                self.code = w.spawn(list(args), cwd, env)
                self.returncode = None
            def poll(self):
                self.returncode = self.code
                return self.code
            def wait(self, timeout=None): return self.poll()
            def communicate(self, input=None, timeout=None):
                self.poll()
                return (self.stdout.read() if self.stdout else None, self.stderr.read() if self.stderr else None)
            def kill(self): pass
            terminate = kill
            def send_signal(self, s): pass
            def __enter__(self): return self
            def __exit__(self, *a): self.poll()
        subprocess.Popen = SimPopen
        subprocess.run.__globals__['Popen'] = SimPopen

    def run_main(self, path, argv, nn=False, tool=False):
        import stubs
        rnd = self.seed + (17 if nn else 0)
        random.seed(rnd)
        np.random.seed(rnd % (2 ** 32))
        rng0 = np.random.default_rng
        np.random.default_rng = lambda s=None: rng0(rnd if s is None else s)
        sys.argv = list(argv)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        here = os.path.dirname(path)
        sys.path[:] = [here] + [p for p in sys.path if p]
        if nn or tool:
            stubs.install(self)
        status, why = 0, ''
        try:
            exec(source(path), {'__name__': '__main__', '__file__': path, '__builtins__': builtins})
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            status, why = 1, traceback.format_exc()[-1200:].replace(self.root, '')
            e = sys.exc_info()[1]
            if isinstance(e, stubs.Missing) or isinstance(e.__context__, stubs.Missing) or (isinstance(e, ImportError) and (e.name or '').split('.')[0] in STANDINS):
                self.event('internal', why)
        if tool:
            self.event('stdout', sys.stdout.getvalue())
        self.event('exit', status, why, int(self.spent * 1e6))
        return status & 255


STANDINS = ('torch', 'sklearn', 'sklearn_extra', 'concorde', 'tsplib95', 'pandas', 'matplotlib', 'networkx', 'models')


class Listing:
    def __init__(self, names): self.it = iter(names)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


class SimFile(io.FileIO):
    def __init__(self, world, rel, path, mode):
        self.w, self.rel, self.made = world, rel, False
        self.writes = any(c in mode for c in 'wax+')
        super().__init__(path, mode)
        self.made = True

    def readinto(self, b):
        f = self.w.op('read', self.rel)
        self.w.fault_or(f)
        most = self.w.plan.get('rchunk', 0)
        if most and len(b) > most:
            b = memoryview(b)[:most]
            self.w.fire('short read')
        n = super().readinto(b)
        self.w.after(f)
        return n

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = b''
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def write(self, b):
        put = super().write
        return self.w.write_bytes(self.rel, memoryview(b).cast('B'), put)

    def close(self):
        if self.closed or not self.made:
            return super().close()
        f = None
        if self.writes:
            f = self.w.op('close', self.rel)
            if f and f['kind'] == 'crash' and not f.get('late'):
                self.w.crash()
        super().close()
        if f and f['kind'] == 'err':
            self.w.fault_or(f)
        self.w.after(f)


def stub_report(conf, matrix):
    h = hashlib.sha1(matrix.encode()).hexdigest()
    return ('Updated best value: 1.000000, at time: 0.000000\nOptimal tour found with candidate node = 0, built for %s cities, hybrid %s\nmatrix %s\n' % (conf['n'], conf['h'], h)) + 'filler %s\n' % h * 4


def flush():
    pass


def run_process(root, plan, seed, inv, program, argv, cwd, limit=60, tool=False):
    """Runs a program of the system under test; returns (exit status, events)."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, limit)
            w = World(root, plan, seed, inv)
            w.logfd = wfd
            os.chdir(cwd)
            nn = program.endswith('main.py')
            if nn:
                w.proc, w.nn = 'N1', 1
            if tool:
                w.proc = 'T'
            w.install()
            code = w.run_main(program, argv, nn, tool)
        except BaseException:
            try:
                real['os_write'](wfd, json.dumps(['D', 'internal', traceback.format_exc()[-2000:]]).encode() + b'\n')
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    data = []
    while True:
        b = real['os_read'](r, 1 << 20)
        if not b:
            break
        data.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    events = [json.loads(l) for l in b''.join(data).decode().splitlines() if l]
    return code, events
