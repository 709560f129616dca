"""Stand-ins for the packages this sandbox does not have (torch, sklearn, sklearn_extra, matplotlib): as much of them
as the network step uses, on top of numpy. The model is a seeded table of logits; which cities it was asked about, and
what it answered, is recorded for the oracles."""
import json, sys, types
import numpy as np


class Missing(AttributeError):
    """The program asked a stand-in for something it does not have."""


class _Size(int):
    """x.size is a number in numpy and x.size() the shape in torch."""
    def __call__(self, dim=None): return self.shape if dim is None else self.shape[dim]


def _dim(f):
    def g(self, *a, dim=None, keepdim=False, **k):
        if dim is not None:
            k['axis'] = dim
        if keepdim:
            k['keepdims'] = True
        return np.asarray(f(np.asarray(self), *a, **k)).view(Tensor)
    return g


class Tensor(np.ndarray):
    def __getattr__(self, k):
        if k.startswith('_') or k == 'exact':
            raise AttributeError(k)
        raise Missing('the stand-in for a tensor has no %s' % k)
    @property
    def data(self): return self
    @property
    def size(self):
        a = np.asarray(self)
        s = _Size(a.size)
        s.shape = a.shape
        return s
    @property
    def device(self): return 'cpu'
    @property
    def is_cuda(self): return False
    def view(self, *a, **k):
        if k or (len(a) == 1 and not isinstance(a[0], (int, np.integer, tuple, list))):
            return np.ndarray.view(self, *a, **k)
        return self.reshape(*a)
    def transpose(self, *d):
        a = np.asarray(self)
        if len(d) == 2 and all(isinstance(x, int) for x in d):
            return np.swapaxes(a, *d).view(Tensor)
        return a.transpose(*d).view(Tensor)
    def t(self): return np.asarray(self).T.view(Tensor)
    def squeeze(self, dim=None, axis=None):
        d = axis if dim is None else dim
        a = np.asarray(self)
        return (a if d is not None and a.shape[d] != 1 else np.squeeze(a, d)).view(Tensor)
    argmax = _dim(np.argmax)
    argmin = _dim(np.argmin)
    sum = _dim(np.sum)
    mean = _dim(np.mean)
    exp = lambda self: np.exp(np.asarray(self)).view(Tensor)
    log = lambda self: np.log(np.asarray(self)).view(Tensor)
    sigmoid = lambda self: (1 / (1 + np.exp(-np.asarray(self)))).view(Tensor)
    def type(self, t=None):
        return t(self) if callable(t) and not isinstance(t, type(np.float32)) else self
    def cpu(self): return self
    def cuda(self, *a): return self
    def detach(self): return self
    def to(self, *a, **k): return self
    def float(self): return tensor(np.asarray(self), np.float32)
    def long(self): return tensor(np.asarray(self), np.int64)
    def double(self): return tensor(np.asarray(self), np.float64)
    def numpy(self): return np.asarray(self).copy()
    def clone(self): return self.copy()
    def contiguous(self): return self
    def permute(self, *d): return np.transpose(self, d)
    def unsqueeze(self, d): return np.expand_dims(self, d).view(Tensor)
    def requires_grad_(self, *a): return self
    def dim(self): return self.ndim
    def numel(self): return int(np.asarray(self).size)
    def softmax(self, dim=None, **k): return softmax(self, dim)
    def reshape(self, *s, **k): return np.asarray(self).reshape(*s, **k).view(Tensor)


def tensor(x, dtype=None, **k):
    return np.array(x, dtype=dtype).view(Tensor)


def softmax(x, dim=None, **k):
    a = np.asarray(x)
    m = a.max(axis=dim, keepdims=True)
    e = np.exp(a - m)
    return (e / e.sum(axis=dim, keepdims=True)).astype(a.dtype).view(Tensor)


class _Ctx:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


class _Module:
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return self.forward(*a, **k)
    def eval(self): return self
    def train(self, *a): return self
    def cuda(self, *a): return self
    def cpu(self): return self
    def to(self, *a, **k): return self
    def load_state_dict(self, *a, **k): return None
    def parameters(self): return []


class _DataParallel(_Module):
    def __init__(self, module, *a, **k): self.module = module
    def forward(self, *a, **k): return self.module.forward(*a, **k)
    def load_state_dict(self, d, *a, **k): return self.module.load_state_dict(d)


def logits(seed, m):
    """The model's answer: one pair of logits per ordered pair of positions."""
    kind = seed % 4
    r = np.random.RandomState(seed % (2 ** 32))
    x = r.normal(0, 3, (1, m, m, 2))
    if kind == 1:
        x = r.normal(0, 12, (1, m, m, 2))       # many probabilities near 0, printed with an exponent
    elif kind == 2:
        x = r.normal(-4, 1, (1, m, m, 2)); x[..., 0] += 10
    return x.astype(np.float32)


def install(world):
    """Puts the stand-ins into sys.modules. world: open_checkpoint(path), model_seed(), saw_model(coords, logits), medoids(points, k)."""
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        def missing(k):
            if k.startswith('__'):
                raise AttributeError(k)
            raise Missing('the stand-in for %s has no %s' % (name, k))
        m.__getattr__ = missing
        sys.modules[name] = m
        return m
    def conv(dt):
        def f(*a):
            t = tensor(a[0] if a else [], dt)
            t.exact = getattr(a[0], 'exact', None) if a else None      # before rounding: tells close cities apart
            if t.exact is None and a:
                t.exact = np.array(a[0], dtype=np.float64)
            return t
        return f
    FloatTensor, LongTensor = conv(np.float32), conv(np.int64)

    def load(path, *a, **k):
        with open(path, 'rb') as f:
            data = f.read()
        if data != b'CHECKPOINT' * 50:
            raise RuntimeError('checkpoint is damaged')
        return {'model_state_dict': {}, 'epoch': 1}
    F = mod('torch.nn.functional', softmax=softmax)
    cuda = mod('torch.cuda', is_available=lambda: False, manual_seed=lambda *a: None, manual_seed_all=lambda *a: None, FloatTensor=FloatTensor, LongTensor=LongTensor)
    nn = mod('torch.nn', Module=_Module, DataParallel=_DataParallel, functional=F)
    autograd = mod('torch.autograd', Variable=lambda x, *a, **k: x)
    torch = mod('torch', Tensor=Tensor, FloatTensor=FloatTensor, LongTensor=LongTensor, DoubleTensor=conv(np.float64), tensor=tensor,
                from_numpy=lambda x: np.asarray(x).view(Tensor), as_tensor=tensor, no_grad=_Ctx, inference_mode=_Ctx, set_grad_enabled=_Ctx, load=load,
                softmax=softmax, manual_seed=lambda *a: None, nn=nn, autograd=autograd, cuda=cuda, device=lambda *a: 'cpu',
                float32=np.float32, float64=np.float64, int64=np.int64, long=np.int64, float=np.float32,
                sigmoid=Tensor.sigmoid, exp=Tensor.exp, log=Tensor.log, squeeze=lambda x, *a, **k: x.squeeze(*a, **k), unsqueeze=lambda x, d: x.unsqueeze(d),
                argmax=lambda x, *a, **k: x.argmax(*a, **k), stack=lambda xs, dim=0: np.stack([np.asarray(x) for x in xs], dim).view(Tensor),
                zeros=lambda *s, **k: np.zeros(s[0] if len(s) == 1 else s, np.float32).view(Tensor), ones=lambda *s, **k: np.ones(s[0] if len(s) == 1 else s, np.float32).view(Tensor),
                set_default_dtype=lambda *a: None, get_num_threads=lambda: 1, enable_grad=_Ctx,
                set_num_threads=lambda *a: None, is_tensor=lambda x: isinstance(x, Tensor))
    torch.__path__ = []

    class Model(_Module):
        def __init__(self, config, *a, **k): self.config = config
        def forward(self, x_edges, x_edges_values, x_nodes, x_nodes_coord, *a, **k):
            c = np.asarray(x_nodes_coord)[0]
            e = getattr(x_nodes_coord, 'exact', None)
            x = logits(world.model_seed(), len(c))
            world.saw_model((e[0] if e is not None and e.shape == np.shape(x_nodes_coord) else c).astype(float).tolist())
            return x.view(Tensor), tensor([0.0], np.float32)
        __call__ = forward
    mod('models', __path__=[])
    mod('models.gcn_model', ResidualGatedGCNModel=Model)

    class KMedoids:
        def __init__(self, n_clusters=8, **k): self.k = n_clusters
        def fit(self, X, y=None):
            X = np.asarray(X, dtype=float)
            idx = world.medoids(len(X), self.k)
            if len(idx) < self.k:
                raise ValueError('fewer points than clusters')
            self.medoid_indices_ = np.array(idx)
            self.cluster_centers_ = X[idx]
            d = ((X[:, None, :] - self.cluster_centers_[None, :, :]) ** 2).sum(-1)
            self.labels_ = d.argmin(1)
            return self
        def fit_predict(self, X, y=None): return self.fit(X).labels_
    mod('sklearn_extra', __path__=[])
    mod('sklearn_extra.cluster', KMedoids=KMedoids)
    mod('sklearn', __path__=[])
    mod('sklearn.utils', __path__=[], shuffle=lambda x, *a, **k: [x[i] for i in world.permutation(len(x))])
    mod('sklearn.utils.class_weight', compute_class_weight=lambda *a, **k: np.array([0.6, 3.0]))

    # the training sets and the reference solutions
    class Solution:
        def __init__(self, tour, k):
            self.tour, self.optimal_value, self.success, self.found_tour, self.hit_timebound = np.array(tour, dtype=np.int32), 1000.0 + k, True, True, False
            self.running_time, self.bb_nodes = 0.25 * k + 0.125, 3 * k + 1

    class Problem:
        def __init__(self, xs, ys, norm):
            self.xs, self.ys, self.norm = [float(x) for x in xs], [float(y) for y in ys], norm
        @classmethod
        def from_coordinates(cls, xs, ys, norm='EUC_2D', name=None): return cls(xs, ys, norm)
        @classmethod
        def from_data(cls, xs, ys, norm='EUC_2D', name=None): return cls(xs, ys, norm)
        def solve(self, *a, **k): return world.concorde(self, Solution)

    class Concorde:
        def __init__(self, *a, **k): pass
        def solve(self, problem, *a, **k): return world.concorde(problem, Solution)
    mod('concorde', __path__=[])
    mod('concorde.tsp', TSPSolver=Problem)
    mod('concorde.concorde', Concorde=Concorde)
    mod('concorde.problem', Problem=Problem)

    # TSPLIB files with explicit matrices, as the converter reads them
    class Graph:
        def __init__(self, m): self.m = m

    def tsp_load(path, *a, **k):
        with open(path) as f:
            lines = f.read().split('\n')
        n = next((int(l.split(':')[1]) for l in lines if l.startswith('DIMENSION')), None)
        at = next((i for i, l in enumerate(lines) if l.strip() == 'EDGE_WEIGHT_SECTION'), None)
        if n is None or at is None:
            raise ValueError('%s: no complete problem' % path)
        x = []
        for l in lines[at + 1:]:
            if l.strip() == 'EOF':
                break
            x += [int(t) for t in l.split()]
        if len(x) != n * n:
            raise ValueError('%s: %d weights for %d cities' % (path, len(x), n))
        return types.SimpleNamespace(dimension=n, get_graph=lambda *a, **k: Graph(np.array(x, dtype=float).reshape(n, n)), get_nodes=lambda: range(1, n + 1))
    mod('tsplib95', load=tsp_load)

    def concat(objs, axis=0, ignore_index=False, **k):
        objs = [o for o in objs]
        if axis in (1, 'columns'):
            raise Missing('the stand-in for concat knows rows only')
        cols = []
        for o in objs:
            cols += [c for c in o.columns if c not in cols]
        rows = [[r[o.columns.index(c)] if c in o.columns else float('nan') for c in cols] for o in objs for r in o.rows]
        return DataFrame(rows, index=None if ignore_index else [i for o in objs for i in o.index], columns=cols)
    mod('pandas', DataFrame=DataFrame, Series=Series, concat=concat, set_option=lambda *a, **k: None, isna=lambda x: x != x, isnull=lambda x: x != x,
        option_context=_Ctx)

    class Anything(types.ModuleType):
        __path__ = []
        __all__ = []
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return Anything(self.__name__ + '.' + k)
        def __call__(self, *a, **k): return self
    for n in ('matplotlib', 'networkx', 'seaborn'):
        sys.modules[n] = Anything(n)
    sys.modules['networkx'].to_numpy_matrix = lambda g, *a, **k: np.matrix(g.m)
    sys.modules['networkx'].to_numpy_array = lambda g, *a, **k: np.array(g.m)

    class Plot(Anything):
        """What is plotted is saved as JSON."""
        def __init__(self, name):
            super().__init__(name)
            self.series = []
        def plot(self, x=(), y=None, *a, label=None, **k):
            x = list(x)
            y, x = (x, list(range(len(x)))) if y is None else (list(y), x)
            if len(x) != len(y):
                raise ValueError('x and y must have same first dimension')
            self.series.append([[float(v) for v in x], [float(v) for v in y], label])
        step = plot
        def savefig(self, path, *a, **k):
            with open(path, 'wb') as f:
                f.write(json.dumps(self.series).encode())
        def close(self, *a): self.series = []
        clf = cla = close
        def figure(self, *a, **k): self.series = []
    plt = Plot('matplotlib.pyplot')
    sys.modules['matplotlib.pyplot'] = plt
    sys.modules['matplotlib'].pyplot = plt


def cell(x, six):
    if isinstance(x, (float, np.floating)):
        if x != x:
            return 'NaN'
        t = '%.6f' % x
        if six:
            return t
        t = t.rstrip('0')
        return t + '0' if t.endswith('.') else t
    return str(x)


class Series(list):
    """A column, or a row, of a table."""
    def __init__(self, data=(), index=None, name=None, dtype=None, **k):
        if isinstance(data, dict):
            index, data = list(data), list(data.values())
        super().__init__(data)
        self.index, self.name = list(index) if index is not None else list(range(len(self))), name
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Missing('the stand-in for a Series has no %s' % k)
    def __getitem__(self, k):
        if isinstance(k, slice) or (isinstance(k, (int, np.integer)) and k not in self.index):
            return list.__getitem__(self, k)
        return list.__getitem__(self, self.index.index(k))
    values = property(lambda self: np.array(list(self)))
    def tolist(self): return list(self)
    to_list = tolist
    def to_numpy(self, *a, **k): return self.values
    def items(self): return list(zip(self.index, self))
    def mean(self): return np.mean(list(self))
    def std(self, ddof=1): return np.std(list(self), ddof=ddof)
    def sum(self): return np.sum(list(self))
    def min(self): return min(self)
    def max(self): return max(self)


class _Loc:
    def __init__(self, df, by_place=False): self.df, self.by_place = df, by_place
    def at(self, key): return key if self.by_place else self.df.index.index(key)
    def __setitem__(self, key, row):
        d = self.df
        if isinstance(key, tuple) and len(key) == 2:
            key, c = key
            if isinstance(c, slice):
                self[key] = row
                return
            if not self.by_place and key not in d.index:
                d.index.append(key)
                d.rows.append([float('nan')] * len(d.columns))
            if not self.by_place and c not in d.columns:
                d[c] = [float('nan')] * len(d.rows)
            d.rows[self.at(key)][c if self.by_place else d.columns.index(c)] = row
            return
        if isinstance(row, (int, float, str, np.number)):
            row = [row] * len(d.columns)
        if isinstance(row, dict):
            row = [row.get(c, float('nan')) for c in d.columns]
        elif isinstance(row, Series) and set(row.index) == set(d.columns):
            row = [row[c] for c in d.columns]
        row = list(row)
        if len(row) != len(d.columns):
            raise ValueError('cannot set a row with mismatched columns')
        if self.by_place or key in d.index:
            d.rows[self.at(key)] = row
        else:
            d.index.append(key)
            d.rows.append(row)
    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            key, c = key
            return self.df.rows[self.at(key)][c if self.by_place else self.df.columns.index(c)]
        i = self.at(key)
        return Series(self.df.rows[i], index=self.df.columns, name=self.df.index[i])


class DataFrame:
    """As much of a table as the analysis uses, and a refactored one might."""
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, DataFrame):
            index, columns, data = data.index, columns or data.columns, [list(r) for r in data.rows]
        if isinstance(data, np.ndarray):
            data = data.tolist()
        columns = list(columns) if columns is not None else None
        self.columns, self.rows = list(columns or []), []
        if isinstance(data, dict):
            self.columns = list(columns or data)
            size = max([len(v) for v in data.values() if not isinstance(v, (int, float, str))] + [len(index) if index is not None else 0])
            cols = [[data[c]] * size if isinstance(data[c], (int, float, str)) else list(data[c]) for c in self.columns]
            if len({len(c) for c in cols}) > 1:
                raise ValueError('All arrays must be of the same length')
            self.rows = [list(r) for r in zip(*cols)]
        elif data is not None:
            data = list(data)
            if data and isinstance(data[0], Series) and columns is None:
                self.columns = list(data[0].index)
            if data and isinstance(data[0], dict) and columns is None:
                for r in data:
                    self.columns += [c for c in r if c not in self.columns]
            self.rows = [[r.get(c, float('nan')) for c in self.columns] if isinstance(r, dict) else list(r) for r in data]
            if columns is None and not self.columns and self.rows:
                self.columns = list(range(len(self.rows[0])))
            if any(len(r) != len(self.columns) for r in self.rows):
                raise ValueError('%d columns passed, passed data had another number' % len(self.columns))
        self.index = list(index) if index is not None else list(range(len(self.rows)))
        if len(self.index) != len(self.rows):
            if self.rows:
                raise ValueError('Length of index does not match the data')
            self.rows = [[float('nan')] * len(self.columns) for _ in self.index]
    @classmethod
    def from_dict(cls, data, orient='columns', dtype=None, columns=None):
        if orient == 'index':
            return cls(list(data.values()), index=list(data), columns=columns)
        return cls(data)
    @classmethod
    def from_records(cls, data, index=None, columns=None, **k): return cls(data, index=index, columns=columns)
    loc = property(_Loc)
    at = property(_Loc)
    iloc = property(lambda self: _Loc(self, True))
    iat = iloc
    shape = property(lambda self: (len(self.rows), len(self.columns)))
    empty = property(lambda self: not self.rows or not self.columns)
    values = property(lambda self: np.array(self.rows, dtype=object))
    T = property(lambda self: self.transpose())
    def transpose(self): return DataFrame([list(r) for r in zip(*self.rows)], index=self.columns, columns=self.index)
    def __len__(self): return len(self.rows)
    def __iter__(self): return iter(self.columns)
    def __contains__(self, c): return c in self.columns
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Missing('the stand-in for a DataFrame has no %s' % k)
    def __getitem__(self, c):
        if isinstance(c, list):
            return DataFrame([[r[self.columns.index(x)] for x in c] for r in self.rows], index=self.index, columns=c)
        return Series([r[self.columns.index(c)] for r in self.rows], index=self.index, name=c)
    def __setitem__(self, c, v):
        if isinstance(v, (int, float, str)) or v is None:
            v = [v] * max(len(self.rows), 0)
        v = list(v)
        if not self.rows and not self.columns:
            self.rows, self.index = [[] for _ in v], list(range(len(v)))
        if len(v) != len(self.rows):
            raise ValueError('Length of values does not match length of index')
        if c not in self.columns:
            self.columns.append(c)
            for r in self.rows:
                r.append(None)
        j = self.columns.index(c)
        for r, x in zip(self.rows, v):
            r[j] = x
    def iterrows(self): return [(i, Series(r, index=self.columns)) for i, r in zip(self.index, self.rows)]
    def rename(self, index=None, columns=None, inplace=False, **k):
        name = lambda m, x: m(x) if callable(m) else (m or {}).get(x, x)
        d = self if inplace else DataFrame(columns=self.columns)
        d.rows = [list(r) for r in self.rows]
        d.index = [name(index, i) for i in self.index]
        d.columns = [name(columns, c) for c in self.columns]
        return None if inplace else d
    def set_index(self, keys, drop=True, inplace=False, **k):
        if isinstance(keys, str):
            j = self.columns.index(keys)
            d = DataFrame([r[:j] + r[j + 1:] for r in self.rows], index=[r[j] for r in self.rows], columns=self.columns[:j] + self.columns[j + 1:])
        else:
            d = DataFrame([list(r) for r in self.rows], index=keys, columns=self.columns)
        if not inplace:
            return d
        self.rows, self.index, self.columns = d.rows, d.index, d.columns
    def set_axis(self, labels, axis=0, **k):
        return DataFrame([list(r) for r in self.rows], index=labels, columns=self.columns) if axis in (0, 'index') else DataFrame([list(r) for r in self.rows], index=self.index, columns=labels)
    def assign(self, **cols):
        d = self.copy()
        for c, v in cols.items():
            d[c] = v(d) if callable(v) else v
        return d
    def astype(self, *a, **k): return self.copy()
    def copy(self, deep=True): return self.rename()
    def strings(self):
        out = []
        for j in range(len(self.columns)):
            col = [r[j] for r in self.rows]
            floats = all(isinstance(x, (int, float, np.number)) and not isinstance(x, bool) for x in col) and any(isinstance(x, (float, np.floating)) for x in col)
            out.append([cell(float(x) if floats else x, floats) for x in col])
        return out
    def to_string(self, buf=None, *a, **k):
        cols = self.strings()
        lab = [str(i) for i in self.index]
        w = max([len(x) for x in lab] + [0])
        ws = [max([len(str(c))] + [len(x) for x in col]) for c, col in zip(self.columns, cols)]
        lines = [' ' * w + ''.join(' ' + str(c).rjust(x) for c, x in zip(self.columns, ws))]
        for i, l in enumerate(lab):
            lines.append(l.ljust(w) + ''.join(' ' + col[i].rjust(x) for col, x in zip(cols, ws)))
        text = '\n'.join(lines)
        if buf is None:
            return text
        if hasattr(buf, 'write'):
            buf.write(text)
        else:
            with open(buf, 'w') as f:
                f.write(text)
    __str__ = __repr__ = to_string
    def to_csv(self, path=None, sep=',', index=True, header=True, **k):
        rows = ([([''] if index else []) + [str(c) for c in self.columns]] if header else [])
        for i, r in zip(self.index, self.rows):
            rows.append(([str(i)] if index else []) + ['' if isinstance(x, float) and x != x else repr(float(x)) if isinstance(x, (float, np.floating)) else str(x) for x in r])
        text = ''.join(sep.join(r) + '\n' for r in rows)
        if path is None:
            return text
        if hasattr(path, 'write'):
            path.write(text)
        else:
            with open(path, 'w') as f:
                f.write(text)
