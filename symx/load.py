"""Loads fresh copies of the aeolis modules from the current /repo source
with numpy, numba, math, scipy and the builtin number types replaced by
symbolic-aware proxies.  The source itself is executed unchanged."""
import ast
import builtins
import logging
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import core, arr
from .core import R, B, Cx, Unsupported, asR
from .arr import SymArray, Sel, to_sym, issym, deep_sym, elem

REPO = os.environ.get('VP_REPO', '/repo')


# ---------------------------------------------------------------- builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or o is R

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, R):
            return x
        if isinstance(x, B):
            return x.num()
        if isinstance(x, np.ndarray) and (isinstance(x, SymArray) or x.dtype == object):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            return asR(next(iter(x.flat)))
        if isinstance(x, Sel):
            return cls(x.realize())
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(metaclass=_IntMeta):
    dtype = np.dtype(int)

    def __new__(cls, x=0, *a):
        if isinstance(x, SymArray) and x.size == 1:
            x = arr.first(x)
        if isinstance(x, B):
            x = x.num()
        if isinstance(x, R):
            t = core.rtrunc(x)
            if t.const:
                return builtins.int(t.v)
            return t             # integral-valued symbolic real
        return builtins.int(x, *a)


def sym_max(*a, **k):
    key = k.pop('key', None)
    default = k.pop('default', None)
    items = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, (R, B)) for x in items):
        r = asR(items[0])
        for x in items[1:]:
            x = asR(x)
            r = core.Ite((x > r).e, x, r)
        return r
    if key is not None:
        k['key'] = key
    if default is not None:
        k['default'] = default
    return builtins.max(*([items] if len(a) == 1 else [items]), **k)


def sym_min(*a, **k):
    key = k.pop('key', None)
    default = k.pop('default', None)
    items = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, (R, B)) for x in items):
        r = asR(items[0])
        for x in items[1:]:
            x = asR(x)
            r = core.Ite((x < r).e, x, r)
        return r
    if key is not None:
        k['key'] = key
    if default is not None:
        k['default'] = default
    return builtins.min(items, **k)


def sym_any(it):
    r = False
    for x in it:
        if isinstance(x, (B, R)):
            r = core.asB(x) | r
        elif x:
            return True
    return r


def sym_all(it):
    r = True
    for x in it:
        if isinstance(x, (B, R)):
            r = core.asB(x) & r
        elif not x:
            return False
    return r


def sym_round(x, n=None):
    if isinstance(x, R):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sym_bool(x=False):
    if isinstance(x, (B, R)):
        return core.asB(x)
    return builtins.bool(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, B))

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class SymBoolType(metaclass=_BoolMeta):
    dtype = np.dtype(bool)

    def __new__(cls, x=False):
        return sym_bool(x)


SymBoolType.__name__ = 'bool'
SymFloat.__name__ = 'float'
SymInt.__name__ = 'int'


def _fix_dtype(d):
    if d is SymFloat:
        return builtins.float
    if d is SymInt:
        return builtins.int
    if d is SymBoolType:
        return builtins.bool
    return d


# ---------------------------------------------------------------- numpy

class NumpyProxy(types.ModuleType):
    """numpy with array creation producing symbolic arrays"""

    ndarray = arr.NDArrayFace
    float64 = SymFloat
    float_ = SymFloat
    asmatrix = staticmethod(arr.asmatrix)
    matrix = staticmethod(arr.asmatrix)

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.matlib = types.SimpleNamespace(repmat=lambda a, m, n: self.tile(a, (m, n)))
        self.random = types.SimpleNamespace(**{k: getattr(np.random, k) for k in dir(np.random) if not k.startswith('_')})
        self.linalg = np.linalg
        self.fft = arr.FFT()

    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, np.ufunc) or not callable(real) or isinstance(real, type):
            return real
        f = _wrap_fn(name, real)
        self.__dict__[name] = f
        return f

    @staticmethod
    def zeros(shape, dtype=None, order='C', **k):
        return arr.zeros(shape, _fix_dtype(dtype))

    @staticmethod
    def empty(shape, dtype=None, order='C', **k):
        return arr.zeros(shape, _fix_dtype(dtype))

    @staticmethod
    def ones(shape, dtype=None, order='C', **k):
        return arr.full(shape, 1, _fix_dtype(dtype) if dtype is not None else float)

    @staticmethod
    def full(shape, fill_value, dtype=None, order='C', **k):
        return arr.full(shape, fill_value, _fix_dtype(dtype))

    @staticmethod
    def array(x, dtype=None, copy=True, ndmin=0, **k):
        dtype = _fix_dtype(dtype)
        if not deep_sym(x):
            try:
                r = np.array(x, dtype=dtype, ndmin=ndmin)
            except (ValueError, TypeError):
                raise
            if r.dtype.kind in 'f' and r.ndim > 0:
                return to_sym(r)
            return r
        r = to_sym(x)
        if r is x:
            r = r.copy()
        if dtype is not None:
            r = arr.cast(r, dtype)
        while r.ndim < ndmin:
            r = r.reshape((1,) + r.shape)
        return r

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, arr.SymMatrix):
            return x.view(SymArray)
        if isinstance(x, Sel):
            return x if dtype is None else arr.cast(x.realize(), _fix_dtype(dtype))
        if isinstance(x, SymArray) and dtype is None:
            return x
        return NumpyProxy.array(x, dtype=dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    @staticmethod
    def isscalar(x):
        return isinstance(x, (R, B)) or np.isscalar(x)

    @staticmethod
    def arange(*a, dtype=None, **k):
        if any(isinstance(x, R) and not x.const for x in a):
            st, en, dx = (R(Fraction(0)), a[0], R(Fraction(1))) if len(a) == 1 else (a + (R(Fraction(1)),))[:3]
            n = (-core.rfloor(-((asR(en) - asR(st)) / asR(dx)))).__index__()
            return to_sym([asR(st) + asR(dx) * i for i in range(max(n, 0))])
        a = [x.pyfloat() if isinstance(x, R) else x for x in a]
        r = np.arange(*a, dtype=_fix_dtype(dtype))
        return to_sym(r) if r.dtype.kind == 'f' else r

    @staticmethod
    def linspace(a, b, num=50, endpoint=True, **k):
        return arr.FN['linspace'](a, b, num, endpoint)

    @staticmethod
    def vectorize(f, *a, **k):
        return lambda *x: arr.emap(lambda *e: elem(f(*e)), *x)

    @staticmethod
    def errstate(**k):
        return np.errstate(**k)

    @staticmethod
    def ndim(x):
        return x.ndim if hasattr(x, 'ndim') else np.ndim(x)

    @staticmethod
    def shape(x):
        if isinstance(x, (list, tuple)) and deep_sym(x):
            return to_sym(x).shape
        return x.shape if hasattr(x, 'shape') else np.shape(x)

    @staticmethod
    def size(x, axis=None):
        if isinstance(x, (list, tuple)) and deep_sym(x):
            x = to_sym(x)
        if hasattr(x, 'size'):
            return x.size if axis is None else x.shape[axis]
        return np.size(x, axis)

    @staticmethod
    def isrealobj(x):
        return True

    @staticmethod
    def savetxt(*a, **k):
        return None


def _wrap_fn(name, real):
    def f(*args, **kwargs):
        if any(deep_sym(a) for a in args) or any(deep_sym(v) for v in kwargs.values()):
            fn = arr.FN.get(name)
            if fn is None:
                raise Unsupported('numpy function %s' % name)
            args = [_arrayish(a) if i == 0 and name not in LISTY else a for i, a in enumerate(args)]
            return fn(*args, **kwargs)
        if 'dtype' in kwargs:
            kwargs['dtype'] = _fix_dtype(kwargs['dtype'])
        return real(*args, **kwargs)
    f.__name__ = name
    return f


LISTY = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'meshgrid', 'select',
         'broadcast_arrays', 'ix_'}


def _arrayish(a):
    if isinstance(a, (list, tuple)):
        return to_sym(list(a))
    if isinstance(a, (R, B, Cx)):
        return to_sym(a)
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray) and a.dtype == object:
        return to_sym(a)
    return a


# scalars in, scalars out for the common reductions / elementwise helpers
def _scalar_ok(name):
    base = arr.FN[name]

    def f(a, *args, **kw):
        r = base(a, *args, **kw)
        if isinstance(r, SymArray) and r.ndim == 0:
            return arr.first(r)
        return r
    arr.FN[name] = f


for _n in ('sum', 'mean', 'amax', 'amin', 'max', 'min', 'any', 'all', 'real', 'imag', 'round_', 'around', 'round', 'clip',
           'nansum', 'nanmean', 'nanmax', 'nanmin', 'prod', 'std', 'var'):
    _scalar_ok(_n)


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real
        m = {'fabs': 'absolute', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power', 'radians': 'deg2rad',
             'degrees': 'rad2deg', 'asin': 'arcsin', 'acos': 'arccos', 'isnan': 'isnan', 'isinf': 'isinf'}.get(name, name)

        def f(*a):
            if any(issym(x) for x in a):
                if name in ('floor', 'ceil', 'trunc'):
                    x = SymFloat(a[0])
                    return {'floor': core.rfloor, 'ceil': lambda v: -core.rfloor(-v), 'trunc': core.rtrunc}[name](x)
                if m not in arr.UF:
                    raise Unsupported('math.%s' % name)
                return arr.UF[m](*[elem(SymFloat(x)) if isinstance(x, (np.ndarray, Sel)) else elem(x) for x in a])
            return real(*a)
        return f


class Stub(types.ModuleType):
    """inert module / callable"""

    def __init__(self, name='stub'):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Stub(k)

    def __call__(self, *a, **k):
        return Stub('call')


class NullLogger:
    def __getattr__(self, k):
        if k == 'log_and_raise':
            return self.log_and_raise
        return lambda *a, **kw: None

    def isEnabledFor(self, *a):
        return False

    def log_and_raise(self, msg, exc=Exception, *a, **k):
        raise exc(msg)


class LoggingProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'logging')
        self._l = NullLogger()

    def getLogger(self, *a):
        return self._l

    def __getattr__(self, k):
        return getattr(logging, k)


def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class ScipyProxy(types.ModuleType):
    """attribute overrides over a real (sub)module"""

    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)


# ------------------------------------------------ sparse systems (scipy)

class SymSparse:
    """matrix assembled by scipy.sparse.diags, kept dense"""

    def __init__(self, M):
        self.M = M

    shape = property(lambda s: s.M.shape)

    def toarray(self):
        return self.M
    todense = toarray

    def tocsc(self, *a, **k):
        return self
    tocsr = tocoo = tolil = copy = tocsc

    def __add__(self, o):
        return SymSparse(self.M + (o.M if isinstance(o, SymSparse) else o))
    __radd__ = __add__

    def dot(self, v):
        return arr.dot_(self.M, v)
    __matmul__ = dot
    __mul__ = dot

    def diagonal(self, k=0):
        return self.M.diagonal(k)


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.isscalar(offsets):
        offsets = [offsets]
        if not (isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and np.ndim(diagonals[0]) > 0):
            diagonals = [diagonals]
    diagonals = [to_sym(d).flatten() for d in diagonals]
    offsets = [arr.conc_int(o) for o in offsets]
    if shape is None:
        n = len(diagonals[0]) + abs(offsets[0])
        shape = (n, n)
    M = arr.zeros(shape)
    raw = M.view(np.ndarray)
    for d, k in zip(diagonals, offsets):
        off = max(0, k)
        length = min(shape[0] + k, shape[1] - k, max(shape)) if False else min(shape[0] + min(0, k), shape[1] - max(0, k))
        if length < 0:
            raise ValueError('Offset %d (index %d) out of bounds' % (k, 0))
        if len(d) != length and len(d) != 1:
            raise ValueError('Diagonal length (%d at offset %d) does not agree with matrix size' % (len(d), k))
        for t in range(length):
            i, j = (t, t + k) if k >= 0 else (t - k, t)
            raw[i, j] = raw[i, j] + asR(arr.first(d[t if len(d) > 1 else 0:][:1]))
    return SymSparse(M)


def sp_spsolve(A, b, *a, **k):
    """x with A x = b: fresh unknowns constrained by the linear system"""
    c = core.ctx()
    M = A.M if isinstance(A, SymSparse) else to_sym(A)
    b = to_sym(b).flatten()
    n = len(b)
    given = getattr(c, 'spsolve_given', None)
    if given is not None:
        if not given:
            raise core.PathAbort()
        return given.pop(0).flatten()
    if c.__class__.__name__ == 'Ctx' and all(asR(e).const for e in M.flat) and all(asR(e).const for e in b.flat):
        Mf = np.array([[asR(M[i, j]).pyfloat() for j in range(n)] for i in range(n)])
        bf = np.array([asR(b[i]).pyfloat() for i in range(n)])
        import scipy.sparse
        import scipy.sparse.linalg
        return to_sym(scipy.sparse.linalg.spsolve(scipy.sparse.csc_matrix(Mf), bf))
    out = to_sym([R(c.fresh_real('x')) for _ in range(n)])
    low = getattr(c, 'spsolve_nonneg', None)
    if low is not None:
        low = np.broadcast_to(low.view(np.ndarray).reshape(-1), (n,))
        for e in out:
            c.assume((e >= 0).e)
        if c.spsolve_accumulate:
            c.spsolve_nonneg = out
        out = to_sym([out[i] - low[i] for i in range(n)])
    for i in range(n):
        s = R(Fraction(0))
        for j in range(n):
            s = s + asR(M[i, j]) * out[j]
        d = s - b[i]
        if d.flagged:
            raise Unsupported('extended values in a linear system')
        if isinstance(d.v, Fraction):
            if d.v != 0:
                raise core.PathAbort()
        else:
            c.late.append(d.v == 0)     # left out of feasibility checks
    c.linear_systems = getattr(c, 'linear_systems', 0) + 1
    return out


def norm_cdf(x, loc=0, scale=1):
    f = lambda v, l, s: core.uf('normcdf', (asR(v) - asR(l)) / asR(s))
    if any(isinstance(q, np.ndarray) for q in (x, loc, scale)):
        return arr.emap(f, x, loc, scale)
    return f(x, loc, scale)


class interp1d_:
    """scipy.interpolate.interp1d(kind='linear')"""

    def __init__(self, x, y, kind='linear', fill_value=None, bounds_error=None, **k):
        if kind != 'linear':
            raise Unsupported('interp1d kind')
        self.x = [asR(e) for e in to_sym(x).flat]
        self.y = [asR(e) for e in to_sym(y).flat]
        self.fill = fill_value

    def __call__(self, t):
        def one(t):
            t = asR(t)
            x, y, n = self.x, self.y, len(self.x)
            if n < 2:
                raise Unsupported('interp1d needs two points')
            r = None
            # searchsorted-left semantics of scipy: x[i-1] < t <= x[i], clipped
            for i in range(n - 1, 0, -1):
                v = y[i - 1] + (y[i] - y[i - 1]) / (x[i] - x[i - 1]) * (t - x[i - 1])
                r = v if r is None else core.Ite((t <= x[i]).e, v, r)
            return r
        if isinstance(t, np.ndarray) and t.ndim:
            return arr.emap(one, t)
        return one(elem(t))


class RegularGridInterpolator_:
    """scipy.interpolate.RegularGridInterpolator (linear, two dimensions) on known coordinates"""

    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=np.nan):
        self.p = [arr.as_const(q) for q in points]
        if method != 'linear' or len(self.p) != 2 or any(q is None for q in self.p):
            raise Unsupported('grid interpolation')
        for q in self.p:
            if not np.all(np.diff(q) > 0) and not np.all(np.diff(q) < 0):
                raise ValueError('The points in dimension 0 must be strictly ascending or descending')
        self.v = to_sym(values).view(np.ndarray)
        for ax, q in enumerate(self.p):
            if q[0] > q[-1]:
                self.p[ax] = q[::-1]
                self.v = np.flip(self.v, ax)
        self.bounds, self.fill = bounds_error, fill_value

    def __call__(self, xi):
        c = arr.as_const(xi)
        if c is None:
            raise Unsupported('grid interpolation at symbolic points')
        out = np.empty(len(c), dtype=object)
        for n, pt in enumerate(c):
            if any(t < q[0] or t > q[-1] for t, q in zip(pt, self.p)):
                if self.bounds:
                    raise ValueError('out of bounds')
                out[n] = asR(self.fill)
                continue
            k, w = [], []
            for t, q in zip(pt, self.p):
                i = min(max(int(np.searchsorted(q, t)) - 1, 0), len(q) - 2)
                k.append(i)
                w.append((t - q[i]) / (q[i + 1] - q[i]))
            (i, j), (a, b) = k, w
            r = asR(0.)
            for di, wa in ((0, 1 - a), (1, a)):
                for dj, wb in ((0, 1 - b), (1, b)):
                    if wa * wb != 0:
                        r = r + asR(self.v[i + di, j + dj]) * float(wa * wb)
            out[n] = core.flat(r)
        return out.view(arr.SymArray)


# ---------------------------------------------------------------- loader

class Loader:
    """A set of symbolic module copies.  Source text is read from the
    working tree when the loader is created (once per process and run)."""

    _code = {}

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.np = NumpyProxy()
        self.math = MathProxy()
        self.logging = LoggingProxy()
        self.numba = types.SimpleNamespace(njit=njit, jit=njit, prange=range, vectorize=njit)
        self.over = {
            'scipy.sparse': {'diags': sp_diags},
            'scipy.sparse.linalg': {'spsolve': sp_spsolve},
            'scipy.stats': {'norm': types.SimpleNamespace(cdf=norm_cdf, sf=lambda *a, **k: 1 - norm_cdf(*a, **k)), 'mode': Stub('mode')},
            'scipy.interpolate': {'interp1d': interp1d_, 'RegularGridInterpolator': RegularGridInterpolator_},
            'scipy.ndimage': {},
        }
        self._scipy = None
        b = dict(builtins.__dict__)
        b.update(__import__=self.import_, float=SymFloat, int=SymInt, bool=SymBoolType, max=sym_max, min=sym_min,
                 any=sym_any, all=sym_all, round=sym_round)
        b['print'] = lambda *a, **k: None
        self.builtins = b

    # -- proxied scipy tree
    def scipy(self):
        if self._scipy is None:
            import scipy
            import scipy.sparse
            import scipy.sparse.linalg
            import scipy.stats
            import scipy.interpolate
            import scipy.ndimage
            import scipy.special
            self.sp_linalg = ScipyProxy(scipy.sparse.linalg, self.over['scipy.sparse.linalg'])
            self.sp_sparse = ScipyProxy(scipy.sparse, dict(self.over['scipy.sparse'], linalg=self.sp_linalg))
            self.sp_stats = ScipyProxy(scipy.stats, self.over['scipy.stats'])
            self.sp_interp = ScipyProxy(scipy.interpolate, self.over['scipy.interpolate'])
            self.sp_nd = ScipyProxy(scipy.ndimage, self.over['scipy.ndimage'])
            self._scipy = ScipyProxy(scipy, dict(sparse=self.sp_sparse, stats=self.sp_stats, interpolate=self.sp_interp,
                                                 ndimage=self.sp_nd, special=scipy.special, misc=Stub('misc')))
            self.sp = {'scipy': self._scipy, 'scipy.sparse': self.sp_sparse, 'scipy.sparse.linalg': self.sp_linalg,
                       'scipy.stats': self.sp_stats, 'scipy.interpolate': self.sp_interp, 'scipy.ndimage': self.sp_nd}
        return self._scipy

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split('.')[0]
        if level and globals is not None:
            name = 'aeolis' + ('.' + name if name else '')
            top = 'aeolis'
        if top == 'aeolis':
            if name == 'aeolis':
                pkg = self.package()
                for f in fromlist or ():
                    if f != '*' and os.path.exists('%s/aeolis/%s.py' % (self.repo, f)):
                        self.load(f)
                return pkg
            m = self.load(name.split('.')[1])
            return m if fromlist else self.package()
        if top == 'numpy':
            if fromlist and name != 'numpy':
                return builtins.__import__(name, globals, locals, fromlist, 0)
            return self.np
        if top == 'numba':
            return self.numba
        if top == 'math':
            return self.math
        if top == 'logging':
            return self.logging
        if top == 'builtins':
            return types.SimpleNamespace(**self.builtins)
        if top in ('matplotlib', 'bmi', 'netCDF4', 'docopt', 'typer', 'webbrowser'):
            if top == 'bmi':
                s = Stub(name)
                s.__dict__['IBmi'] = object
                return s
            return Stub(name)
        if top == 'scipy':
            self.scipy()
            if fromlist:
                if name in self.sp:
                    return self.sp[name]
                return builtins.__import__(name, None, None, fromlist, 0)
            return self._scipy
        if top == 'warnings':
            return builtins.__import__(name, None, None, fromlist, 0)
        return builtins.__import__(name, None, None, fromlist, 0)

    def package(self):
        if 'aeolis' not in self.mods:
            p = types.ModuleType('aeolis')
            p.__path__ = ['%s/aeolis' % self.repo]
            self.mods['aeolis'] = p
        return self.mods['aeolis']

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = '%s/aeolis/%s.py' % (self.repo, name)
        if not os.path.exists(path):
            raise ImportError('no module aeolis.%s' % name)
        code = Loader._code.get(path)
        if code is None:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            tree = ast.parse(src, path)
            code = compile(tree, path, 'exec', dont_inherit=True)
            Loader._code[path] = code
        m = types.ModuleType('aeolis.' + name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = 'aeolis'
        self.mods[name] = m
        setattr(self.package(), name, m)
        exec(code, m.__dict__)
        if 'format_log' in m.__dict__ :
            m.__dict__['format_log'] = lambda *a, **k: ''
        return m

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return self.load(name)
