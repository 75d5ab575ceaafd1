"""Symbolic numpy arrays: an ndarray subclass of dtype object holding R/B
scalars, lazily masked selections (Sel), and the ufunc/function tables."""
import builtins
import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import R, B, Cx, Ite, asR, asB, Unsupported

ZERO = R(Fraction(0))
ONE = R(Fraction(1))
NAN = R(Fraction(0), na=True)


def issym(x):
    return isinstance(x, (SymArray, Sel, R, B, Cx))


def deep_sym(x, depth=0):
    if issym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and builtins.any(isinstance(e, (R, B, Cx)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 4:
        return builtins.any(deep_sym(e, depth + 1) for e in x)
    return False


def elem(x):
    """any scalar -> R / B / Cx (or unchanged when not numeric)"""
    if isinstance(x, (R, B, Cx)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return B(bool(x))
    r = asR(x)
    if r is not None:
        return r
    if isinstance(x, complex):
        return Cx.of(x)
    return x


class _Face(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, Sel))

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray) if isinstance(c, type) else False

    def __eq__(cls, o):
        return o is cls or o is np.ndarray or o is SymArray

    def __hash__(cls):
        return hash(np.ndarray)

    def __getattr__(cls, k):
        return getattr(SymArray, k)


class NDArrayFace(metaclass=_Face):
    """np.ndarray of the proxied numpy: isinstance/type checks against it
    accept every ndarray"""

    def __new__(cls, shape=(), dtype=None, **kw):
        return zeros(shape, dtype)


class SymArray(np.ndarray):
    _isint = False
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        self._isint = getattr(obj, '_isint', False)

    # numpy internals use the C-level dtype; python code sees this
    @property
    def dtype(self):
        if self.isbool():
            return np.dtype(bool)
        if self._isint:
            return np.dtype('int64')
        if self.size and isinstance(first(self), Cx):
            return np.dtype(complex)
        return np.dtype('float64')

    def isbool(self):
        return self.size > 0 and isinstance(first(self), B)

    # -- ufunc / function protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        if type(idx) is int or type(idx) is slice:
            return wrap(np.ndarray.__getitem__(self, idx))
        idx2, masks = norm_index(idx)
        if not masks:
            return wrap(np.ndarray.__getitem__(self, idx2))
        return mask_get(self, idx2, masks)

    def __setitem__(self, idx, val):
        idx2, masks = norm_index(idx)
        if not masks:
            if isinstance(val, Sel):
                val = val.realize()
            view = np.ndarray.__getitem__(self, idx2)
            if isinstance(view, np.ndarray) and is_basic(idx2):
                store(self, view, val)
            else:
                raw_set(self, idx2, val)
            return
        mask_set(self, idx2, masks, val)

    # -- methods numpy would resolve at C level
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return put_out(reduce_(add, self, axis, keepdims, ZERO, num=True, **kw), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(mul, self, axis, keepdims, ONE, num=True)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return mean_(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None, **kw):
        return reduce_(core.rmax, self, axis, keepdims, initial, num=True)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **kw):
        return reduce_(core.rmin, self, axis, keepdims, initial, num=True)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(operator.or_, tobool(self), axis, keepdims, B(False))

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(operator.and_, tobool(self), axis, keepdims, B(True))

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate_(add, self, axis, num=True)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate_(mul, self, axis, num=True)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(self.var(axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = mean_(self, axis, True)
        d = (self - m)
        n = self.size if axis is None else self.shape[axis]
        return reduce_(add, d * d, axis, keepdims, ZERO, num=True) / (n - ddof)

    def clip(self, min=None, max=None, out=None, **kw):
        return put_out(clip_(self, min, max), out)

    def astype(self, t, *a, **k):
        return cast(self, t)

    def round(self, decimals=0, out=None):
        return put_out(emap(lambda x: core.rround(asR(x), decimals), self), out)

    def argmax(self, axis=None, out=None, **kw):
        return argbest(self, axis, operator.gt)

    def argmin(self, axis=None, out=None, **kw):
        return argbest(self, axis, operator.lt)

    def nonzero(self):
        return np.ndarray.nonzero(force_bool(self))

    def dot(self, o, out=None):
        return dot_(self, o)

    def __matmul__(self, o):
        return dot_(self, o)

    def __rmatmul__(self, o):
        return dot_(o, self)

    def copy(self, order='C'):
        return wrap(np.ndarray.copy(self, order))

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return np.ndarray.tolist(self)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def repeat(self, n, axis=None):
        return wrap(np.ndarray.repeat(self, conc_int(n), axis))

    def reshape(self, *shape, **kw):
        shape = tuple(conc_int(s) if not isinstance(s, (tuple, list)) else tuple(conc_int(q) for q in s) for s in shape)
        return np.ndarray.reshape(self, *shape, **kw)

    def sort(self, axis=-1, **kw):
        self[...] = sort_(self, axis)

    def argsort(self, axis=-1, **kw):
        if self.ndim != 1:
            raise Unsupported('argsort')
        return argsort_(self)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted_(self, v, side)

    def trace(self, *a, **k):
        raise Unsupported('trace')

    @property
    def real(self):
        return emap(lambda x: x.re if isinstance(x, Cx) else asR(x), self)

    @property
    def imag(self):
        return emap(lambda x: x.im if isinstance(x, Cx) else ZERO, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat_first())
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def flat_first(self):
        return first(self)

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(first(self))

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(first(self))

    def __index__(self):
        return first(self).__index__()

    def __contains__(self, v):
        return bool((self == v).any())

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    # in-place operators keep storage (views!)
    def __iadd__(self, o):
        self[...] = self + o
        return self

    def __isub__(self, o):
        self[...] = self - o
        return self

    def __imul__(self, o):
        self[...] = self * o
        return self

    def __itruediv__(self, o):
        self[...] = self / o
        return self

    def __ifloordiv__(self, o):
        self[...] = self // o
        return self

    def __imod__(self, o):
        self[...] = self % o
        return self

    def __ipow__(self, o):
        self[...] = self ** o
        return self

    def __iand__(self, o):
        self[...] = self & o
        return self

    def __ior__(self, o):
        self[...] = self | o
        return self

    def __ixor__(self, o):
        self[...] = self ^ o
        return self

    def __pow__(self, o):
        return dispatch_ufunc(np.power, '__call__', (self, o), {})

    def __rpow__(self, o):
        return dispatch_ufunc(np.power, '__call__', (o, self), {})

    def __repr__(self):
        return 'Sym' + repr(np.ndarray.tolist(self))

    __str__ = __repr__


def first(a):
    return np.ndarray.__getitem__(a, (0,) * a.ndim)


def wrap(x):
    return x


def conc_int(n):
    if isinstance(n, (R, B)):
        return n.__index__()
    if isinstance(n, SymArray):
        if n.ndim == 0 or n.size == 1:
            return first(n).__index__()
        return [conc_int(e) for e in n.flat]
    return n


def is_basic(idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    return builtins.all(i is None or i is Ellipsis or isinstance(i, (slice, int, np.integer)) for i in idx)


def coerce_for(arr, v):
    """element conversion on store"""
    if arr.isbool():
        return asB(v)
    if isinstance(v, B):
        v = v.num()
    if arr._isint and isinstance(v, R):
        if v.const:
            return R(Fraction(math.trunc(v.v)))
        return core.rtrunc(v)
    return v


def tosym(v):
    """anything numeric -> SymArray / Sel"""
    if isinstance(v, (SymArray, Sel)):
        return v
    return to_sym(v)


def to_sym(v, isint=False):
    if isinstance(v, SymArray):
        return v
    if isinstance(v, Sel):
        return v.realize()
    if isinstance(v, np.ndarray):
        src = v
    elif isinstance(v, (R, B, Cx)):
        src = np.empty((), dtype=object)
        src[()] = v
    elif isinstance(v, (list, tuple)):
        parts = [to_sym(x) if isinstance(x, (list, tuple, np.ndarray, Sel)) else x for x in v]
        if parts and builtins.all(isinstance(x, np.ndarray) and x.ndim > 0 for x in parts):
            shp = parts[0].shape
            if builtins.any(x.shape != shp for x in parts):
                raise ValueError('setting an array element with a sequence')
            src = np.empty((len(parts),) + shp, dtype=object)
            for i, x in enumerate(parts):
                src[i] = x.view(np.ndarray)
        else:
            src = np.empty(len(parts), dtype=object)
            for i, x in enumerate(parts):
                if isinstance(x, np.ndarray):
                    x = x[()] if x.ndim == 0 else x
                src[i] = x
    else:
        src = np.asarray(v)
        if src.dtype == object and src.ndim == 0:
            e = elem(src[()])
            if e is v:
                raise Unsupported('array from %r' % type(v))
    out = np.empty(src.shape, dtype=object)
    for i in np.ndindex(*src.shape):
        out[i] = elem(np.ndarray.__getitem__(src, i))
    out = out.view(SymArray)
    if isint:
        out._isint = True
    return out


def raw_set(a, idx, val):
    """store with an advanced concrete index"""
    sel = np.ndarray.__getitem__(a, idx)
    shp = sel.shape if isinstance(sel, np.ndarray) else ()
    v = np.broadcast_to(to_sym(val).view(np.ndarray), shp)
    tmp = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        tmp[i] = coerce_for(a, np.ndarray.__getitem__(v, i))
    if not shp:
        np.ndarray.__setitem__(a, idx, tmp[()])
    else:
        np.ndarray.__setitem__(a, idx, tmp)


def store(owner, view, val):
    """store into a (basic) view"""
    shp = view.shape
    v = val if isinstance(val, SymArray) else to_sym(val)
    v = v.view(np.ndarray)
    if v.ndim > len(shp):
        while v.ndim > len(shp) and v.shape[0] == 1:
            v = v[0]
    try:
        v = np.broadcast_to(v, shp)
    except ValueError:
        raise ValueError('could not broadcast input array from shape %s into shape %s' % (v.shape, shp))
    tmp = [coerce_for(owner, np.ndarray.__getitem__(v, i)) for i in np.ndindex(*shp)]
    raw = view.view(np.ndarray)
    for i, e in zip(np.ndindex(*shp), tmp):
        raw[i] = e


# ---------------------------------------------------------------- indexing

def norm_index(idx):
    """-> index with concrete parts, list of positions of symbolic masks"""
    tup = idx if isinstance(idx, tuple) else (idx,)
    out, masks = [], []
    for i in tup:
        if isinstance(i, Sel):
            i = i.realize()
        if isinstance(i, R):
            i = i.__index__()
        elif isinstance(i, B):
            i = bool(i)
        elif isinstance(i, np.ndarray) and not isinstance(i, SymArray) and i.dtype == object:
            i = to_sym(i)
        elif isinstance(i, list) and deep_sym(i):
            i = to_sym(i)
        elif isinstance(i, slice):
            i = slice(*[conc_int(q) for q in (i.start, i.stop, i.step)])
        if isinstance(i, SymArray):
            if i.isbool():
                if builtins.all(isinstance(e.e, bool) for e in i.flat):
                    i = np.array([e.e for e in i.flat], dtype=bool).reshape(i.shape)
                else:
                    masks.append(len(out))
            elif i.size == 0:
                i = np.zeros(i.shape, dtype=bool) if i.ndim > 1 else np.zeros(i.shape, dtype=int)
            else:
                i = np.array([e.__index__() for e in i.flat], dtype=int).reshape(i.shape)
        out.append(i)
    res = tuple(out) if isinstance(idx, tuple) else out[0]
    return res, masks


def _axis_index(a, idx):
    """expand the mask item into full slices; returns (basic index, mask, axis in result)"""
    tup = list(idx) if isinstance(idx, tuple) else [idx]
    mpos = [k for k, i in enumerate(tup) if isinstance(i, SymArray)]
    return tup, mpos


def mask_get(a, idx, masks):
    tup, mpos = _axis_index(a, idx)
    if len(mpos) > 1:
        tup2 = [force_bool(i) if isinstance(i, SymArray) else i for i in tup]
        return np.ndarray.__getitem__(a, tuple(tup2))
    k = mpos[0]
    mask = tup[k]
    others = tup[:k] + tup[k + 1:]
    if builtins.any(isinstance(i, (np.ndarray, list)) for i in others):
        tup[k] = force_bool(mask)
        return np.ndarray.__getitem__(a, tuple(tup))
    # ellipsis expansion
    nd = a.ndim
    used = mask.ndim + builtins.sum(1 for i in others if i is not None and i is not Ellipsis)
    if Ellipsis in [i if i is Ellipsis else 0 for i in others]:
        e = [j for j, i in enumerate(tup) if i is Ellipsis][0]
        tup[e:e + 1] = [slice(None)] * (nd - used)
        k = [j for j, i in enumerate(tup) if isinstance(i, SymArray)][0]
    before = tup[:k]
    # shape check like numpy
    ax0 = builtins.sum(1 for i in before if i is not None)
    if a.shape[ax0:ax0 + mask.ndim] != mask.shape:
        raise IndexError('boolean index did not match indexed array: %s vs %s' % (mask.shape, a.shape))
    full = tup[:k] + [slice(None)] * mask.ndim + tup[k + 1:]
    data = np.ndarray.__getitem__(a, tuple(full))
    # result axis of the mask in the basic-indexed array
    ax = builtins.sum(1 for i in before if not isinstance(i, (int, np.integer)))
    ints_after = [isinstance(i, (int, np.integer)) for i in tup[k + 1:]]
    ints_before = [isinstance(i, (int, np.integer)) for i in before]
    # numpy moves the selection axis to the front when the advanced
    # indices (ints count) are separated by a slice
    adv = [j for j, i in enumerate(tup) if isinstance(i, (int, np.integer)) or isinstance(i, SymArray)]
    split = adv and (adv[-1] - adv[0] + 1 != len(adv))
    shp = data.shape
    flat = np.ndarray.reshape(data, shp[:ax] + (mask.size,) + shp[ax + mask.ndim:])
    if split:
        flat = np.moveaxis(flat.view(np.ndarray), ax, 0).view(SymArray)
        ax = 0
    return Sel(flat, [e for e in mask.flat], ax)


def mask_set(a, idx, masks, val):
    tup, mpos = _axis_index(a, idx)
    if len(mpos) > 1 or builtins.any(isinstance(i, (np.ndarray, list)) for j, i in enumerate(tup) if j not in mpos):
        tup2 = tuple(force_bool(i) if isinstance(i, SymArray) else i for i in tup)
        if isinstance(val, Sel):
            val = val.realize()
        raw_set(a, tup2, val)
        return
    cur = mask_get(a, idx, masks)          # Sel over current content
    k = mpos[0]
    mask = tup[k]
    n = len(cur.mask)
    if isinstance(val, Sel):
        if val.samemask(cur) and val.compatible(cur):
            new = val.data
        else:
            v = val.realize()
            force_set(a, tup, k, v)
            return
    else:
        v = val if isinstance(val, SymArray) else to_sym(val)
        # does val carry a selection axis?
        nd = cur.data.ndim
        ax = cur.axis
        pos = ax - (nd - v.ndim)
        if pos >= 0 and v.shape[pos] != 1:
            force_set(a, tup, k, v)
            return
        new = v
    new = np.broadcast_to(new.view(np.ndarray), cur.data.shape)
    res = np.empty(cur.data.shape, dtype=object)
    for i in np.ndindex(*cur.data.shape):
        m = cur.mask[i[cur.axis]]
        res[i] = Ite(m.e, coerce_for(a, np.ndarray.__getitem__(new, i)), np.ndarray.__getitem__(cur.data, i))
    # write back through the basic view
    tup = list(tup)
    if Ellipsis in [i if i is Ellipsis else 0 for i in tup if not isinstance(i, SymArray)]:
        used = mask.ndim + builtins.sum(1 for i in tup if not isinstance(i, SymArray) and i is not None and i is not Ellipsis)
        e = [j for j, i in enumerate(tup) if i is Ellipsis][0]
        tup[e:e + 1] = [slice(None)] * (a.ndim - used)
        k = [j for j, i in enumerate(tup) if isinstance(i, SymArray)][0]
    full = tup[:k] + [slice(None)] * mask.ndim + tup[k + 1:]
    view = np.ndarray.__getitem__(a, tuple(full)).view(np.ndarray)
    adv = [j for j, i in enumerate(tup) if isinstance(i, (int, np.integer)) or isinstance(i, SymArray)]
    if adv and (adv[-1] - adv[0] + 1 != len(adv)):
        ax = builtins.sum(1 for i in tup[:k] if not isinstance(i, (int, np.integer)))
        res = np.moveaxis(res, 0, ax)
    view[...] = res.reshape(view.shape)


def force_set(a, tup, k, v):
    tup = list(tup)
    tup[k] = force_bool(tup[k])
    raw_set(a, tuple(tup), v)


def force_bool(a):
    """fork on every element of a symbolic boolean array"""
    out = np.zeros(a.shape, dtype=bool)
    raw = a.view(np.ndarray)
    for i in np.ndindex(*a.shape):
        out[i] = bool(np.ndarray.__getitem__(raw, i))
    return out


class Sel:
    """a[mask] with a symbolic mask: full-width data, the mask (list of B)
    and the axis that the mask selects from"""
    __array_priority__ = 200

    def __init__(self, data, mask, axis):
        self.data = data
        self.mask = mask
        self.axis = axis

    def samemask(self, o):
        if len(self.mask) != len(o.mask):
            return False
        for x, y in zip(self.mask, o.mask):
            if x is y or x.e is y.e:
                continue
            if isinstance(x.e, bool) or isinstance(y.e, bool):
                return False
            if not x.e.eq(y.e):
                return False
        return True

    def compatible(self, o):
        # selection axes line up counted from the end
        return self.data.ndim - self.axis == o.data.ndim - o.axis

    def realize(self):
        keep = [bool(m) for m in self.mask]
        idx = (slice(None),) * self.axis + (np.array(keep, dtype=bool),)
        return np.ndarray.__getitem__(self.data, idx)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def dtype(self):
        return self.data.dtype

    def __getitem__(self, idx):
        tup = idx if isinstance(idx, tuple) else (idx,)
        # slices on other axes, or trailing/leading newaxis
        if builtins.all(i is None or isinstance(i, (slice, int)) for i in tup):
            ax, out_ax, ok = 0, 0, True
            newaxis = None
            for i in tup:
                if i is None:
                    out_ax += 1
                    continue
                if ax == self.axis:
                    if not (isinstance(i, slice) and i == slice(None)):
                        ok = False
                        break
                    newaxis = out_ax
                    out_ax += 1
                else:
                    if isinstance(i, slice):
                        out_ax += 1
                ax += 1
            if ok:
                if newaxis is None:
                    newaxis = out_ax + (self.axis - ax)
                return Sel(self.data[idx], self.mask, newaxis)
        return self.realize()[idx]

    def __setitem__(self, idx, v):
        # writing into a temporary copy, as numpy would
        r = self.realize()
        r[idx] = v
        self.data, self.mask, self.axis = r, [B(True)] * r.shape[0], 0

    def __len__(self):
        if self.axis == 0:
            return len(self.realize())
        return self.data.shape[0]

    def __iter__(self):
        return iter(self.realize())

    @property
    def shape(self):
        return self.realize().shape

    @property
    def size(self):
        n = ZERO
        for m in self.mask:
            n = n + m.num()
        rest = self.data.size // builtins.max(len(self.mask), 1)
        n = n * rest
        return n if not n.const else int(n.v)

    def copy(self):
        return Sel(self.data.copy(), self.mask, self.axis)

    def astype(self, t):
        return Sel(self.data.astype(t), self.mask, self.axis)

    def repeat(self, n, axis=None):
        if axis is not None and (axis % self.data.ndim) != self.axis:
            return Sel(self.data.repeat(n, axis=axis), self.mask, self.axis)
        return self.realize().repeat(n, axis=axis)

    def flatten(self):
        if self.data.ndim == 1:
            return self.copy()
        return self.realize().flatten()
    ravel = flatten

    def _red(self, f, axis, keepdims, init, num=False):
        d = self.data
        if axis is not None and not isinstance(axis, tuple):
            ax = axis % d.ndim
            if ax != self.axis:
                res = reduce_(f, d, ax, keepdims, init, num)
                nax = self.axis - (1 if ax < self.axis and not keepdims else 0)
                return Sel(res, self.mask, nax)
        elif isinstance(axis, tuple):
            return reduce_(f, self.realize(), axis, keepdims, init, num)
        if init is None:
            return reduce_(f, self.realize(), axis, keepdims, init, num)
        masked = np.empty(d.shape, dtype=object)
        for i in np.ndindex(*d.shape):
            x = np.ndarray.__getitem__(d, i)
            if num:
                x = asR(x) if not isinstance(x, Cx) else x
            masked[i] = Ite(self.mask[i[self.axis]].e, x, init)
        return reduce_(f, masked.view(SymArray), axis, keepdims, init, num)

    def sum(self, axis=None, keepdims=False, **kw):
        return self._red(add, axis, keepdims, ZERO, True)

    def any(self, axis=None, keepdims=False, **kw):
        return Sel(tobool(self.data), self.mask, self.axis)._red(operator.or_, axis, keepdims, B(False))

    def all(self, axis=None, keepdims=False, **kw):
        return Sel(tobool(self.data), self.mask, self.axis)._red(operator.and_, axis, keepdims, B(True))

    def max(self, axis=None, keepdims=False, **kw):
        return self._red(core.rmax, axis, keepdims, None, True)

    def min(self, axis=None, keepdims=False, **kw):
        return self._red(core.rmin, axis, keepdims, None, True)

    def mean(self, axis=None, keepdims=False, **kw):
        return mean_(self.realize(), axis, keepdims)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realize(), name)

    def __bool__(self):
        return bool(self.realize())

    def __float__(self):
        return float(self.realize())

    def __repr__(self):
        return 'Sel(%r|%r)' % (self.data, self.mask)


def _selop(name, uf, swap=False):
    def f(self, o):
        args = (o, self) if swap else (self, o)
        return dispatch_ufunc(uf, '__call__', args, {})
    setattr(Sel, name, f)


for _n, _u in [('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide),
               ('floordiv', np.floor_divide), ('mod', np.remainder), ('pow', np.power), ('and', np.bitwise_and),
               ('or', np.bitwise_or), ('xor', np.bitwise_xor)]:
    _selop('__%s__' % _n, _u)
    _selop('__r%s__' % _n, _u, True)
for _n, _u in [('lt', np.less), ('le', np.less_equal), ('gt', np.greater), ('ge', np.greater_equal),
               ('eq', np.equal), ('ne', np.not_equal)]:
    _selop('__%s__' % _n, _u)
Sel.__neg__ = lambda s: dispatch_ufunc(np.negative, '__call__', (s,), {})
Sel.__abs__ = lambda s: dispatch_ufunc(np.absolute, '__call__', (s,), {})
Sel.__invert__ = lambda s: dispatch_ufunc(np.invert, '__call__', (s,), {})
Sel.__hash__ = lambda s: id(s)


# ---------------------------------------------------------------- ufuncs

def add(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return a | b
    return a + b


def mul(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return a & b
    return a * b


def num(f):
    def g(*a):
        return f(*[x if isinstance(x, Cx) else asR(x) for x in a])
    return g


def _bool2(f):
    def g(a, b):
        return f(asB(a), asB(b))
    return g


def _bit(f):
    def g(a, b):
        if isinstance(a, B) or isinstance(b, B):
            return f(asB(a), asB(b))
        raise Unsupported('bitwise operation on reals')
    return g


def _fabs(x):
    if isinstance(x, Cx):
        return core.rsqrt(x.re * x.re + x.im * x.im)
    return abs(asR(x))


def _minus1(x):
    return asR(x) - 1


UF = {
    'add': add, 'subtract': num(operator.sub), 'multiply': mul, 'true_divide': num(operator.truediv),
    'divide': num(operator.truediv), 'floor_divide': num(operator.floordiv), 'remainder': num(operator.mod),
    'mod': num(operator.mod), 'power': num(lambda a, b: a ** b), 'float_power': num(lambda a, b: a ** b),
    'negative': num(operator.neg), 'positive': lambda x: x,
    'absolute': _fabs, 'fabs': _fabs,
    'less': num(operator.lt), 'less_equal': num(operator.le), 'greater': num(operator.gt),
    'greater_equal': num(operator.ge),
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': _bool2(operator.and_), 'logical_or': _bool2(operator.or_), 'logical_xor': _bool2(operator.xor),
    'logical_not': lambda a: ~asB(a), 'invert': lambda a: ~asB(a), 'bitwise_not': lambda a: ~asB(a),
    'bitwise_and': _bit(operator.and_), 'bitwise_or': _bit(operator.or_), 'bitwise_xor': _bit(operator.xor),
    'maximum': core.rmax, 'minimum': core.rmin, 'fmax': core.rfmax, 'fmin': core.rfmin,
    'sqrt': num(core.rsqrt), 'square': num(lambda x: x * x), 'cbrt': num(lambda x: x ** R(Fraction(1, 3))),
    'exp': num(lambda x: core.uf('exp', x)), 'log': num(lambda x: core.uf('log', x)),
    'expm1': num(lambda x: core.uf('exp', x) - 1), 'log1p': num(lambda x: core.uf('log', x + 1)),
    'log10': num(lambda x: core.uf('log', x) * R(core.frac(1 / math.log(10)))),
    'log2': num(lambda x: core.uf('log', x) * R(core.frac(1 / math.log(2)))),
    'exp2': num(lambda x: core.uf('exp', x * R(core.frac(math.log(2))))),
    'tanh': num(lambda x: core.uf('tanh', x)), 'sin': num(core.rsin), 'cos': num(core.rcos), 'tan': num(core.rtan),
    'sinh': num(lambda x: core.uf('sinh', x)), 'cosh': num(lambda x: core.uf('cosh', x)),
    'arcsin': num(lambda x: core.uf('arcsin', x)), 'arccos': num(lambda x: core.uf('arccos', x)),
    'arctan': num(lambda x: core.uf('arctan', x)), 'arctan2': num(core.rarctan2),
    'hypot': num(lambda a, b: core.rsqrt(a * a + b * b)),
    'deg2rad': num(lambda x: x * R(core.frac(math.pi / 180))), 'radians': num(lambda x: x * R(core.frac(math.pi / 180))),
    'rad2deg': num(lambda x: x * R(core.frac(180 / math.pi))), 'degrees': num(lambda x: x * R(core.frac(180 / math.pi))),
    'floor': num(core.rfloor), 'ceil': num(lambda x: -core.rfloor(-x)), 'trunc': num(core.rtrunc),
    'rint': num(lambda x: core.rround(x)), 'sign': num(core.rsign),
    'isnan': num(lambda x: B(x.na)), 'isinf': num(lambda x: B(core.bor(x.pi, x.ni))),
    'isfinite': num(lambda x: B(x.finite())), 'reciprocal': num(lambda x: ONE / x),
    'conjugate': lambda x: Cx(x.re, -x.im) if isinstance(x, Cx) else x,
    'heaviside': num(lambda x, h: Ite((x < 0).e, ZERO, Ite((x > 0).e, ONE, h))),
    'copysign': num(lambda x, y: Ite((y < 0).e, -abs(x), abs(x))),
    'fmod': num(lambda x, y: x - y * core.rtrunc(x / y)),
    'signbit': num(lambda x: x < 0),
}
INIT = {'add': ZERO, 'multiply': ONE, 'logical_or': B(False), 'logical_and': B(True), 'bitwise_or': B(False),
        'bitwise_and': B(True)}


def emap(f, *arrays, guard=None):
    arrays = [a if isinstance(a, SymArray) else to_sym(a) for a in arrays]
    raws = [a.view(np.ndarray) for a in arrays]
    shp = np.broadcast_shapes(*[a.shape for a in raws])
    bro = [np.broadcast_to(a, shp) for a in raws]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        if guard is not None:
            g = guard(i)
            if g is not None:
                core.ctx().guards.append(g)
                try:
                    out[i] = f(*[np.ndarray.__getitem__(a, i) for a in bro])
                finally:
                    core.ctx().guards.pop()
                continue
        out[i] = f(*[np.ndarray.__getitem__(a, i) for a in bro])
    return out.view(SymArray)


def sel_call(f, inputs):
    sels = [x for x in inputs if isinstance(x, Sel)]
    s0 = sels[0]
    ok = builtins.all(s.samemask(s0) and s.compatible(s0) for s in sels[1:])
    nd = builtins.max(s.data.ndim for s in sels)
    tail = s0.data.ndim - s0.axis          # position of the selection axis from the end
    args = []
    if ok:
        for x in inputs:
            if isinstance(x, Sel):
                args.append(x.data)
                continue
            a = x if isinstance(x, SymArray) else to_sym(x)
            if a.ndim >= tail and a.shape[a.ndim - tail] != 1:
                ok = False
                break
            args.append(a)
    if not ok:
        return emap(f, *[x.realize() if isinstance(x, Sel) else x for x in inputs])
    rnd = builtins.max(a.ndim for a in args)
    ax = rnd - tail
    m = s0.mask

    def guard(i):
        e = m[i[ax]].e
        return None if e is True else e
    data = emap(f, *args, guard=guard)
    return Sel(data, m, ax)


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    f = UF.get(name)
    out = kw.get('out')
    if isinstance(out, tuple):
        out = out[0]
    where = kw.get('where', True)
    if f is None:
        if name == 'matmul':
            return dot_(*inputs)
        if name == 'divmod':
            return (dispatch_ufunc(np.floor_divide, method, inputs, {}), dispatch_ufunc(np.remainder, method, inputs, {}))
        raise Unsupported('ufunc %s' % name)
    if method == '__call__':
        inputs = [x for x in inputs]
        if builtins.any(isinstance(x, str) or x is None for x in inputs):
            if name == 'equal':
                return False
            if name == 'not_equal':
                return True
            raise TypeError('unsupported operand types for %s' % name)
        if builtins.any(isinstance(x, Sel) for x in inputs):
            res = sel_call(f, inputs)
        elif builtins.all(not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple)) for x in inputs):
            return f(*[elem(x) for x in inputs])
        else:
            if where is not True and out is not None:
                w = to_sym(where)
                outb = to_sym(out)
                shp = np.broadcast_shapes(*[np.shape(x) for x in inputs], w.shape)
                wb = np.broadcast_to(w.view(np.ndarray), shp)
                ob = np.broadcast_to(outb.view(np.ndarray), shp)
                res = emap(f, *inputs, guard=lambda i: asB(np.ndarray.__getitem__(wb, i)).e if not isinstance(asB(np.ndarray.__getitem__(wb, i)).e, bool) else None)
                res = emap(lambda c, a, b: Ite(asB(c).e, a, b), wb, np.broadcast_to(res.view(np.ndarray), shp), ob)
            elif where is not True:
                raise Unsupported('ufunc where without out')
            else:
                res = emap(f, *inputs)
        if out is not None:
            return put_out(res, out)
        if isinstance(res, SymArray) and res.ndim == 0:
            return first(res)
        return res
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        init = kw.get('initial', INIT.get(name))
        if name in ('logical_or', 'logical_and'):
            a = tobool(a)
        if isinstance(a, Sel):
            return a._red(f, axis, keep, init, name not in ('logical_or', 'logical_and', 'bitwise_or', 'bitwise_and'))
        if isinstance(a, (list, tuple)):
            a = to_sym(list(a))
        if init is not None:
            init = elem(init)
        w = kw.get('where', True)
        if w is not True:
            a = emap(lambda c, x: Ite(asB(c).e, x, init), w, a)
        return put_out(reduce_(f, a, axis, keep, init, num=name in ('add', 'multiply', 'maximum', 'minimum')), out)
    if method == 'accumulate':
        return put_out(accumulate_(f, inputs[0], kw.get('axis', 0), num=True), out)
    if method == 'outer':
        a, b = to_sym(inputs[0]), to_sym(inputs[1])
        return emap(f, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        idx, masks = norm_index(idx)
        if masks:
            raise Unsupported('ufunc.at with a symbolic mask')
        v = np.broadcast_to(to_sym(inputs[2]).view(np.ndarray), np.shape(np.empty(a.shape)[idx]))
        lin = np.arange(a.size).reshape(a.shape)[idx]
        raw = a.view(np.ndarray)
        for j in np.ndindex(*lin.shape):
            t = np.unravel_index(int(lin[j]), a.shape)
            raw[t] = f(raw[t], v[j])
        return None
    raise Unsupported('ufunc method %s' % method)


def put_out(res, out):
    if out is None:
        return res
    if isinstance(out, tuple):
        out = out[0]
    if not isinstance(out, SymArray):
        if isinstance(out, np.ndarray) and out.dtype != object:
            raise Unsupported('symbolic result into a concrete array')
        out = out.view(SymArray)
    out[...] = res
    return out


def reduce_(f, a, axis, keepdims, init=None, num=False, where=True, initial=None, **kw):
    if isinstance(a, Sel):
        return a._red(f, axis, keepdims, init, num)
    a = to_sym(a)
    if initial is not None:
        init = elem(initial)
    if init is not None:
        init = elem(init)
    if where is not True:
        if init is None:
            raise Unsupported('masked reduction without initial')
        a = emap(lambda c, x: Ite(asB(c).e, x, init), where, a)
    raw = a.view(np.ndarray)
    if num and a.isbool():
        raw = emap(asR, a).view(np.ndarray)

    def red(seq):
        it = list(seq)
        if not it:
            if init is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            return init
        r = it[0]
        if init is not None and f in (core.rmax, core.rmin):
            r = f(init, r)
        for x in it[1:]:
            r = f(r, x)
        return r
    keepdims = bool(keepdims) if not isinstance(keepdims, type(np._NoValue)) else False
    if axis is None:
        r = red(raw.flat)
        if keepdims:
            return to_sym([r]).reshape((1,) * a.ndim)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    if a.ndim == 0:
        axes = tuple(x for x in axes if x not in (0, -1))       # numpy accepts these for scalars
    axes = sorted({int(x) % a.ndim if -a.ndim <= int(x) < a.ndim else _axerr(x) for x in axes})
    rest = [i for i in range(a.ndim) if i not in axes]
    t = raw.transpose(rest + axes)
    shp = tuple(a.shape[i] for i in rest)
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        sub = t[i]
        out[i] = red(sub.flat if isinstance(sub, np.ndarray) else [sub])
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    out = out.view(SymArray)
    if out.ndim == 0:
        return first(out)
    return out


def _axerr(x):
    raise np.AxisError('axis %s is out of bounds' % (x,))


def accumulate_(f, a, axis, num=False):
    if isinstance(a, Sel):
        a = a.realize()
    a = to_sym(a)
    if num and a.isbool():
        a = emap(asR, a)
    if axis is None:
        a = a.flatten()
        axis = 0
    raw = np.moveaxis(a.view(np.ndarray), axis, 0)
    out = np.empty(raw.shape, dtype=object)
    for j in np.ndindex(*raw.shape[1:]):
        acc = None
        for k in range(raw.shape[0]):
            x = raw[(k,) + j]
            acc = x if acc is None else f(acc, x)
            out[(k,) + j] = acc
    return np.ascontiguousarray(np.moveaxis(out, 0, axis)).view(SymArray)


def mean_(a, axis, keepdims):
    a = to_sym(a)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = int(np.prod([a.shape[i] for i in axis]))
    else:
        n = a.shape[axis]
    s = reduce_(add, a, axis, keepdims, ZERO, num=True)
    if n == 0:
        return NAN
    return s / n


def tobool(a):
    if isinstance(a, Sel):
        return Sel(tobool(a.data), a.mask, a.axis)
    a = to_sym(a)
    if a.isbool():
        return a
    return emap(asB, a)


def clip_(a, lo, hi):
    r = a
    if lo is not None:
        r = dispatch_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = dispatch_ufunc(np.minimum, '__call__', (r, hi), {})
    return r


def cast_scalar(x, t):
    k = kind_of(t)
    if k == 'b':
        return asB(x)
    if k == 'i':
        return core.rtrunc(asR(x))
    return asR(x)


def kind_of(t):
    if t is None:
        return 'f'
    if isinstance(t, type):
        n = t.__name__
        if n in ('bool', 'bool_', 'SymBoolType'):
            return 'b'
        if n in ('int', 'SymInt') or issubclass(t, np.integer):
            return 'i'
        if n in ('float', 'SymFloat') or issubclass(t, np.floating):
            return 'f'
        if n == 'object':
            return 'f'
        if n == 'complex':
            return 'c'
        if n == 'str':
            return 'U'
    try:
        k = np.dtype(t).kind
    except TypeError:
        k = 'f'
    return {'u': 'i', 'O': 'f'}.get(k, k)


def cast(a, t):
    k = kind_of(t)
    if k == 'b':
        return tobool(a).copy()
    if k == 'i':
        r = emap(lambda x: core.rtrunc(asR(x)), a)
        r._isint = True
        return r
    if k == 'f':
        r = emap(lambda x: asR(x), a)
        r._isint = False
        return r
    if k == 'c':
        return emap(Cx.of, a)
    raise Unsupported('cast to %r' % (t,))


def argbest(a, axis, op):
    a = to_sym(a)
    if a.isbool():
        a = emap(asR, a)
    if axis is None:
        it = list(a.flat)
        return _argbest(it, op)
    raw = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(raw.shape[:-1], dtype=int)
    for j in np.ndindex(*raw.shape[:-1]):
        out[j] = _argbest(list(raw[j]), op)
    return out if out.ndim else int(out)


def _argbest(it, op):
    if not it:
        raise ValueError('attempt to get argmax of an empty sequence')
    b = 0
    for i in range(1, len(it)):
        x, y = it[i], it[b]
        if y.na is not False and bool(B(y.na)):
            return b
        c = op(x, y)
        if x.na is not False:
            c = c | B(x.na)
        if bool(c):
            b = i
    return b


def sort_(a, axis=-1):
    a = to_sym(a)
    raw = np.moveaxis(a.view(np.ndarray), axis, -1).copy()
    for j in np.ndindex(*raw.shape[:-1]):
        row = list(raw[j])
        n = len(row)
        for p in range(n):
            for q in range(n - 1 - p):
                x, y = row[q], row[q + 1]
                row[q], row[q + 1] = core.rmin(x, y), core.rmax(x, y)
        for k in range(n):
            raw[j + (k,)] = row[k]
    return np.ascontiguousarray(np.moveaxis(raw, -1, axis)).view(SymArray)


def argsort_(a):
    idx = []
    raw = a.view(np.ndarray)
    for i in range(a.shape[0]):
        k = len(idx)
        while k > 0 and bool(asR(raw[i]) < asR(raw[idx[k - 1]])):
            k -= 1
        idx.insert(k, i)
    return np.array(idx, dtype=int)


def searchsorted_(a, v, side='left'):
    a = to_sym(a)

    def one(x):
        n = ZERO
        for e in a.flat:
            c = (asR(e) < asR(x)) if side == 'left' else (asR(e) <= asR(x))
            n = n + c.num()
        return n
    if isinstance(v, np.ndarray) and v.ndim or isinstance(v, (list, tuple)):
        r = emap(one, v)
        r._isint = True
        return r
    return one(elem(v[()] if isinstance(v, np.ndarray) else v))


def dot_(a, b):
    a, b = to_sym(a), to_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return dispatch_ufunc(np.multiply, '__call__', (a, b), {})
    ra, rb = a.view(np.ndarray), b.view(np.ndarray)
    if b.ndim == 1:
        cols = rb.reshape(-1, 1)
    else:
        cols = rb
    if b.ndim > 2:
        raise Unsupported('dot of >2-d')
    if ra.shape[-1] != cols.shape[0]:
        raise ValueError('shapes not aligned')
    lead = ra.shape[:-1]
    out = np.empty(lead + (cols.shape[1],), dtype=object)
    for i in np.ndindex(*lead):
        for j in range(cols.shape[1]):
            s = ZERO
            for k in range(ra.shape[-1]):
                s = s + asR(ra[i + (k,)]) * asR(cols[k, j])
            out[i + (j,)] = s
    if b.ndim == 1:
        out = out.reshape(lead)
    out = out.view(SymArray)
    return first(out) if out.ndim == 0 else out


# ------------------------------------------------------------- functions

FN = {}


def implements(name):
    def deco(f):
        FN[name] = f
        return f
    return deco


def _meth(name):
    def f(a, *args, **kw):
        kw = {k: v for k, v in kw.items() if v is not np._NoValue}
        if not isinstance(a, (SymArray, Sel)):
            a = to_sym(a)
        return getattr(a, name)(*args, **kw)
    return f


for _k, _m in dict(sum='sum', prod='prod', mean='mean', amax='max', amin='min', max='max', min='min', any='any',
                   all='all', cumsum='cumsum', cumprod='cumprod', std='std', var='var', argmax='argmax',
                   argmin='argmin', nonzero='nonzero', round_='round', around='round', round='round',
                   sometrue='any', alltrue='all', product='prod', argsort='argsort').items():
    FN[_k] = _meth(_m)


@implements('average')
def _average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return mean_(a, axis, False)
    a, w = to_sym(a), to_sym(weights)
    if w.ndim < a.ndim:
        shp = [1] * a.ndim
        shp[axis] = w.shape[0]
        w = w.reshape(tuple(shp)) * np.ones(a.shape)
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def _nanrepl(a, repl):
    a = to_sym(a)
    return emap(lambda x: Ite(asR(x).na, repl, asR(x)), a)


def _strip(x):
    return R(x.v, x.pi, x.ni, False)


@implements('nansum')
def _nansum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = emap(lambda x: _strip(Ite(asR(x).na, ZERO, asR(x))), to_sym(a))
    return a.sum(axis=axis, keepdims=False if keepdims is np._NoValue else keepdims)


@implements('nanmean')
def _nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if keepdims is np._NoValue:
        keepdims = False
    a = to_sym(a)
    s = _nansum(a, axis, keepdims=keepdims)
    n = reduce_(add, emap(lambda x: B(core.bnot(asR(x).na)).num(), a), axis, keepdims, ZERO)
    return s / n


def _nanbest(f, empty):
    def g(a, axis=None, out=None, keepdims=False, **kw):
        if keepdims is np._NoValue:
            keepdims = False
        return reduce_(f, to_sym(a), axis, keepdims, None, num=True)
    return g


FN['nanmax'] = _nanbest(core.rfmax, None)
FN['nanmin'] = _nanbest(core.rfmin, None)


def _nanarg(op):
    def g(a, axis=None, **kw):
        a = to_sym(a)
        if axis is not None and a.ndim > 1:
            raise Unsupported('nanarg with axis')
        b = None
        it = list(a.flat)
        for i, x in enumerate(it):
            x = asR(x)
            if x.na is not False and bool(B(x.na)):
                continue
            if b is None or bool(op(x, asR(it[b]))):
                b = i
        if b is None:
            raise ValueError('All-NaN slice encountered')
        return b
    return g


FN['nanargmin'] = _nanarg(operator.lt)
FN['nanargmax'] = _nanarg(operator.gt)


@implements('where')
def _where(c, *xy):
    if not xy:
        return tobool(c).nonzero()
    x, y = xy
    if builtins.any(isinstance(v, Sel) for v in (c, x, y)):
        return sel_call(lambda c, a, b: Ite(asB(c).e, a, b), [c, x, y])
    r = emap(lambda c, a, b: Ite(asB(c).e, *_same(a, b)), tobool(c), to_sym(x), to_sym(y))
    return first(r) if r.ndim == 0 else r


def _same(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return a, b
    if isinstance(a, Cx) or isinstance(b, Cx):
        return a, b
    return asR(a), asR(b)


@implements('clip')
def _clip(a, a_min=None, a_max=None, out=None, **kw):
    return put_out(clip_(a if isinstance(a, (SymArray, Sel)) else to_sym(a), a_min, a_max), out)


@implements('argwhere')
def _argwhere(a):
    return np.argwhere(force_bool(tobool(a)))


@implements('flatnonzero')
def _flatnonzero(a):
    return np.flatnonzero(force_bool(tobool(a)))


@implements('count_nonzero')
def _count_nonzero(a, axis=None, keepdims=False):
    return reduce_(add, emap(lambda x: x.num(), tobool(a)), axis, keepdims, ZERO)


@implements('zeros_like')
def _zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    shape = shape if shape is not None else (a.shape)
    if dtype is None:
        dtype = a.dtype
    return zeros(shape, dtype)


@implements('empty_like')
def _empty_like(a, dtype=None, *x, shape=None, **k):
    return _zeros_like(a, dtype, shape=shape)


@implements('ones_like')
def _ones_like(a, dtype=None, order='K', subok=True, shape=None):
    return full(shape if shape is not None else a.shape, ONE, dtype if dtype is not None else a.dtype)


@implements('full_like')
def _full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    return full(shape if shape is not None else a.shape, fill_value, dtype if dtype is not None else a.dtype)


@implements('copy')
def _copy(a, *x, **k):
    return a.copy()


@implements('diff')
def _diff(a, n=1, axis=-1, **kw):
    a = to_sym(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


@implements('gradient')
def _gradient(f, *varargs, axis=None, edge_order=1):
    f = to_sym(f)
    axes = range(f.ndim) if axis is None else ([axis] if isinstance(axis, int) else list(axis))
    axes = list(axes)
    if len(varargs) == 0:
        sp = [ONE] * len(axes)
    elif len(varargs) == 1:
        sp = [varargs[0]] * len(axes)
    else:
        sp = list(varargs)
    outs = []
    for ax, h in zip(axes, sp):
        if np.ndim(h) > 0:
            raise Unsupported('gradient with coordinates')
        g = np.moveaxis(f.view(np.ndarray), ax, 0)
        out = np.empty(g.shape, dtype=object)
        n = g.shape[0]
        for i in np.ndindex(*g.shape[1:]):
            for k in range(n):
                if k == 0:
                    v = (asR(g[(1,) + i]) - g[(0,) + i]) / h
                elif k == n - 1:
                    v = (asR(g[(n - 1,) + i]) - g[(n - 2,) + i]) / h
                else:
                    v = (asR(g[(k + 1,) + i]) - g[(k - 1,) + i]) / (2 * asR(h))
                out[(k,) + i] = v
        outs.append(np.ascontiguousarray(np.moveaxis(out, 0, ax)).view(SymArray))
    return outs[0] if len(outs) == 1 else outs


@implements('interp')
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp with period')
    xp, fp = to_sym(xp).flatten(), to_sym(fp).flatten()
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    n = len(xp)
    xs = [asR(e) for e in xp.flat]
    fs = [asR(e) for e in fp.flat]
    left = fs[0] if left is None else elem(left)
    right = fs[-1] if right is None else elem(right)

    def one(t):
        t = asR(t)
        # numpy: largest j with xp[j] <= x
        r = Ite((t == xs[-1]).e, fs[-1], right)
        for j in range(n - 2, -1, -1):
            d = xs[j + 1] - xs[j]
            inside = (t < xs[j + 1])
            core.ctx().guards.append(core.zb(core.band((t >= xs[j]).e, inside.e)))
            try:
                v = fs[j] + (fs[j + 1] - fs[j]) / d * (t - xs[j])
            finally:
                core.ctx().guards.pop()
            r = Ite(inside.e, v, r)
        r = Ite((t < xs[0]).e, left, r)
        if n == 1:
            r = Ite((t < xs[0]).e, left, Ite((t > xs[0]).e, right, fs[0]))
        return r
    if isinstance(x, np.ndarray) and x.ndim or isinstance(x, (list, tuple)):
        return emap(one, x)
    return one(elem(x[()] if isinstance(x, np.ndarray) else x))


@implements('isclose')
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = emap(lambda x, y: abs(asR(x) - asR(y)) <= asR(atol) + asR(rtol) * abs(asR(y)), a, b)
    return first(r) if r.ndim == 0 else r


@implements('allclose')
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, SymArray) else r


@implements('array_equal')
def _array_equal(a, b, equal_nan=False):
    a, b = to_sym(a), to_sym(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


@implements('dot')
def _dot(a, b, out=None):
    return dot_(a, b)


FN['matmul'] = lambda a, b: dot_(a, b)
FN['inner'] = lambda a, b: dot_(a, to_sym(b).T if np.ndim(b) > 1 else b)


@implements('outer')
def _outer(a, b, out=None):
    a, b = to_sym(a).flatten(), to_sym(b).flatten()
    return a.reshape((-1, 1)) * b.reshape((1, -1))


@implements('sort')
def _sort(a, axis=-1, **k):
    if isinstance(a, Sel):
        a = a.realize()
    return sort_(a, axis)


@implements('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    return searchsorted_(a, v, side)


@implements('digitize')
def _digitize(x, bins, right=False):
    return searchsorted_(bins, x, 'left' if right else 'right')


@implements('median')
def _median(a, axis=None, **kw):
    a = to_sym(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    s = np.moveaxis(sort_(a, axis).view(np.ndarray), axis, 0)
    n = s.shape[0]
    if n % 2:
        r = s[n // 2]
    else:
        r = emap(lambda x, y: (asR(x) + asR(y)) / 2, s[n // 2 - 1], s[n // 2])
    return r.view(SymArray) if isinstance(r, np.ndarray) and r.ndim else (first(r) if isinstance(r, np.ndarray) else r)


@implements('trapz')
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = to_sym(y)
    d = _diff(x) if x is not None else dx
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return (d * (y[tuple(s1)] + y[tuple(s2)]) / 2).sum(axis=axis)


@implements('ptp')
def _ptp(a, axis=None, **k):
    a = to_sym(a)
    return a.max(axis=axis) - a.min(axis=axis)


@implements('real')
def _real(a):
    return a.real


@implements('imag')
def _imag(a):
    return a.imag


@implements('nan_to_num')
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = asR(1.7976931348623157e308)
    pi = big if posinf is None else asR(posinf)
    ni = -big if neginf is None else asR(neginf)
    f = lambda e: R(Ite(e.na, asR(nan), Ite(e.pi, pi, Ite(e.ni, ni, R(e.v)))).v)
    if not isinstance(x, np.ndarray):
        return f(elem(x))
    r = emap(lambda e: f(asR(e)), x)
    if not copy:
        x[...] = r
        return x
    return r


@implements('shape')
def _shape(a):
    return a.shape


@implements('size')
def _size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@implements('ndim')
def _ndim(a):
    return a.ndim


@implements('isreal')
def _isreal(a):
    return emap(lambda x: B(True), a)


@implements('iscomplexobj')
def _iscomplexobj(a):
    return a.size > 0 and isinstance(first(a), Cx)


@implements('unique')
def _unique(a, **k):
    raise Unsupported('unique')


def _listy(name):
    real = getattr(np, name)

    def f(arrs, *a, **k):
        arrs = [x.realize() if isinstance(x, Sel) else to_sym(x) for x in arrs]
        return real([x.view(np.ndarray) for x in arrs], *a, **k).view(SymArray)
    return f


for _k in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack'):
    FN[_k] = _listy(_k)
FN['row_stack'] = FN['vstack']


@implements('insert')
def _insert(a, obj, values, axis=None):
    a = to_sym(a)
    v = to_sym(values)
    return np.insert(a.view(np.ndarray), conc_int(obj), v.view(np.ndarray) if v.ndim else first(v), axis=axis).view(SymArray)


@implements('append')
def _append(a, values, axis=None):
    a, v = to_sym(a), to_sym(values)
    if axis is None:
        return FN['concatenate']([a.flatten(), v.flatten()])
    return FN['concatenate']([a, v], axis=axis)


@implements('pad')
def _pad(a, pad_width, mode='constant', **kw):
    a = to_sym(a)
    if mode == 'constant':
        cv = kw.get('constant_values', 0)
        if np.ndim(cv) == 0:
            cv = elem(cv)
            pw = np.broadcast_to(np.asarray(pad_width), (a.ndim, 2))
            out = full(tuple(a.shape[i] + int(pw[i].sum()) for i in range(a.ndim)), cv)
            out[tuple(slice(int(pw[i][0]), int(pw[i][0]) + a.shape[i]) for i in range(a.ndim))] = a
            return out
        raise Unsupported('pad with several constants')
    if kw.get('reflect_type') == 'odd':
        c = as_const(a)
        if c is None:
            raise Unsupported('odd reflection of symbolic values')
        return np.pad(c, pad_width, mode=mode, **kw)
    idx = np.arange(a.size).reshape(a.shape)
    idx = np.pad(idx, pad_width, mode=mode, **kw)
    return np.ndarray.__getitem__(a.flatten(), idx)


def as_const(a):
    """plain float array if no element is symbolic, else None"""
    a = to_sym(a)
    out = np.empty(a.shape)
    for i in np.ndindex(*a.shape):
        e = asR(np.ndarray.__getitem__(a, i))
        if e is None or e.flagged or not isinstance(e.v, Fraction):
            return None
        out[i] = float(e.v)
    return out


@implements('polyfit')
def _polyfit(x, y, deg, **k):
    x, y = as_const(x), as_const(y)
    if x is None or y is None:
        raise Unsupported('fit through symbolic points')
    return np.polyfit(x, y, deg, **k)


def _clean(w):
    """exact zeros, halves and ones"""
    for v in (w.real, w.imag):
        r = np.round(v * 2) / 2
        np.copyto(v, r, where=(v != r) & (abs(v - r) < 1e-15))
    return w


def dft(a, axes, inverse=False):
    """discrete Fourier transform of linear forms, coefficients in double precision like the library"""
    a = to_sym(a).view(np.ndarray)
    memo, forms = {}, []
    for e in a.flat:
        e = Cx.of(e)
        for r in (e.re, e.im):
            if r.flagged:
                raise Unsupported('transform of undefined values')
            d = {}
            core.linear_form(r.v, d, Fraction(1), memo)
            forms.append(d)
    keys = sorted({k for d in forms for k in d}, key=lambda k: -1 if k is None else k)
    pos = {k: n for n, k in enumerate(keys)}
    M = np.zeros((a.size, len(keys)), dtype=complex)
    for n, d in enumerate(forms):
        for k, v in d.items():
            M[n // 2, pos[k]] += float(v) * (1j if n % 2 else 1)
    M = M.reshape(a.shape + (len(keys),))
    for ax in axes:
        n = a.shape[ax]
        w = _clean(np.exp((2j if inverse else -2j) * np.pi * np.outer(np.arange(n), np.arange(n)) / n))
        M = np.moveaxis(np.tensordot(w, M, (1, ax % a.ndim)), 0, ax % a.ndim)
        if inverse:
            M = M / n
    M = M.reshape((-1, len(keys)))
    out = np.empty(a.size, dtype=object)
    for n in range(a.size):
        out[n] = Cx(*[core.from_form({k: float(v) for k, v in zip(keys, row)}, memo) for row in (M[n].real, M[n].imag)])
    return out.reshape(a.shape).view(SymArray)


class FFT:
    def __getattr__(self, k):
        return getattr(np.fft, k)

    @staticmethod
    def _f(name, axes, inv):
        def f(a, *x, **k):
            if not deep_sym(a):
                return getattr(np.fft, name)(a, *x, **k)
            if x or k:
                raise Unsupported('arguments of fft')
            return dft(a, axes, inv)
        return f


for _n, _a, _i in (('fft', (-1,), False), ('ifft', (-1,), True), ('fft2', (-1, -2), False), ('ifft2', (-1, -2), True),
                   ):
    setattr(FFT, _n, staticmethod(FFT._f(_n, _a, _i)))


@implements('meshgrid')
def _meshgrid(*xi, indexing='xy', **kw):
    ar = [to_sym(x).flatten() for x in xi]
    ids = np.meshgrid(*[np.arange(len(x)) for x in ar], indexing=indexing, **kw)
    return [np.ndarray.__getitem__(x, i) for x, i in zip(ar, ids)]


def _structural(name):
    real = getattr(np, name)

    def f(a, *args, **kw):
        if isinstance(a, Sel):
            a = a.realize()
        a = to_sym(a)
        args = [conc_int(x) if isinstance(x, (R, SymArray)) else x for x in args]
        r = real(a.view(np.ndarray), *args, **kw)
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        if isinstance(r, (list, tuple)):
            return type(r)(x.view(SymArray) if isinstance(x, np.ndarray) else x for x in r)
        return r
    return f


for _k in ('reshape', 'ravel', 'transpose', 'repeat', 'tile', 'roll', 'flip', 'fliplr', 'flipud', 'moveaxis', 'swapaxes',
           'squeeze', 'expand_dims', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'rot90', 'diagonal',
           'array_split', 'split', 'delete', 'take', 'resize', 'rollaxis', 'tril', 'triu'):
    FN[_k] = _structural(_k)


@implements('broadcast_arrays')
def _broadcast_arrays(*a, **k):
    return [x.view(SymArray) for x in np.broadcast_arrays(*[to_sym(y).view(np.ndarray) for y in a])]


@implements('select')
def _select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return r


@implements('piecewise')
def _piecewise(x, condlist, funclist, *a, **k):
    raise Unsupported('piecewise')


@implements('copyto')
def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@implements('putmask')
def _putmask(a, mask, values):
    a[...] = _where(mask, values, a)


@implements('place')
def _place(a, mask, vals):
    raise Unsupported('place')


@implements('ix_')
def _ix(*a):
    return np.ix_(*[conc_int(x) for x in a])


@implements('diag')
def _diag(v, k=0):
    v = to_sym(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        out = zeros((n, n))
        for i in range(len(v)):
            out[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return out
    return np.diag(v.view(np.ndarray), k).view(SymArray)


@implements('linspace')
def _linspace(a, b, num=50, endpoint=True, **k):
    a, b = asR(a), asR(b)
    num = conc_int(num)
    d = num - 1 if endpoint else num
    return to_sym([a + (b - a) * R(Fraction(i, max(d, 1))) for i in range(num)])


@implements('cross')
def _cross(*a, **k):
    raise Unsupported('cross')


def dispatch_function(func, args, kwargs):
    f = FN.get(func.__name__)
    if f is None:
        raise Unsupported('numpy function %s' % func.__name__)
    return f(*args, **kwargs)


# ---------------------------------------------------------------- creation

def _shp(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(conc_int(s)) for s in shape)
    if isinstance(shape, np.ndarray) and shape.ndim:
        return tuple(int(s) for s in shape)
    return (int(conc_int(shape)),)


def full(shape, v, dtype=None):
    shape = _shp(shape)
    k = kind_of(dtype) if dtype is not None else None
    if isinstance(v, np.ndarray) and v.ndim:
        a = np.broadcast_to(to_sym(v), shape).copy().view(SymArray)
        return cast(a, dtype) if dtype is not None else a
    v = elem(v[()] if isinstance(v, np.ndarray) else v)
    if k == 'b':
        v = asB(v)
    elif k in ('f', 'i'):
        v = asR(v)
        if k == 'i':
            v = core.rtrunc(v)
    elif k == 'c':
        v = Cx.of(v)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = v
    out = out.view(SymArray)
    if k == 'i':
        out._isint = True
    return out


def zeros(shape, dtype=None, order='C', **kw):
    if dtype is not None and kind_of(dtype) in ('U', 'S', 'V', 'M', 'm'):
        return np.zeros(shape, dtype)
    return full(shape, ZERO, dtype if dtype is not None else float)


def to_float(a, val):
    """evaluate a symbolic array with val: R/B -> python number"""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    out = np.empty(a.shape)
    raw = a.view(np.ndarray)
    for i in np.ndindex(*a.shape):
        out[i] = val(np.ndarray.__getitem__(raw, i))
    return out


class SymMatrix(SymArray):
    """np.matrix look-alike: * is the matrix product, indexing keeps 2-d"""

    def __mul__(self, o):
        o2 = to_sym(o)
        if o2.ndim == 0:
            return dispatch_ufunc(np.multiply, '__call__', (self, o), {}).view(SymMatrix)
        if o2.ndim == 1:
            o2 = o2.reshape((1, -1))
        return to_sym(dot_(self.view(SymArray), o2.view(SymArray))).view(SymMatrix)

    def __rmul__(self, o):
        o2 = to_sym(o)
        if o2.ndim == 0:
            return dispatch_ufunc(np.multiply, '__call__', (self, o), {}).view(SymMatrix)
        if o2.ndim == 1:
            o2 = o2.reshape((1, -1))
        return to_sym(dot_(o2.view(SymArray), self.view(SymArray))).view(SymMatrix)

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and len(idx) == 2:
            i, j = idx
            if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
                return np.ndarray.__getitem__(self, idx)
            if isinstance(i, (int, np.integer)):
                i = slice(i, i + 1 or None)
            if isinstance(j, (int, np.integer)):
                j = slice(j, j + 1 or None)
            return np.ndarray.__getitem__(self, (i, j))
        if isinstance(idx, (int, np.integer)):
            return np.ndarray.__getitem__(self, (slice(idx, idx + 1 or None), slice(None)))
        return SymArray.__getitem__(self, idx)


def asmatrix(x):
    a = to_sym(x)
    if a.ndim == 1:
        a = a.reshape((1, -1))
    return a.view(SymMatrix)
