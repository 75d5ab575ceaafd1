"""Scalars of the symbolic execution: extended reals (R) and booleans (B)
over z3 terms, path context with decision replay, and the solver front end."""
import math
import time
from fractions import Fraction

import z3

from . import lin

CTX = None          # current context (one at a time per process)


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(Exception):
    """The engine cannot encode an operation."""


class Inconclusive(Exception):
    """The solver could not decide within its budget."""


def ctx():
    if CTX is None:
        raise Unsupported('no symbolic context')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- booleans
# "e" is a python bool or a z3 BoolRef

def band(*es):
    out = []
    for e in es:
        if e is False:
            return False
        if e is True:
            continue
        out.append(e)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*es):
    out = []
    for e in es:
        if e is True:
            return True
        if e is False:
            continue
        out.append(e)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(e):
    if e is True:
        return False
    if e is False:
        return True
    if z3.is_not(e):
        return e.arg(0)
    return z3.Not(e)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def zr(v):
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    return v


def frac(x):
    """python number -> Fraction, decimal reading of floats"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


class B:
    __slots__ = ('e',)

    def __init__(self, e):
        if isinstance(e, B):
            e = e.e
        if not isinstance(e, (bool, z3.BoolRef)):
            e = bool(e)
        self.e = e

    def __bool__(self):
        if isinstance(self.e, bool):
            return self.e
        return ctx().branch(self.e)

    def __and__(self, o):
        o = asB(o)
        return NotImplemented if o is None else B(band(self.e, o.e))
    __rand__ = __and__

    def __or__(self, o):
        o = asB(o)
        return NotImplemented if o is None else B(bor(self.e, o.e))
    __ror__ = __or__

    def __xor__(self, o):
        o = asB(o)
        return NotImplemented if o is None else B(bite(self.e, bnot(o.e), o.e))
    __rxor__ = __xor__

    def __invert__(self):
        return B(bnot(self.e))

    def num(self):
        if isinstance(self.e, bool):
            return R(Fraction(int(self.e)))
        return Ite(self.e, R(Fraction(1)), R(Fraction(0)))

    def __add__(self, o):
        if isinstance(o, B):
            return self | o
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, B):
            return self & o
        return self.num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - (o.num() if isinstance(o, B) else o)

    def __rsub__(self, o):
        return o - self.num()

    def __truediv__(self, o):
        return self.num() / o

    def __rtruediv__(self, o):
        return o / self.num()

    def __neg__(self):
        return -self.num()

    def __eq__(self, o):
        if isinstance(o, (B, bool)):
            return ~(self ^ o)
        return self.num() == o

    def __ne__(self, o):
        return ~(self == o)

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'B(%s)' % (self.e,)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)


def asB(x):
    import numpy as _np
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return B(bool(x))
    if isinstance(x, R):
        return x != 0
    if isinstance(x, (int, float, _np.number)):
        return B(bool(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return asB(x[()])
    return None


# ---------------------------------------------------------------- reals

class R:
    """extended real: value v where no flag holds, flags pi/ni/na for
    +inf / -inf / nan (python False when ruled out syntactically)"""
    __slots__ = ('v', 'pi', 'ni', 'na')

    def __init__(self, v, pi=False, ni=False, na=False):
        self.v = v
        self.pi = pi
        self.ni = ni
        self.na = na

    # -- structure
    @property
    def flagged(self):
        return not (self.pi is False and self.ni is False and self.na is False)

    @property
    def const(self):
        return isinstance(self.v, Fraction) and isinstance(self.pi, bool) \
            and isinstance(self.ni, bool) and isinstance(self.na, bool)

    def special(self):
        return bor(self.pi, self.ni, self.na)

    def finite(self):
        return bnot(self.special())

    def pyfloat(self):
        if not self.const:
            raise Unsupported('concrete value of a symbolic real needed')
        if self.na:
            return math.nan
        if self.pi:
            return math.inf
        if self.ni:
            return -math.inf
        return float(self.v)

    # -- arithmetic
    def __neg__(self):
        return R(-self.v if isinstance(self.v, Fraction) else -self.v, self.ni, self.pi, self.na)

    def __pos__(self):
        return self

    def __abs__(self):
        if not self.flagged:
            if isinstance(self.v, Fraction):
                return R(abs(self.v))
            return Ite(bool_lt0(self.v), R(-self.v), self)
        return Ite(B(band(bnot(self.na), bor(self.ni, band(bnot(self.pi), zlt(self.v, Fraction(0)))))).e, -self, self)

    def __add__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        v = vadd(self.v, o.v)
        if not self.flagged and not o.flagged:
            return R(v)
        na = bor(self.na, o.na, band(self.pi, o.ni), band(self.ni, o.pi))
        pi = band(bor(self.pi, o.pi), bnot(na))
        ni = band(bor(self.ni, o.ni), bnot(na))
        return R(v, pi, ni, na)
    __radd__ = __add__

    def __sub__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        v = vmul(self.v, o.v)
        if not self.flagged and not o.flagged:
            return R(v)
        inf = bor(self.pi, self.ni, o.pi, o.ni)
        xz = band(self.finite(), veq0(self.v))
        yz = band(o.finite(), veq0(o.v))
        na = bor(self.na, o.na, band(inf, bor(xz, yz)))
        xn = bor(self.ni, band(bnot(self.pi), zlt(self.v, Fraction(0))))
        yn = bor(o.ni, band(bnot(o.pi), zlt(o.v, Fraction(0))))
        neg = bite(xn, bnot(yn), yn)
        pi = band(inf, bnot(na), bnot(neg))
        ni = band(inf, bnot(na), neg)
        return R(v, pi, ni, na)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rdiv(self, o)

    def __rtruediv__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rdiv(o, self)

    def __floordiv__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rfloordiv(self, o)[0]

    def __rfloordiv__(self, o):
        return rfloordiv(asR(o), self)[0]

    def __mod__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rfloordiv(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return rfloordiv(asR(o), self)[1]

    def __divmod__(self, o):
        return rfloordiv(self, asR(o))

    def __pow__(self, o, mod=None):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rpow(self, o)

    def __rpow__(self, o):
        return rpow(asR(o), self)

    # -- comparison
    def __lt__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rlt(self, o)

    def __gt__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rlt(o, self)

    def __le__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rle(self, o)

    def __ge__(self, o):
        o = asR(o)
        if o is None:
            return NotImplemented
        return rle(o, self)

    def __eq__(self, o):
        o = asR(o)
        if o is None:
            return B(False)
        return req(self, o)

    def __ne__(self, o):
        o = asR(o)
        if o is None:
            return B(True)
        return ~req(self, o)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        return self.pyfloat() if self.const else _leak('float')

    def __complex__(self):
        return complex(self.pyfloat())

    def __int__(self):
        t = rtrunc(self)
        if t.const:
            return int(t.v)
        return ctx().concretize_int(t)

    __trunc__ = __int__

    def __index__(self):
        if self.const and self.v.denominator == 1:
            return int(self.v)
        return ctx().concretize_int(self)

    def __round__(self, n=None):
        if self.const:
            r = round(self.v, n) if n is not None else round(self.v)
            return R(Fraction(r))
        return rround(self, n or 0)

    def __floor__(self):
        return rfloor(self)

    def __ceil__(self):
        return -rfloor(-self)

    def __repr__(self):
        if self.const:
            return 'R(%s)' % self.pyfloat()
        return 'R(%s%s)' % (str(self.v)[:60], '!' if self.flagged else '')

    def __format__(self, spec):
        return repr(self)

    # numpy scalar look-alikes
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(Fraction(0))

    @property
    def dtype(self):
        import numpy as _np
        return _np.dtype('float64')

    def item(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return req(rfloor(self), self)

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, t)

    def _same(self, *a, **k):
        return self
    sum = mean = max = min = conjugate = _same

    def flatten(self):
        from . import arr
        return arr.to_sym([self])

    def repeat(self, n, axis=None):
        from . import arr
        return arr.to_sym([self] * int(n))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    # object-dtype ufunc fallbacks (np.sqrt on plain object arrays)
    def sqrt(self):
        return rsqrt(self)

    def exp(self):
        return uf('exp', self)

    def log(self):
        return uf('log', self)

    def tan(self):
        return uf('tan', self)

    def sin(self):
        return rsin(self)

    def cos(self):
        return rcos(self)

    def tanh(self):
        return uf('tanh', self)


def _leak(what):
    raise Unsupported('symbolic value needs a concrete %s' % what)


def asR(x):
    import numpy as _np
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        return x.num()
    if isinstance(x, Fraction):
        return R(x)
    if isinstance(x, (bool, int)):
        return R(Fraction(int(x)))
    if isinstance(x, float):
        x = float(x)
        if x != x:
            return R(Fraction(0), na=True)
        if x in (math.inf, -math.inf):
            return R(Fraction(0), pi=x > 0, ni=x < 0)
        return R(Fraction(repr(float(x))))
    if isinstance(x, (_np.bool_, _np.integer)):
        return R(Fraction(int(x)))
    if isinstance(x, _np.floating):
        return asR(float(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return asR(x[()])
    if isinstance(x, complex) and x.imag == 0:
        return asR(x.real)
    return None


def vadd(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a + b
        if a == 0:
            return b
        return zr(a) + b
    if isinstance(b, Fraction):
        if b == 0:
            return a
        return a + zr(b)
    return a + b


def vmul(a, b):
    if isinstance(b, Fraction):
        a, b = b, a
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a * b
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            # keep multiplications by constants inside ite leaves linear
            pass
        return zr(a) * b
    return a * b


def veq0(v):
    if isinstance(v, Fraction):
        return v == 0
    return v == 0


def zlt(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    r = zr(a) < zr(b)
    return fold(r)


def zle(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a <= b
    if not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
        return True
    return fold(zr(a) <= zr(b))


def zeq(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    if not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
        return True
    return fold(zr(a) == zr(b))


def fold(e):
    """cheap constant folding of a comparison"""
    if CTX is None or not CTX.simplify_cmp:
        return e
    s = z3.simplify(e, som=True)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return e


def bool_lt0(v):
    return zlt(v, Fraction(0))


def Ite(c, a, b):
    """merge of two R / B under condition c (bool or BoolRef or B)"""
    if isinstance(c, B):
        c = c.e
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return B(bite(c, a.e, b.e))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(Ite(c, a.re, b.re), Ite(c, a.im, b.im))
    a, b = asR(a), asR(b)
    if a is None or b is None:
        raise Unsupported('merge of non-numeric values')
    c = CTX.decide(c)
    if c is True:
        return a
    if c is False:
        return b
    if CTX.fork_ites and not CTX.guards and not same(a, b):
        return a if CTX.branch(c) else b
    if isinstance(a.v, Fraction) and isinstance(b.v, Fraction) and a.v == b.v:
        v = a.v
    elif not isinstance(a.v, Fraction) and not isinstance(b.v, Fraction) and a.v.eq(b.v):
        v = a.v
    else:
        v = z3.If(c, zr(a.v), zr(b.v))
    if not a.flagged and not b.flagged:
        return R(v)
    return R(v, CTX.prune(bite(c, a.pi, b.pi)), CTX.prune(bite(c, a.ni, b.ni)),
             CTX.prune(bite(c, a.na, b.na)))


def same(a, b):
    if a.flagged or b.flagged:
        return False
    if isinstance(a.v, Fraction) or isinstance(b.v, Fraction):
        return isinstance(a.v, Fraction) and isinstance(b.v, Fraction) and a.v == b.v
    return a.v.eq(b.v)


def rlt(x, y):
    if not x.flagged and not y.flagged:
        return B(zlt(x.v, y.v))
    return B(band(bnot(bor(x.na, y.na)),
                  bor(band(x.ni, bnot(y.ni)), band(y.pi, bnot(x.pi)),
                      band(x.finite(), y.finite(), zlt(x.v, y.v)))))


def rle(x, y):
    if not x.flagged and not y.flagged:
        return B(zle(x.v, y.v))
    return B(band(bnot(bor(x.na, y.na)),
                  bor(x.ni, y.pi, band(x.finite(), y.finite(), zle(x.v, y.v)))))


def req(x, y):
    if not x.flagged and not y.flagged:
        return B(zeq(x.v, y.v))
    return B(band(bnot(bor(x.na, y.na)),
                  bor(band(x.pi, y.pi), band(x.ni, y.ni),
                      band(x.finite(), y.finite(), zeq(x.v, y.v)))))


def rdiv(x, y):
    c = CTX
    if isinstance(y.v, Fraction) and not y.flagged:
        if y.v != 0:
            return x * R(1 / y.v)
        z = zeq(x.v, Fraction(0))
        if not x.flagged:
            return R(Fraction(0), band(bnot(z), zlt(Fraction(0), x.v)), zlt(x.v, Fraction(0)), z)
        na = bor(x.na, band(x.finite(), z))
        return R(Fraction(0),
                 band(bnot(na), bor(x.pi, band(x.finite(), zlt(Fraction(0), x.v)))),
                 band(bnot(na), bor(x.ni, band(x.finite(), zlt(x.v, Fraction(0))))), na)
    yz = zeq(y.v, Fraction(0))
    if y.flagged:
        yz = band(y.finite(), yz)
    if not c.may(yz):
        yz = False
    if isinstance(y.v, Fraction) and y.v == 0:
        inv = Fraction(0)
    elif isinstance(y.v, Fraction):
        inv = 1 / y.v
    else:
        inv = c.inverse(y.v, yz is False)
    v = vmul(x.v, inv)
    if yz is False and not x.flagged and not y.flagged:
        return R(v)
    xz = band(x.finite(), zeq(x.v, Fraction(0)))
    xpos = bor(x.pi, band(x.finite(), zlt(Fraction(0), x.v)))
    xneg = bor(x.ni, band(x.finite(), zlt(x.v, Fraction(0))))
    xinf = bor(x.pi, x.ni)
    yinf = bor(y.pi, y.ni)
    yneg = bor(y.ni, band(y.finite(), zlt(y.v, Fraction(0))))
    na = bor(x.na, y.na, band(xinf, yinf), band(xz, yz))
    inf = bor(band(xinf, bnot(yinf)), band(yz, bnot(xz)))
    neg = bite(yneg, bnot(xneg), xneg)
    # finite / inf = 0
    v = Ite(yinf, R(Fraction(0)), R(v)).v if yinf is not False else v
    return R(v, c.prune(band(inf, bnot(na), bnot(neg))), c.prune(band(inf, bnot(na), neg)), c.prune(na))


def rfloor(x):
    if isinstance(x.v, Fraction):
        return R(Fraction(math.floor(x.v)), x.pi, x.ni, x.na)
    return R(z3.ToReal(z3.ToInt(x.v)), x.pi, x.ni, x.na)


def rtrunc(x):
    if isinstance(x.v, Fraction):
        return R(Fraction(math.trunc(x.v)), x.pi, x.ni, x.na)
    return Ite(zlt(x.v, Fraction(0)), -rfloor(-x), rfloor(x))


def rround(x, n=0):
    """round half to even"""
    s = Fraction(10) ** n
    if x.const:
        if x.flagged:
            return x
        return R(Fraction(round(x.v * s)) / s)
    y = x * R(s)
    f = rfloor(y)
    d = y - f
    half = R(Fraction(1, 2))
    even = req(rfloor(f / R(Fraction(2))) * 2, f)
    up = (d > half) | ((d == half) & ~even)
    return Ite(up, f + 1, f) / R(s)


def rfloordiv(x, y):
    if x.flagged or y.flagged:
        if not (x.const and y.const):
            raise Unsupported('floor division of extended values')
        r = divmod(x.pyfloat(), y.pyfloat())
        return asR(r[0]), asR(r[1])
    if isinstance(y.v, Fraction) and y.v != 0:
        q = rfloor(x / y)
        c = ctx()
        if not isinstance(q.v, Fraction) and c.fork_ites and not c.guards:
            for k in (0, 1, -1, 2, -2):
                if c.branch(zr(q.v) == k):
                    q = R(Fraction(k))
                    break
        return q, x - q * y
    if isinstance(y.v, Fraction):
        d = rdiv(x, y)
        return d, R(Fraction(0), na=True)
    yz = zeq(y.v, Fraction(0))
    may0 = ctx().may(yz)
    k = ctx().fresh_int('fdiv')
    kr = z3.ToReal(k)
    rem = zr(x.v) - kr * y.v
    ctx().axiom(z3.Implies(y.v > 0, z3.And(rem >= 0, rem < y.v)))
    ctx().axiom(z3.Implies(y.v < 0, z3.And(rem <= 0, rem > y.v)))
    if not may0:
        return R(kr), R(rem)
    return (R(kr, band(yz, zlt(Fraction(0), x.v)), band(yz, zlt(x.v, Fraction(0))), band(yz, zeq(x.v, Fraction(0)))),
            R(rem, na=yz))


def rsqrt(x):
    if x.const and x.finite() is True:
        if x.v < 0:
            return R(Fraction(0), na=True)
        n, d = math.isqrt(x.v.numerator), math.isqrt(x.v.denominator)
        if n * n == x.v.numerator and d * d == x.v.denominator:
            return R(Fraction(n, d))
        return R(frac(math.sqrt(x.v)))
    if x.const:
        return R(Fraction(0), pi=x.pi, na=bor(x.na, x.ni))
    neg = zlt(x.v, Fraction(0))
    if x.flagged:
        neg = band(x.finite(), neg)
    if not ctx().may(neg):
        neg = False
    r = ctx().sqrt_var(x.v, neg is False)
    if neg is False and not x.flagged:
        return R(r)
    return R(r, x.pi, False, ctx().prune(bor(x.na, x.ni, neg)))


def rpow(x, y):
    if y.const and not y.flagged:
        e = y.v
        if e.denominator == 1:
            n = int(e)
            if 0 <= n <= 8:
                r = R(Fraction(1))
                for _ in range(n):
                    r = r * x
                return r
            if -8 <= n < 0:
                return rdiv(R(Fraction(1)), rpow(x, R(Fraction(-n))))
        if e.denominator == 2 and abs(e) < 8:
            n = int(math.floor(e))
            h = rsqrt(x)
            if n >= 0:
                r = h
                for _ in range(n):
                    r = r * x
                return r
            return rdiv(R(Fraction(1)), rpow(x, R(-e)))
        if x.const and not x.flagged:
            if x.v < 0:
                return R(Fraction(0), na=True)
            if x.v == 0:
                return R(Fraction(0), pi=e < 0)
            return R(frac(float(x.v) ** float(e)))
        return uf('pow|%s' % e, x)
    if x.const and y.const:
        return asR(float(x.pyfloat()) ** float(y.pyfloat()))
    if x.const and not x.flagged and x.v > 0:
        # b**y = exp(y ln b)
        return uf('exp', y * R(frac(math.log(float(x.v)))))
    if not x.flagged and not y.flagged and not ctx().may(zle(x.v, Fraction(0))):
        return uf('exp', y * uf('log', x))
    return uf2('pow', x, y)


# ------------------------------------------------ transcendental functions

UF_REAL = {
    'exp': lambda x: math.exp(x) if x < 700 else math.inf,
    'log': math.log, 'tan': math.tan, 'tanh': math.tanh,
    'sin': math.sin, 'cos': math.cos, 'arctan': math.atan,
    'sinh': math.sinh, 'cosh': math.cosh, 'arcsin': math.asin, 'arccos': math.acos,
    'normcdf': lambda x: 0.5 * math.erfc(-x / math.sqrt(2)),
}


def uf_eval(name, x):
    if name.startswith('pow|'):
        return float(x) ** float(Fraction(name[4:]))
    return UF_REAL[name](x)


MONO = {'exp': 1, 'log': 1, 'tanh': 1, 'arctan': 1, 'sinh': 1, 'arcsin': 1, 'arccos': -1, 'normcdf': 1}


def uf(name, x):
    """application of a transcendental function to an extended real"""
    x = asR(x)
    if x.const:
        f = x.pyfloat()
        try:
            if name == 'log' and f == 0:
                return R(Fraction(0), ni=True)
            if name == 'exp' and f == -math.inf:
                return R(Fraction(0))
            return asR(uf_eval(name, f))
        except (ValueError, OverflowError):
            return R(Fraction(0), na=True)
    c = ctx()
    r = c.uf_var(name, x.v)
    if name == 'exp':
        if not x.flagged:
            return R(r)
        return R(Ite(x.ni, R(Fraction(0)), R(r)).v, x.pi, False, x.na)
    if name == 'log':
        neg = band(x.finite(), zlt(x.v, Fraction(0)))
        zero = band(x.finite(), zeq(x.v, Fraction(0)))
        return R(r, x.pi, c.prune(zero), c.prune(bor(x.na, x.ni, neg)))
    if name.startswith('pow|'):
        e = Fraction(name[4:])
        neg = band(x.finite(), zlt(x.v, Fraction(0)))
        zero = band(x.finite(), zeq(x.v, Fraction(0)))
        if e > 0:
            return R(r, x.pi, False, c.prune(bor(x.na, x.ni, neg)))
        return R(Ite(x.pi, R(Fraction(0)), R(r)).v, c.prune(zero), False, c.prune(bor(x.na, x.ni, neg)))
    if name in ('tanh', 'arctan', 'normcdf'):
        if not x.flagged:
            return R(r)
        hi = {'tanh': Fraction(1), 'arctan': frac(math.pi / 2), 'normcdf': Fraction(1)}[name]
        lo = {'tanh': Fraction(-1), 'arctan': frac(-math.pi / 2), 'normcdf': Fraction(0)}[name]
        return R(Ite(x.pi, R(hi), Ite(x.ni, R(lo), R(r))).v, False, False, x.na)
    if name in ('arcsin', 'arccos'):
        bad = bor(zlt(x.v, Fraction(-1)), zlt(Fraction(1), x.v))
        return R(r, False, False, c.prune(bor(x.special(), bad)))
    return R(r, False, False, x.special())


def uf2(name, x, y):
    raise Unsupported('general power of symbolic values')


def rsin(x):
    x = asR(x)
    if x.const:
        return uf('sin', x)
    return R(ctx().trig(x.v)[0], False, False, x.special())


def rcos(x):
    x = asR(x)
    if x.const:
        return uf('cos', x)
    return R(ctx().trig(x.v)[1], False, False, x.special())


def rtan(x):
    x = asR(x)
    if x.const:
        return uf('tan', x)
    s, c = rsin(x), rcos(x)
    return s / c


def rarctan2(y, x):
    x, y = asR(x), asR(y)
    if x.const and y.const:
        return asR(math.atan2(y.pyfloat(), x.pyfloat()))
    if x.flagged or y.flagged:
        raise Unsupported('arctan2 of extended values')
    return R(ctx().atan2(y.v, x.v))


def rmax(a, b):
    """np.maximum: propagates nan"""
    a, b = asR(a), asR(b)
    return Ite(bor(b.na, band(bnot(a.na), rlt(a, b).e)), b, a)


def rmin(a, b):
    a, b = asR(a), asR(b)
    return Ite(bor(b.na, band(bnot(a.na), rlt(b, a).e)), b, a)


def rfmax(a, b):
    a, b = asR(a), asR(b)
    return Ite(bor(a.na, band(bnot(b.na), rlt(a, b).e)), b, a)


def rfmin(a, b):
    a, b = asR(a), asR(b)
    return Ite(bor(a.na, band(bnot(b.na), rlt(b, a).e)), b, a)


def rsign(x):
    x = asR(x)
    one = R(Fraction(1))
    return Ite(x.na, x, Ite(rlt(R(Fraction(0)), x).e, one, Ite(rlt(x, R(Fraction(0))).e, -one, R(Fraction(0)))))


def linear_form(t, out, f, memo):
    """adds f * t to out (ast -> coefficient); what is not a sum or a multiple of a known number is an atom"""
    if isinstance(t, Fraction):
        out[None] = out.get(None, 0) + f * t
        return
    stack = [(t, f)]
    while stack:
        t, f = stack.pop()
        if z3.is_rational_value(t):
            out[None] = out.get(None, 0) + f * Fraction(t.numerator_as_long(), t.denominator_as_long())
            continue
        k = t.decl().kind()
        c = t.children()
        if k == z3.Z3_OP_ADD:
            stack += [(x, f) for x in c]
        elif k == z3.Z3_OP_SUB:
            stack += [(x, f if i == 0 else -f) for i, x in enumerate(c)]
        elif k == z3.Z3_OP_UMINUS:
            stack.append((c[0], -f))
        elif k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) for x in c) == 1:
            for x in c:
                if z3.is_rational_value(x):
                    f = f * Fraction(x.numerator_as_long(), x.denominator_as_long())
                else:
                    y = x
            stack.append((y, f))
        else:
            i = t.get_id()
            memo[i] = t
            out[i] = out.get(i, 0) + f


def flat(r):
    """the same sum with one coefficient per term, rounded to double precision"""
    if r.flagged or isinstance(r.v, Fraction):
        return r
    out, memo = {}, {}
    linear_form(r.v, out, Fraction(1), memo)
    return from_form({i: float(c) for i, c in out.items()}, memo)


def from_form(out, memo):
    c0 = Fraction(out.get(None, 0))
    ts = [z3.RealVal(Fraction(c)) * memo[i] if c != 1 else memo[i] for i, c in out.items() if i is not None and c]
    if not ts:
        return R(c0)
    if c0:
        ts.append(z3.RealVal(c0))
    return R(ts[0] if len(ts) == 1 else z3.Sum(ts))


class Cx:
    """complex scalar, only as far as complex masks need it"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, Cx):
            return x
        if isinstance(x, complex) or hasattr(x, 'imag') and not isinstance(x, R):
            return Cx(asR(float(x.real)), asR(float(x.imag)))
        r = asR(x)
        if r is None:
            return None
        return Cx(r, R(Fraction(0)))

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def __add__(self, o):
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = Cx.of(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __mul__(self, o):
        o = Cx.of(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Cx.of(o)
        if not (isinstance(o.im.v, Fraction) and o.im.v == 0 and not o.im.flagged):
            raise Unsupported('division by a complex number')
        return Cx(self.re / o.re, self.im / o.re)

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __repr__(self):
        return 'Cx(%r,%r)' % (self.re, self.im)


# ---------------------------------------------------------------- context

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.unknown_feas = 0


def NLSAT():
    return z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'solve-eqs',
                   'simplify', 'qfnra-nlsat')


class Ctx:
    """one symbolic path"""

    simplify_cmp = True

    def __init__(self, prefix=(), stats=None, feas_ms=150, max_decisions=400, prune=True, decide_ites=True, fork_ites=False, nl_ms=500, feas='full'):
        self.prefix = list(prefix)
        self.trace = []            # decisions taken: list of bool
        self.alts = []             # prefixes to explore
        self.pc = []               # z3 BoolRef: branch decisions and assumptions
        self.ax = []
        self.late = []               # axioms (definitions)
        self.stats = stats or Stats()
        self.feas_ms = feas_ms
        self.max_decisions = max_decisions
        self.do_prune = prune
        self.decide_ites = decide_ites
        self.fork_ites = fork_ites
        self.nl_ms = nl_ms
        self.guards = []
        self.ufs = []              # (name, argterm, resterm)
        self._uf = {}
        self._trig = {}
        self._inv = {}
        self._sqrt = {}
        self.inv_pairs = []
        self._n = 0
        self._maycache = {}
        self.feas = feas
        self.inc = lin.Inc(feas_ms)
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self._keep = []

    # -- plumbing
    def _name(self, k):
        self._n += 1
        return '%s!%d' % (k, self._n)

    def fresh_real(self, k):
        return z3.Real(self._name(k))

    def fresh_int(self, k):
        return z3.Int(self._name(k))

    def axiom(self, e):
        self.ax.append(e)
        self.solver.add(e)
        self.inc.fact(e)

    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise PathAbort()
        self.pc.append(e)
        self.solver.add(e)
        self.inc.fact(e)
        self._maycache.clear()

    def _check(self, *es):
        t = time.time()
        r = self.solver.check(*es)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def _nlsat(self, *es):
        t = time.time()
        try:
            s = NLSAT().solver()
            s.set('timeout', self.nl_ms)
            s.add(*self.ax)
            s.add(*self.pc)
            s.add(*es)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def may(self, e):
        """can e hold on this path (under the current element guards)?
        unknown counts as yes"""
        if isinstance(e, bool):
            return e
        g = [x for x in self.guards if not isinstance(x, bool)]
        key = (e.get_id(), tuple(x.get_id() for x in g))
        if key in self._maycache:
            return self._maycache[key]
        t = time.time()
        r = z3.unsat if self.inc.refuted(self, [zb(e)] + g, timeout=self.feas_ms) else z3.unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown and self.feas == 'full':
            r = self._check(zb(e), *g)
            if r == z3.unknown and self.nl_ms:
                r = self._nlsat(zb(e), *g)
        if r == z3.unknown:
            self.stats.unknown_feas += 1
        out = r != z3.unsat
        self._maycache[key] = out
        self._keep.append((e, g))
        return out

    def prune(self, e):
        if isinstance(e, bool) or not self.do_prune:
            return e
        return e if self.may(e) else False

    def decide(self, c):
        """resolve an ite condition when the path decides it"""
        if isinstance(c, bool) or not self.decide_ites:
            return c
        if not self.may(c):
            return False
        if not self.may(z3.Not(c)):
            return True
        return c

    def branch(self, e):
        if isinstance(e, bool):
            return e
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self.trace)
        self.stats.branches += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i >= self.max_decisions:
                raise Inconclusive('more than %d decisions on a path' % self.max_decisions)
            old, self.guards = self.guards, []
            t = self.may(e)
            f = self.may(z3.Not(e))
            self.guards = old
            if not t and not f:
                raise PathAbort()
            if t and f:
                d = True
                self.alts.append(self.trace + [False])
            else:
                d = t
        self.trace.append(d)
        lit = e if d else z3.Not(e)
        self.pc.append(lit)
        self.solver.add(lit)
        self.inc.fact(lit)
        self._maycache.clear()
        return d

    def concretize_int(self, r):
        """pick the integer value of a real by forking over its models"""
        v = r.v
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                k = d[1]
                self.trace.append(d)
                if d[0]:
                    self.assume(zr(v) == k)
                    return k
                self.assume(zr(v) != k)
                continue
            if i >= self.max_decisions:
                raise Inconclusive('too many decisions')
            res = self._check()
            if res == z3.unsat:
                raise PathAbort()
            if res != z3.sat:
                raise Inconclusive('cannot enumerate an integer value')
            m = self.solver.model().eval(zr(v), model_completion=True)
            if not z3.is_rational_value(m) or m.denominator_as_long() != 1:
                raise Unsupported('integer value needed')
            k = m.numerator_as_long()
            self.stats.branches += 1
            if self.may(zr(v) != k):
                self.alts.append(self.trace + [(False, k)])
            self.trace.append((True, k))
            self.assume(zr(v) == k)
            return k

    # -- definitions
    def inverse(self, y, nonzero):
        key = z3.simplify(y, som=True)
        k = key.get_id()
        if k not in self._inv:
            inv = self.fresh_real('inv')
            self._inv[k] = (inv, key)
            if nonzero and self.guards:
                # non-zero beyond the selected elements too?
                old, self.guards = self.guards, []
                nonzero = not self.may(y == 0)
                self.guards = old
            if nonzero:
                self.axiom(y * inv == 1)
                self.inv_pairs.append(('inv', y, inv))
            else:
                self.axiom(z3.Implies(y != 0, y * inv == 1))
            self.axiom(z3.And(z3.Implies(y > 0, inv > 0), z3.Implies(y < 0, inv < 0)))
        return self._inv[k][0]

    def sqrt_var(self, x, nonneg):
        key = z3.simplify(x, som=True)
        k = key.get_id()
        if k not in self._sqrt:
            r = self.fresh_real('sqrt')
            self.axiom(z3.And(r >= 0, z3.Implies(x >= 0, r * r == x)))
            if nonneg and not self.guards:
                self.inv_pairs.append(('sqrt', x, r))
            self._sqrt[k] = (r, key)
        return self._sqrt[k][0]

    def uf_var(self, name, x):
        key = z3.simplify(zr(x), som=True)
        k = (name, key.get_id())
        if k in self._uf:
            return self._uf[k][0]
        r = self.fresh_real(name.replace('|', ''))
        x = zr(x)
        self._uf[k] = (r, key)
        mono = MONO.get(name)
        powe = Fraction(name[4:]) if name.startswith('pow|') else None
        dom = lambda a: z3.BoolVal(True)
        if name == 'log' or powe is not None and powe < 0:
            dom = lambda a: a > 0
        elif powe is not None:
            dom = lambda a: a >= 0
        elif name in ('arcsin', 'arccos'):
            dom = lambda a: z3.And(a >= -1, a <= 1)
        if powe is not None:
            mono = 1 if powe > 0 else -1
        for (n2, x2, r2) in self.ufs:
            if n2 != name:
                continue
            self.axiom(z3.Implies(x == x2, r == r2))
            if mono:
                lo, hi = (r, r2) if mono > 0 else (r2, r)
                self.axiom(z3.Implies(z3.And(dom(x), dom(x2)), z3.And((x < x2) == (lo < hi))))
            if name == 'tanh':
                self.axiom(z3.Implies(x == -x2, r == -r2))
        if name == 'exp':
            self.axiom(z3.And(r > 0, r >= 1 + x, (x == 0) == (r == 1), z3.Implies(x < 0, r < 1)))
            # exp(x)*exp(-x) = 1
            for (n2, x2, r2) in self.ufs:
                if n2 == 'exp':
                    self.axiom(z3.Implies(x == -x2, r * r2 == 1))
        elif name == 'log':
            self.axiom(z3.Implies(x > 0, z3.And(r <= x - 1, (x > 1) == (r > 0), (x == 1) == (r == 0))))
        elif name == 'tanh':
            self.axiom(z3.And(r < 1, r > -1, (x > 0) == (r > 0), (x == 0) == (r == 0),
                              z3.Implies(x > 0, r < x), z3.Implies(x < 0, r > x)))
        elif name == 'arctan':
            h = zr(frac(math.pi / 2))
            self.axiom(z3.And(r < h, r > -h, (x > 0) == (r > 0), (x == 0) == (r == 0),
                              z3.Implies(x > 0, r < x), z3.Implies(x < 0, r > x)))
        elif name == 'normcdf':
            self.axiom(z3.And(r >= 0, r <= 1, (x > 0) == (r > zr(Fraction(1, 2))), (x == 0) == (r == zr(Fraction(1, 2)))))
        elif name == 'sinh':
            self.axiom(z3.And((x > 0) == (r > 0), (x == 0) == (r == 0), z3.Implies(x > 0, r > x), z3.Implies(x < 0, r < x)))
        elif name == 'cosh':
            self.axiom(z3.And(r >= 1, (x == 0) == (r == 1)))
        elif name == 'arccos':
            self.axiom(z3.And(r >= 0, r <= zr(frac(math.pi))))
        elif name == 'arcsin':
            self.axiom(z3.And(r >= zr(-frac(math.pi / 2)), r <= zr(frac(math.pi / 2)), z3.Implies(dom(x), (x > 0) == (r > 0))))
        elif powe is not None:
            if powe > 0:
                self.axiom(z3.Implies(x >= 0, z3.And(r >= 0, (x == 0) == (r == 0), (x == 1) == (r == 1), (x > 1) == (r > 1))))
                if powe > 1:
                    self.axiom(z3.Implies(z3.And(x > 0, x < 1), r < x))
                    self.axiom(z3.Implies(x > 1, r > x))
                elif powe < 1:
                    self.axiom(z3.Implies(z3.And(x > 0, x < 1), r > x))
                    self.axiom(z3.Implies(x > 1, r < x))
            else:
                self.axiom(z3.Implies(x > 0, z3.And(r > 0, (x == 1) == (r == 1), (x > 1) == (r < 1))))
        self.ufs.append((name, x, r))
        return r

    def trig(self, x):
        key = z3.simplify(zr(x), som=True)
        k = key.get_id()
        if k in self._trig:
            return self._trig[k][0]
        # even/odd: share variables with -x
        neg = z3.simplify(-key, som=True)
        if neg.get_id() in self._trig:
            s, c = self._trig[neg.get_id()][0]
            out = (-s, c)
            self._trig[k] = (out, key)
            return out
        s, c = self.fresh_real('sin'), self.fresh_real('cos')
        self.axiom(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
        x = zr(x)
        self.axiom(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
        for (n2, x2, r2) in self.ufs:
            if n2 == 'sin':
                self.axiom(z3.Implies(x == x2, s == r2))
                self.axiom(z3.Implies(x == -x2, s == -r2))
            elif n2 == 'cos':
                self.axiom(z3.Implies(x == x2, c == r2))
                self.axiom(z3.Implies(x == -x2, c == r2))
        self._trig[k] = ((s, c), key)
        self.ufs.append(('sin', x, s))
        self.ufs.append(('cos', x, c))
        return s, c

    def atan2(self, y, x):
        y, x = zr(y), zr(x)
        key = (z3.simplify(y, som=True), z3.simplify(x, som=True))
        k = ('atan2', key[0].get_id(), key[1].get_id())
        if k in self._uf:
            return self._uf[k][0]
        th = self.fresh_real('atan2')
        self._uf[k] = (th, key)
        pi = zr(frac(math.pi))
        s, c = self.trig(th)
        h = self.sqrt_var(x * x + y * y, True)
        self.axiom(z3.And(th >= -pi, th <= pi, (y > 0) == z3.And(th > 0, th < pi), (y < 0) == (th < 0)))
        self.axiom(z3.And(h * s == y, h * c == x))
        self.axiom(z3.Implies(z3.And(y == 0, x >= 0), th == 0))
        self.axiom(z3.Implies(z3.And(y == 0, x < 0), th == pi))
        self.axiom(z3.Implies(z3.And(y == 0, x == 0), z3.And(s == 0, c == 1)))
        # |th| <= pi/2 iff x >= 0
        self.axiom((x >= 0) == z3.And(th <= pi / 2, th >= -pi / 2))
        return th
