"""Harness layer: one harness function runs symbolically (solver verdict over
all inputs) and concretely (replay on the real modules)."""
import importlib
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core, arr, load, lin
from .core import R, B, Cx, asR, asB, Ctx, PathAbort, Unsupported, Inconclusive, zr, zb
from .arr import SymArray, Sel, to_sym


class AssumeFailed(BaseException):
    """concrete inputs do not satisfy the harness' assumptions"""


class CheckFailed(BaseException):
    pass


class Settled(BaseException):
    """a violation was found: the rest of the path does not matter"""


class Rejected(Exception):
    """raised by harness code for explicitly allowed rejections"""


def real_module(name):
    repo = load.REPO
    if repo not in sys.path:
        sys.path.insert(0, repo)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import logging
    importlib.import_module('aeolis')
    logging.disable(logging.CRITICAL)
    m = importlib.import_module('aeolis.' + name)
    f = os.path.realpath(m.__file__)
    if not f.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError('aeolis.%s was imported from %s, not from %s' % (name, f, repo))
    return m


class Base:
    """common input declarations"""

    def __init__(self):
        self.decl = {}          # name -> (lo, hi)
        self.obs = []           # (check name, values)
        self.reached = 0

    def array(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
        return self.wrap(out)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.boolean(name + '_' + '_'.join(map(str, i)))
        return self.wrapb(out)

    def carray(self, name, shape, lo=None, hi=None):
        """complex array with symbolic real and imaginary parts"""
        re, im = self.array(name + 'Re', shape, lo, hi), self.array(name + 'Im', shape, lo, hi)
        if self.mode == 'conc':
            return re + 1j * im
        out = np.empty(re.shape, dtype=object)
        for i in np.ndindex(*re.shape):
            out[i] = core.Cx(asR(re[i]), asR(im[i]))
        return self.wrap(out)

    def full(self, shape, v):
        return self.np.full(shape, v)

    def zeros(self, shape):
        return self.np.zeros(shape)

    def const(self, v):
        """decimal constant, exact in symbolic mode"""
        raise NotImplementedError

    # checks -----------------------------------------------------------
    def le(self, name, a, b, tol=1e-9, scale=1., margin=None):
        self.check_rel('le', name, a, b, tol, scale, margin)

    def ge(self, name, a, b, tol=1e-9, scale=1., margin=None):
        self.check_rel('le', name, b, a, tol, scale, margin)

    def eq(self, name, a, b, tol=1e-9, scale=1., margin=None):
        self.check_rel('eq', name, a, b, tol, scale, margin)

    def imp_le(self, name, c, a, b, **k):
        self.check_rel('le', name, a, b, k.get('tol', 1e-9), k.get('scale', 1.), k.get('margin'), cond=c)

    def imp_eq(self, name, c, a, b, **k):
        self.check_rel('eq', name, a, b, k.get('tol', 1e-9), k.get('scale', 1.), k.get('margin'), cond=c)

    def fail(self, name):
        self.true(name, False)


class Sym(Base):
    mode = 'sym'

    def __init__(self, loader, ctx, opts, fixed=None):
        Base.__init__(self)
        self.L = loader
        self.np = loader.np
        self.ctx = ctx
        self.opts = opts
        self.vars = {}
        self.fixed = fixed      # constant inputs: encoding validation
        self.results = []       # outcome per obligation
        self.cex = []

    def mod(self, name):
        return self.L.load(name)

    def normcdf(self, x):
        from .load import norm_cdf
        return norm_cdf(x)

    def real(self, name, lo=None, hi=None):
        if name in self.vars:
            raise RuntimeError('duplicate input %s' % name)
        if self.fixed is not None:
            v = R(core.frac(self.fixed[name]))
            self.vars[name] = v
            return v
        x = z3.Real('in_' + name)
        self.vars[name] = x
        self.decl[name] = (lo, hi)
        if lo is not None:
            self.ctx.axiom(x >= zr(core.frac(lo)))
        if hi is not None:
            self.ctx.axiom(x <= zr(core.frac(hi)))
        return R(x)

    def boolean(self, name):
        if self.fixed is not None:
            v = bool(self.fixed[name])
            self.vars[name] = B(v)
            return B(v)
        x = z3.Bool('in_' + name)
        self.vars[name] = x
        return B(x)

    def choose(self, name, options):
        """symbolic choice between concrete options (forks)"""
        n = len(options)
        if self.fixed is not None:
            self.vars[name] = self.fixed[name]
            return options[int(self.fixed[name])]
        x = z3.Real('in_' + name)
        self.vars[name] = x
        self.ctx.axiom(z3.Or(*[x == i for i in range(n)]))
        return options[self.ctx.concretize_int(R(x))]

    def wrap(self, a):
        return to_sym(a)

    wrapb = wrap

    def const(self, v):
        return R(core.frac(v))

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for e in np.asarray(c).flat:
                self.assume(e)
            return
        b = asB(c)
        self.ctx.assume(b.e)

    def nonneg_solutions(self, base=0, accumulate=False):
        """restrict the exploration to linear systems with base + solution >= 0
        (accumulate: successive solutions are increments)"""
        self.ctx.spsolve_nonneg = to_sym(base)
        self.ctx.spsolve_accumulate = accumulate

    def solutions(self, vecs):
        """successive linear systems have these (arbitrary) solutions"""
        self.ctx.spsolve_given = [to_sym(v) for v in vecs]

    def pick(self, c):
        """fork on a condition"""
        return bool(asB(c))

    # -- obligations
    def true(self, name, c, tol=0):
        if isinstance(c, np.ndarray):
            viol = [core.bnot(asB(e).e) for e in np.asarray(c.view(np.ndarray) if isinstance(c, SymArray) else c).flat]
        else:
            viol = [core.bnot(asB(c).e)]
        self.observe(name, c)
        self.discharge(name, viol, None)

    def observe(self, name, *vals):
        if self.fixed is not None:
            for v in vals:
                self.obs.append((name, [conc(e) for e in (to_sym(v).flat if isinstance(v, np.ndarray) else [core_elem(v)])]))

    def check_rel(self, kind, name, a, b, tol, scale, margin, cond=None):
        if isinstance(a, Sel):
            a = a.realize()
        if isinstance(b, Sel):
            b = b.realize()
        ra, rb = to_sym(a), to_sym(b)
        try:
            shp = np.broadcast_shapes(ra.shape, rb.shape)
        except ValueError:
            self.discharge(name + ':shape', [True], None)
            return
        self.observe(name, ra, rb)
        ba, bb = np.broadcast_to(ra.view(np.ndarray), shp), np.broadcast_to(rb.view(np.ndarray), shp)
        sc = to_sym(scale)
        bs = np.broadcast_to(sc.view(np.ndarray), shp) if sc.ndim <= len(shp) else sc.view(np.ndarray)
        if cond is not None:
            cc = to_sym(cond)
            bc = np.broadcast_to(cc.view(np.ndarray), shp)
        viol, mviol = [], []
        margins = [m for m in (1e-2, 1e-6) if m > 4 * tol] if margin is None else [margin]
        if not margins:
            margins = [10 * tol]
        mviol = [[] for _ in margins]
        for i in np.ndindex(*shp):
            x, y = asR(ba[i]), asR(bb[i])
            g = True if cond is None else asB(bc[i]).e
            v = self.violated(kind, x, y, R(Fraction(0)))
            if g is False or v is False:
                continue
            viol.append(core.band(g, v))
            for q, m in zip(mviol, margins):
                q.append(core.band(g, self.violated(kind, x, y, asR(m) * asR(bs[i]))))
        self.discharge(name, viol, mviol)

    @staticmethod
    def violated(kind, x, y, m):
        if kind == 'le':
            return core.bnot(core.rle(x, y + m).e)
        e = core.band(core.rle(x, y + m).e, core.rle(y, x + m).e)
        # equal infinities count as equal
        e = core.bor(e, core.req(x, y).e)
        return core.bnot(e)

    def discharge(self, name, viol, mviol):
        self.reached += 1
        if self.fixed is not None:
            return
        self.decide(name, viol, mviol)
        rec = self.results[-1]
        if rec.get('verdict') in ('unknown', 'nonrepro'):
            self.settle(rec)

    def settle(self, rec):
        """the case ends here if a concrete run breaks it"""
        hit = concretise(self, self.opts)
        if hit:
            rec['verdict'] = 'violated'
            rec['inputs'], rec['detail'] = hit
            raise Settled()

    def decide(self, name, viol, mviol):
        o = self.opts
        viol = [v for v in viol if v is not False]
        rec = {'name': name, 'n': len(viol)}
        self.results.append(rec)
        only = o.get('only')
        if not viol:
            rec['verdict'] = 'trivial'
            return
        t = time.time()
        st, m = self.solve(core.bor(*viol), o.get('t_exact', 8))
        if st == 'unsat':
            rec['verdict'] = 'unsat'
            return
        rec['exact'] = st
        if st == 'unknown':
            self.settle(rec)
        if st == 'unknown' and len(viol) > 1:
            # element by element
            left = []
            for k, v in enumerate(viol):
                s2, m2 = self.solve(v, o.get('t_elem', 20))
                if s2 == 'sat':
                    st, m = 'sat', m2
                    left = None
                    break
                if s2 == 'unknown':
                    left.append(k)
            if left == []:
                rec['verdict'] = 'unsat'
                return
        if mviol is None:
            if st == 'sat':
                self.counterexample(rec, name, core.bor(*viol), m)
            else:
                rec['verdict'] = 'unknown'
            return
        for lvl, q in enumerate(mviol):
            f = core.bor(*q)
            if f is False:
                s2, m2 = 'unsat', None
            else:
                s2, m2 = self.solve(f, o.get('t_elem', 20))
                if s2 == 'unknown' and len(q) > 1:
                    res = []
                    for v in q:
                        if v is False:
                            res.append('unsat')
                            continue
                        s3, m3 = self.solve(v, o.get('t_elem', 20))
                        res.append(s3)
                        if s3 == 'sat':
                            m2 = m3
                            f = v
                            break
                    if 'sat' in res:
                        s2 = 'sat'
                    elif all(r == 'unsat' for r in res):
                        s2 = 'unsat'
            if s2 == 'sat':
                if self.counterexample(rec, name, f, m2):
                    return
                if rec.get('verdict') == 'unsat':
                    s2 = 'unsat'
                    continue
                return
            if s2 == 'unknown':
                rec['verdict'] = 'unknown'
                return
        rec['verdict'] = 'unsat-margin'

    # -- solving
    def solve(self, f, timeout):
        return solve(self.ctx, f, timeout)

    def counterexample(self, rec, name, f, model):
        """replay on the real code, refining the transcendental functions and
        diversifying the model until it reproduces or is refuted"""
        o = self.opts
        lemmas = []
        rnd = random.Random(12345)
        blocked = []
        for rnd_i in range(o.get('cegar', 14)):
            inp = inputs_of(self, model)
            ok, info = replay_once(o['harness'], o['kwargs'], inp, name)
            if ok:
                rec['verdict'] = 'violated'
                rec['inputs'] = inp
                rec['detail'] = info
                self.cex.append(rec)
                return True
            rec['last_nonrepro'] = {'inputs': inp, 'info': info}
            new = refine(self.ctx, model)
            lemmas += new
            extra = list(lemmas)
            if not new or rnd_i % 3 == 2:
                # move away from the last model
                b = block(self, model, rnd)
                if b is None and not new:
                    break
                if b is not None:
                    extra.append(b)
            st, m = solve(self.ctx, z3.And(zb(f), *extra), o.get('t_elem', 20))
            if st == 'unsat' and len(extra) > len(lemmas):
                st, m = solve(self.ctx, z3.And(zb(f), *lemmas), o.get('t_elem', 20))
            if st == 'unsat':
                rec['verdict'] = 'unsat'
                rec['refined'] = len(lemmas)
                return False
            if st == 'unknown':
                break
            model = m
        rec['verdict'] = 'nonrepro'
        return False


def core_elem(v):
    return arr.elem(v)


def conc(e):
    if isinstance(e, B):
        return float(bool(e.e)) if isinstance(e.e, bool) else None
    if isinstance(e, R):
        return e.pyfloat() if e.const else None
    return None


PROFILE = {}
STOP = None          # shared deadline of all cases of a run


def _nlsat(fs, timeout):
    t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'simplify', 'qfnra-nlsat')
    s = t.solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*fs)
    return s


def solve(ctx, f, timeout):
    if f is True:
        f = z3.BoolVal(True)
    fs = list(ctx.ax) + list(ctx.late) + list(ctx.pc)
    t0 = time.time()
    if not z3.is_true(f) and ctx.inc.refuted(ctx, [f], ctx.late, max(500, timeout * 250)):
        ctx.stats.queries += 1
        dt = time.time() - t0
        ctx.stats.solver_s += dt
        ctx.stats.max_query = max(getattr(ctx.stats, 'max_query', 0.), dt)
        ctx.stats.linear = getattr(ctx.stats, 'linear', 0) + 1
        return 'unsat', None
    fs.append(f)
    res, model, why = 'unknown', None, ''
    for k, share in (('smt', .3), ('nlsat', .4), ('smt2', .3)):
        t = time.time()
        try:
            if k == 'smt':
                s = z3.Solver()
                s.set('timeout', max(200, int(timeout * share * 1000)))
                s.add(*fs)
            elif k == 'nlsat':
                s = _nlsat(fs, timeout * share)
            else:
                s = z3.SolverFor('QF_NRA') if not getattr(ctx, 'has_int', False) else z3.Solver()
                s.set('timeout', max(200, int(timeout * share * 1000)))
                s.set('random_seed', 7)
                s.add(*fs)
            r = s.check()
        except z3.Z3Exception as e:
            why = str(e)
            continue
        finally:
            ctx.stats.queries += 1
        if r == z3.unsat:
            res = 'unsat'
            break
        if r == z3.sat:
            res, model = 'sat', s.model()
            break
    dt = time.time() - t0
    ctx.stats.solver_s += dt
    ctx.stats.max_query = max(getattr(ctx.stats, 'max_query', 0.), dt)
    return res, model


def num_of(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def inputs_of(h, model):
    out = {}
    for k, x in h.vars.items():
        v = model.eval(x, model_completion=True)
        if z3.is_bool(x):
            out[k] = bool(z3.is_true(v))
        else:
            q = num_of(v)
            out[k] = float(q) if q is not None else 0.0
            lo, hi = h.decl.get(k, (None, None))
            if lo is not None:
                out[k] = max(out[k], float(lo))
            if hi is not None:
                out[k] = min(out[k], float(hi))
    return out


def refine(ctx, model):
    """lemmas from the true values of the transcendental functions at the
    model's arguments (valid up to 1e-9)"""
    out = []
    d = Fraction(1, 10**9)
    for (name, x, r) in ctx.ufs:
        xv = num_of(model.eval(x, model_completion=True))
        rv = num_of(model.eval(r, model_completion=True))
        if xv is None or rv is None:
            continue
        # evaluate near the model on a short rational
        xq = Fraction(xv).limit_denominator(10**6) if abs(xv) < 10**6 else Fraction(int(xv))
        try:
            f0 = core.uf_eval(name, float(xq))
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        if isinstance(f0, complex) or f0 != f0 or math.isinf(f0):
            continue
        if abs(f0 - float(rv)) <= 1e-9 * max(1, abs(f0)) and xq == xv:
            continue
        dd = max(Fraction(d), abs(core.frac(f0)) * d)
        fq, X, D = zr(core.frac(f0)), zr(xq), zr(dd)
        mono = core.MONO.get(name)
        if name.startswith('pow|'):
            mono = 1 if Fraction(name[4:]) > 0 else -1
        dom = z3.BoolVal(True)
        if name == 'log':
            dom = x > 0
        elif name.startswith('pow|'):
            dom = x >= 0 if Fraction(name[4:]) > 0 else x > 0
        if mono:
            if mono > 0:
                out.append(z3.Implies(dom, z3.And(z3.Implies(x <= X, r <= fq + D), z3.Implies(x >= X, r >= fq - D))))
            else:
                out.append(z3.Implies(dom, z3.And(z3.Implies(x <= X, r >= fq - D), z3.Implies(x >= X, r <= fq + D))))
        if name in ('sin', 'cos', 'tanh', 'arctan', 'normcdf'):
            out.append(z3.And(r - fq <= z3.If(x >= X, x - X, X - x) + D, fq - r <= z3.If(x >= X, x - X, X - x) + D))
        if name == 'exp':
            out.append(r >= fq + fq * (x - X) - D)
            # secant bound on [X-1, X+1] keeps r from above
            for w in (Fraction(1, 100), Fraction(1, 10), Fraction(1)):
                for sgn in (1, -1):
                    x1 = xq + sgn * w
                    try:
                        f1 = core.frac(math.exp(float(x1)))
                    except OverflowError:
                        continue
                    a, b = (xq, x1) if sgn > 0 else (x1, xq)
                    fa, fb = (core.frac(f0), f1) if sgn > 0 else (f1, core.frac(f0))
                    slope = (fb - fa) / (b - a)
                    out.append(z3.Implies(z3.And(x >= zr(a), x <= zr(b)), r <= zr(fa) + zr(slope) * (x - zr(a)) + D))
        if name == 'log' and xq > 0:
            out.append(z3.Implies(x > 0, r <= fq + (x - X) / X + D))
        if name.startswith('pow|') and xq > 0:
            e = Fraction(name[4:])
            slope = core.frac(float(e) * float(xq) ** (float(e) - 1))
            tan = fq + zr(slope) * (x - X)
            if e > 1 or e < 0:
                out.append(z3.Implies(dom, r >= tan - D))
            elif 0 < e < 1:
                out.append(z3.Implies(dom, r <= tan + D))
    return out


def block(h, model, rnd):
    """keep a randomly chosen input away from its last value"""
    names = [k for k, x in h.vars.items() if not z3.is_bool(x)]
    if not names:
        return None
    k = rnd.choice(names)
    x = h.vars[k]
    v = num_of(model.eval(x, model_completion=True))
    lo, hi = h.decl.get(k, (None, None))
    if v is None or lo is None or hi is None:
        return x != zr(v) if v is not None else None
    w = (core.frac(hi) - core.frac(lo)) / 10
    return z3.Or(x <= zr(v - w), x >= zr(v + w))


# ---------------------------------------------------------------- concrete

class Conc(Base):
    mode = 'conc'

    def __init__(self, inputs):
        Base.__init__(self)
        self.inputs = inputs
        self.np = np
        self.failures = []
        self.slack = 1.
        self.undo = []          # stand-ins to take out after the run

    def mod(self, name):
        return real_module(name)

    def normcdf(self, x):
        from scipy.stats import norm
        return norm.cdf(x)

    def real(self, name, lo=None, hi=None):
        v = float(self.inputs[name])
        if lo is not None and v < float(lo) - 1e-12 or hi is not None and v > float(hi) + 1e-12:
            raise AssumeFailed(name)
        return v

    def boolean(self, name):
        return bool(self.inputs[name])

    def choose(self, name, options):
        return options[int(round(float(self.inputs[name])))]

    def wrap(self, a):
        return np.array(a, dtype=float)

    def wrapb(self, a):
        return np.array(a, dtype=bool)

    def const(self, v):
        return float(v)

    def assume(self, c):
        if not np.all(c):
            raise AssumeFailed()

    def nonneg_solutions(self, base=0, accumulate=False):
        import scipy.sparse.linalg as sl
        orig = sl.spsolve
        low = [np.ravel(np.asarray(base, dtype=float))]

        def spsolve(A, b, *a, **k):
            x = orig(A, b, *a, **k)
            if not np.all(np.isfinite(x)):
                raise AssumeFailed('singular linear system')
            if np.min(x + low[0]) < -1e-12:
                raise AssumeFailed('negative entry in a linear solution')
            if accumulate:
                low[0] = low[0] + x
            return x
        sl.spsolve = spsolve
        self.undo.append(lambda: setattr(sl, 'spsolve', orig))

    def solutions(self, vecs):
        import scipy.sparse.linalg as sl
        orig, todo = sl.spsolve, [np.array(v, dtype=float).ravel() for v in vecs]

        def spsolve(A, b, *a, **k):
            if not todo:
                raise AssumeFailed('more linear systems than expected')
            return todo.pop(0)
        sl.spsolve = spsolve
        self.undo.append(lambda: setattr(sl, 'spsolve', orig))

    def pick(self, c):
        return bool(c)

    def true(self, name, c, tol=0):
        self.reached += 1
        v = np.asarray(c)
        self.obs.append((name, [float(x) for x in v.flat]))
        if not np.all(v):
            self.failures.append((name, 'condition is false'))

    def check_rel(self, kind, name, a, b, tol, scale, margin, cond=None):
        self.reached += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        try:
            np.broadcast_shapes(a.shape, b.shape)
        except ValueError:
            self.failures.append((name + ':shape', 'shapes %s %s' % (a.shape, b.shape)))
            return
        self.obs.append((name, [float(x) for x in a.flat]))
        self.obs.append((name, [float(x) for x in b.flat]))
        t = tol * self.slack * np.asarray(scale, dtype=float)
        with np.errstate(all='ignore'):
            if kind == 'le':
                ok = a <= b + t
            else:
                ok = (np.abs(a - b) <= t) | (a == b)
        if cond is not None:
            ok = ok | ~np.asarray(cond, dtype=bool)
        if not np.all(ok):
            bad = np.argwhere(~np.broadcast_to(ok, np.broadcast_shapes(a.shape, b.shape, np.shape(ok))))
            i = tuple(bad[0])
            aa, bb = np.broadcast_to(a, ok.shape)[i], np.broadcast_to(b, ok.shape)[i]
            self.failures.append((name, '%r vs %r at %s (%s)' % (float(aa), float(bb), list(map(int, i)), kind)))


def run_concrete(harness, kwargs, inputs, slack=1.):
    h = Conc(inputs)
    h.slack = slack
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                harness(h, **kwargs)
                exc = None
            except AssumeFailed as e:
                return h, 'assume'
            except Exception as e:
                exc = e
            finally:
                for f in h.undo:
                    f()
    if exc is not None:
        tb = traceback.extract_tb(exc.__traceback__)
        inrepo = any(os.path.realpath(f.filename).startswith(os.path.realpath(load.REPO) + '/aeolis') for f in tb)
        return h, ('crash', '%s: %s' % (type(exc).__name__, exc), inrepo, ''.join(traceback.format_exception(exc))[-1500:])
    return h, None


def replay_once(harness, kwargs, inputs, name=None):
    h, st = run_concrete(harness, kwargs, inputs)
    if st == 'assume':
        return False, 'assumption not met'
    if st is not None:
        if st[2]:
            return True, 'real code raised ' + st[1]
        return False, 'harness raised ' + st[1] + st[3]
    if h.failures:
        names = [n for n, _ in h.failures]
        return True, '; '.join('%s: %s' % f for f in h.failures[:4])
    return False, 'all checks passed concretely'


# ---------------------------------------------------------------- explore

def explore(harness, kwargs, opts):
    """run one case over all symbolic paths; returns a result dict"""
    t0 = time.time()
    wit_s, retry = 0., []
    budget = opts.get('budget', 600)
    stats = core.Stats()
    L = load.Loader()
    opts = dict(opts, harness=harness, kwargs=kwargs, shared={})
    work = [[]]
    res = dict(paths=0, aborted=0, obligations=0, unsat=0, trivial=0, margin=0, refined=0, cex=[], errors=[], undecided=[],
               witness=0, validated=0, mismatches=[], functions=[], samples=[])
    funcs = set()
    witness_inputs = []
    seen_fn = {}

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(load.REPO + '/aeolis/'):
                k = co.co_filename[len(load.REPO) + 1:] + ':' + co.co_name
                if not co.co_name.startswith('<'):
                    funcs.add(k)

    maxpaths = opts.get('max_paths', 4000)
    while work:
        if time.time() - t0 > budget or time.time() > min(opts.get('deadline', 1e30), STOP.value if STOP else 1e30):
            res['undecided'].append('case budget of %ds exceeded after %d paths (%d pending)' % (budget, res['paths'], len(work)))
            if res['obligations'] == 0:
                res['errors'].append('no obligation decided within the budget')
            break
        if res['paths'] + res['aborted'] >= maxpaths:
            res['errors'].append('more than %d paths' % maxpaths)
            break
        if res['cex']:
            break                       # a reproduced violation ends the case
        prefix = work.pop()
        c = Ctx(prefix, stats, feas_ms=opts.get('feas_ms', 150), nl_ms=opts.get('nl_ms', 500), max_decisions=opts.get('max_decisions', 400),
                prune=opts.get('prune', True), decide_ites=opts.get('decide_ites', True), fork_ites=opts.get('fork_ites', False), feas=opts.get('feas', 'full'))
        c.simplify_cmp = opts.get('simplify_cmp', True)
        core.set_ctx(c)
        h = Sym(L, c, opts)
        exc = None
        if res['paths'] < 3:
            sys.setprofile(prof)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                harness(h, **kwargs)
        except PathAbort:
            res['aborted'] += 1
            work.extend(c.alts)
            sys.setprofile(None)
            continue
        except Settled:
            pass
        except Inconclusive as e:
            res['errors'].append('inconclusive: %s' % e)
            work.extend(c.alts)
            sys.setprofile(None)
            break
        except Exception as e:
            exc = e
        finally:
            sys.setprofile(None)
        res['paths'] += 1
        work.extend(c.alts)
        # symbolic exception: confirm on the real code
        if exc is not None:
            st, m = solve(c, True, opts.get('t_elem', 20))
            if st == 'unsat':
                continue
            tb = ''.join(traceback.format_exception(exc))[-1800:]
            if st == 'sat':
                inp = inputs_of(h, m)
                ok, info = replay_once(harness, kwargs, inp)
                if ok:
                    res['cex'].append({'name': 'exception', 'inputs': inp, 'detail': info})
                    continue
            res['errors'].append('engine: %s: %s\n%s' % (type(exc).__name__, exc, tb))
            break
        for r in h.results:
            res['obligations'] += 1
            v = r.get('verdict')
            if v == 'trivial':
                res['trivial'] += 1
            elif v == 'unsat':
                res['unsat'] += 1
                if 'refined' in r:
                    res['refined'] += 1
            elif v == 'unsat-margin':
                res['margin'] += 1
            elif v == 'violated':
                res['cex'].append(r)
            else:
                res['undecided'].append('obligation %s: %s %s' % (r['name'], v, r.get('last_nonrepro', '')))
        if len(res['undecided']) > opts.get('max_undecided', 3) and not res['cex']:
            res['errors'].append('too many undecided obligations')
            break
        # reachability witness of this path (twin "assert false")
        if h.results and len(witness_inputs) < opts.get('witnesses', 4) and wit_s < opts.get('witness_s', 8):
            tw = time.time()
            st, m = solve(c, True, 3)
            wit_s += time.time() - tw
            if st == 'sat':
                res['witness'] += 1
                witness_inputs.append(inputs_of(h, m))
            elif len(retry) < 2:
                retry.append((c, h))
    if not res['cex'] and not res['errors'] and res['obligations'] and not res['witness']:
        # twin "assert false" by a concrete run of the real code
        rnd = random.Random(opts.get('seed', 1) + 1)
        core.set_ctx(None)
        for _ in range(opts.get('random_witness', 1000)):
            inp = random_inputs(h, rnd)
            hc, st = run_concrete(harness, kwargs, inp)
            if st is None and hc.reached and not hc.failures:
                res['witness'] += 1
                witness_inputs.append(inp)
                if res['witness'] >= 2:
                    break
        for c, h in retry:
            if res['witness']:
                break
            core.set_ctx(c)
            st, m = solve(c, True, opts.get('t_elem', 20))
            if st == 'sat':
                res['witness'] += 1
                witness_inputs.append(inputs_of(h, m))
    core.set_ctx(None)
    if not res['cex'] and not res['errors']:
        if res['obligations'] == 0:
            res['errors'].append('vacuous: no obligation reached')
        elif res['witness'] == 0:
            res['errors'].append('vacuous: no path reaching an obligation has a model')
    # encoding validation: constants through the encoding vs the real code
    if not res['errors'] and not res['cex']:
        rnd = random.Random(opts.get('seed', 1))
        cand = list(witness_inputs)
        for w in witness_inputs[:2]:
            for _ in range(opts.get('random_validation', 4)):
                j = dict(w)
                for k in j:
                    lo, hi = h.decl.get(k, (None, None)) if k in h.decl else (None, None)
                    if lo is not None and hi is not None and rnd.random() < .7:
                        j[k] = round(rnd.uniform(float(lo), float(hi)), 6)
                cand.append(j)
        for inp in cand:
            ok = validate(harness, kwargs, inp, L, opts)
            if ok is None:
                continue
            if ok is True:
                res['validated'] += 1
            elif isinstance(ok, tuple):
                # the real code breaks a check on this very input
                res['cex'].append({'name': 'replay of a model', 'inputs': inp, 'detail': ok[0]})
            else:
                res['mismatches'].append(ok)
        if res['mismatches']:
            res['errors'].append('encoding mismatch: %s' % res['mismatches'][0])
    res['functions'] = sorted(funcs)
    res['branches'] = stats.branches
    res['queries'] = stats.queries
    res['solver_s'] = round(stats.solver_s, 3)
    res['max_query_s'] = round(getattr(stats, 'max_query', 0.), 3)
    res['wall_s'] = round(time.time() - t0, 2)
    res['inputs'] = len(h.vars) if 'h' in locals() else 0
    res['samples'] = witness_inputs[:1]
    return res


def borderline(harness, kwargs, inp, obs):
    """does the real code itself jump under a tiny change of this input?"""
    rnd = random.Random(7)
    for _ in range(6):
        j = {k: v if isinstance(v, bool) else v * (1 + rnd.uniform(-1e-6, 1e-6)) + rnd.uniform(0, 1e-7) for k, v in inp.items()}
        hc, st = run_concrete(harness, kwargs, j)
        if st is not None or len(hc.obs) != len(obs):
            return True
        for (n1, a), (n2, b) in zip(hc.obs, obs):
            if n1 != n2 or len(a) != len(b) or any(not abs(x - y) <= 1e-4 * max(1., abs(x), abs(y)) for x, y in zip(a, b)):
                return True
    return False


def random_inputs(h, rnd):
    """random values inside the declared ranges, skewed per array"""
    inp, skew = {}, {}
    for k, x in h.vars.items():
        lo, hi = h.decl.get(k, (None, None))
        lo = -10. if lo is None else float(lo)
        hi = lo + 20. if hi is None else float(hi)
        inp[k] = bool(rnd.getrandbits(1)) if z3.is_bool(x) else round(
            lo + (hi - lo) * rnd.random() ** skew.setdefault(k.split('_')[0], rnd.choice((.125, 1, 8))), 6)
    return inp


def concretise(h, opts):
    """the solver left an obligation of this case undecided: look for inputs
    on which the real code breaks it clearly (1000 times the replay
    tolerance).  Finding none decides nothing."""
    done = opts['shared'].setdefault('searched', {})
    if len(h.vars) in done:
        return done[len(h.vars)]
    harness, kwargs = opts['harness'], opts['kwargs']
    rnd = random.Random(opts.get('seed', 1) + 5)
    ctx = core.ctx()
    core.set_ctx(None)
    t0, out = time.time(), None
    try:
        for _ in range(opts.get('random_search', 3000)):
            if time.time() - t0 > opts.get('search_s', 5):
                break
            inp = random_inputs(h, rnd)
            hc, st = run_concrete(harness, kwargs, inp, slack=1000.)
            if st is None and hc.failures or st is not None and st != 'assume' and st[2]:
                ok, info = replay_once(harness, kwargs, inp)
                if ok:
                    out = (inp, info)
                    break
    finally:
        core.set_ctx(ctx)
    done[len(h.vars)] = out
    return out


def validate(harness, kwargs, inp, L, opts):
    hc, st = run_concrete(harness, kwargs, inp)
    if st is not None:
        return None
    if hc.failures:
        return ('; '.join('%s: %s' % f for f in hc.failures[:3]),)
    c = Ctx([], core.Stats(), feas_ms=400)
    core.set_ctx(c)
    hs = Sym(L, c, opts, fixed={k: v for k, v in inp.items()})
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            harness(hs, **kwargs)
    except PathAbort:
        return None
    except Inconclusive:
        return None
    finally:
        core.set_ctx(None)
    if len(hs.obs) != len(hc.obs):
        # a borderline branch (rounding) may go the other way
        return None
    tol = opts.get('val_tol', 1e-6)
    for (n1, a), (n2, b) in zip(hs.obs, hc.obs):
        if n1 != n2 or len(a) != len(b):
            return None
        for x, y in zip(a, b):
            if x is None:
                continue        # not a constant (spsolve unknowns)
            if x != x and y != y or x == y:
                continue
            if not abs(x - y) <= tol * max(1., abs(x), abs(y)):
                if borderline(harness, kwargs, inp, hc.obs):
                    return None
                return '%s: encoding %r, real code %r for %r' % (n1, x, y, inp)
    return True
