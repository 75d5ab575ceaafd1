"""Linear abstraction: polynomials are multiplied out and every nonlinear
monomial becomes a variable of its own. Refuting the abstraction refutes the
original query (equalities that are polynomial consequences fall out at once)."""
from fractions import Fraction

import z3

K = z3


class TooBig(Exception):
    pass


class Lin:
    MAXMON = 4000

    def __init__(self):
        self.cp = {}        # ast id -> polynomial
        self.cb = {}        # ast id -> abstracted boolean
        self.atoms = {}     # ast id -> abstracted atom
        self.mon = {}       # monomial -> z3 var
        self.keep = []
        self.rules = {}     # var id -> [(pattern monomial, replacement)]
        self.depth = 0
        self.sign = {}      # var id -> +1/-1 (weak)
        self.lemmas = []

    # -- polynomials
    def poly(self, t):
        i = t.get_id()
        r = self.cp.get(i)
        if r is None:
            r = self._poly(t)
            self.cp[i] = r
            self.keep.append(t)
        return r

    def _poly(self, t):
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(t):
            v = Fraction(t.as_long())
            return {(): v} if v else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            out = {}
            for a in t.children():
                self.add(out, self.poly(a), 1)
            return out
        if k == z3.Z3_OP_SUB:
            c = t.children()
            out = dict(self.poly(c[0]))
            for a in c[1:]:
                self.add(out, self.poly(a), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for a in t.children():
                out = self.mul(out, self.poly(a))
            return out
        if k == z3.Z3_OP_DIV:
            d = self.poly(t.arg(1))
            if len(d) == 1 and () in d:
                return {m: v / d[()] for m, v in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_POWER:
            d = self.poly(t.arg(1))
            if len(d) == 1 and () in d and d[()].denominator == 1 and 0 < d[()] <= 6:
                out = {(): Fraction(1)}
                p = self.poly(t.arg(0))
                for _ in range(int(d[()])):
                    out = self.mul(out, p)
                return out
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)):
            return self.poly(t.arg(0))
        if k == z3.Z3_OP_ITE:
            a, b = self.term(self.poly(t.arg(1))), self.term(self.poly(t.arg(2)))
            x = z3.If(self.boolean(t.arg(0)), a, b)
        else:
            x = t
        self.keep.append(x)
        i = x.get_id()
        self.atoms[i] = x
        return {(i,): Fraction(1)}

    @staticmethod
    def add(out, p, s):
        for m, v in p.items():
            w = out.get(m, 0) + s * v
            if w:
                out[m] = w
            else:
                out.pop(m, None)

    def mul(self, p, q):
        if len(p) * len(q) > self.MAXMON:
            raise TooBig()
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                m = a + b if not b or not a else tuple(sorted(a + b))
                c = x * y
                r = self.reduce(m) if self.rules and m else None
                if r is None:
                    w = out.get(m, 0) + c
                    if w:
                        out[m] = w
                    else:
                        out.pop(m, None)
                else:
                    self.add(out, r, c)
        return out

    def reduce(self, m):
        """rewrite y*inv(y) -> 1, sqrt(x)^2 -> x; None if nothing applies"""
        for v in m:
            for pat, rep in self.rules.get(v, ()):
                l = list(m)
                try:
                    for q in pat:
                        l.remove(q)
                except ValueError:
                    continue
                self.depth += 1
                if self.depth > 40:
                    self.depth = 0
                    raise TooBig()
                r = self.mul({tuple(l): Fraction(1)}, rep)
                self.depth -= 1
                return r
        return None

    def rule(self, v, y, inverse):
        """v*y = 1 (inverse) or v*v = y"""
        p = self.poly(y)
        if not p:
            return
        i = v.get_id()
        self.atoms[i] = v
        self.keep.append(v)
        if not inverse:
            self.rules.setdefault(i, []).append(((i, i), dict(p)))
            return
        lead = max(p, key=lambda m: (len(m), m))
        c = p[lead]
        rep = {(): 1 / c}
        for m, x in p.items():
            if m != lead:
                mm = tuple(sorted(m + (i,)))
                rep[mm] = rep.get(mm, 0) - x / c
        self.rules.setdefault(i, []).append(((i,) + lead, rep))

    def term(self, p):
        if not p:
            return z3.RealVal(0)
        out = []
        for m, v in p.items():
            c = z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
            if not m:
                out.append(c)
                continue
            x = self.atoms[m[0]] if len(m) == 1 else self.monvar(m)
            out.append(x if v == 1 else c * x)
        return out[0] if len(out) == 1 else z3.Sum(*out)

    def monvar(self, m):
        x = self.mon.get(m)
        if x is None:
            x = z3.Real('mon!%d' % len(self.mon))
            self.mon[m] = x
            s, odd = 1, {}
            for v in m:
                odd[v] = odd.get(v, 0) + 1
            known = True
            for v, n in odd.items():
                if n % 2:
                    if v in self.sign:
                        s *= self.sign[v]
                    else:
                        known = False
            if known:
                self.lemmas.append(x >= 0 if s > 0 else x <= 0)
        return x

    # -- booleans
    def boolean(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        i = t.get_id()
        r = self.cb.get(i)
        if r is None:
            r = self._boolean(t)
            self.cb[i] = r
            self.keep.append(t)
            self.keep.append(r)
        return r

    def _boolean(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t):
            return t
        k = t.decl().kind()
        ch = t.children()
        if not ch:
            return t
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (
                k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[-1])):
            c = [self.boolean(a) for a in ch]
            return {z3.Z3_OP_AND: lambda: z3.And(*c), z3.Z3_OP_OR: lambda: z3.Or(*c), z3.Z3_OP_NOT: lambda: z3.Not(c[0]),
                    z3.Z3_OP_IMPLIES: lambda: z3.Implies(*c), z3.Z3_OP_XOR: lambda: z3.Xor(*c),
                    z3.Z3_OP_ITE: lambda: z3.If(*c), z3.Z3_OP_EQ: lambda: c[0] == c[1],
                    z3.Z3_OP_IFF: lambda: c[0] == c[1]}[k]()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and len(ch) == 2:
            p = dict(self.poly(ch[0]))
            self.add(p, self.poly(ch[1]), -1)
            e = self.term(p)
            z = z3.RealVal(0)
            return {z3.Z3_OP_LE: lambda: e <= z, z3.Z3_OP_GE: lambda: e >= z, z3.Z3_OP_LT: lambda: e < z,
                    z3.Z3_OP_GT: lambda: e > z, z3.Z3_OP_EQ: lambda: e == z}[k]()
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
            p = dict(self.poly(ch[0]))
            self.add(p, self.poly(ch[1]), -1)
            return self.term(p) != 0
        return t


def is_var(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def signs(fs, out):
    """variables with a known weak sign, from bounds among the facts"""
    for f in fs:
        if not z3.is_app(f):
            continue
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            signs(f.children(), out)
            continue
        neg = False
        if k == z3.Z3_OP_NOT:
            f = f.arg(0)
            neg = True
            k = f.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            continue
        a, b = f.children()
        if is_var(a) and (z3.is_rational_value(b) or z3.is_int_value(b)):
            x, c, lo = a, b, k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
        elif is_var(b) and (z3.is_rational_value(a) or z3.is_int_value(a)):
            x, c, lo = b, a, k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        else:
            continue
        if neg:
            lo = not lo
        v = c.as_fraction() if z3.is_rational_value(c) else c.as_long()
        if lo and v >= 0:
            out[x.get_id()] = 1
        elif not lo and v <= 0:
            out[x.get_id()] = -1
    return out


class Inc:
    """incremental linear abstraction of one path"""

    def __init__(self, timeout_ms):
        self.L = Lin()
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.pending = []
        self.nlem = 0
        self.npairs = 0

    def fact(self, f):
        self.pending.append(f)

    def sync(self, ctx):
        L = self.L
        try:
            if self.npairs < len(ctx.inv_pairs):
                signs(self.pending, L.sign)
                for kind, y, v in ctx.inv_pairs[self.npairs:]:
                    if kind == 'sqrt':
                        L.sign[v.get_id()] = 1
                    elif y.get_id() in L.sign:
                        L.sign[v.get_id()] = L.sign[y.get_id()]
                    L.rule(v, y, kind == 'inv')
                self.npairs = len(ctx.inv_pairs)
            if self.pending:
                signs(self.pending, L.sign)
                todo, self.pending = self.pending, []
                for f in todo:
                    try:
                        self.s.add(L.boolean(f))
                    except TooBig:
                        L.depth = 0
        except TooBig:
            L.depth = 0

    def lemmas(self):
        if self.nlem < len(self.L.lemmas):
            self.s.add(*self.L.lemmas[self.nlem:])
            self.nlem = len(self.L.lemmas)

    def zeros(self, e):
        """monomials that vanish because e says a factor is zero"""
        out = []
        if not z3.is_app(e):
            return out
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            for a in e.children():
                out += self.zeros(a)
        elif k == z3.Z3_OP_EQ and z3.is_arith(e.arg(0)):
            a, b = e.children()
            v = a if is_var(a) else b if is_var(b) else None
            o = b if v is a else a
            if v is not None and z3.is_rational_value(o) and o.as_fraction() == 0:
                i = v.get_id()
                out = [x == 0 for m, x in self.L.mon.items() if i in m]
        return out

    def refuted(self, ctx, es, late=(), timeout=None):
        self.sync(ctx)
        try:
            fs = [self.L.boolean(e) for e in es]
            ls = [self.L.boolean(e) for e in late]
        except TooBig:
            self.L.depth = 0
            return False
        self.lemmas()
        if timeout:
            self.s.set('timeout', int(timeout))
        self.s.push()
        try:
            self.s.add(*ls)
            self.s.add(*fs)
            for e in es:
                self.s.add(*self.zeros(e))
            return self.s.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            self.s.pop()
