"""Translation of Fracs to z3 and the solver queries."""
from __future__ import annotations
import time
from fractions import Fraction
import z3
from . import alg

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max_time": 0.0}
DEFAULT_MS = 20000


class Enc:
    """encoding context: one per path (bound to alg.CTX)"""

    def __init__(self):
        self.v = {}
        self.side = []          # side constraints on atoms
        self.pwc = {}

    def q(self, c):
        c = Fraction(c)
        return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)

    def sym(self, i):
        """z3 term (or (c,s) pair for unit atoms)"""
        if i in self.v:
            return self.v[i]
        s = alg.CTX.syms[i]
        if s.kind == "unit":
            c, t = z3.Real(f"c!{i}"), z3.Real(f"s!{i}")
            self.v[i] = (c, t)
            self.side.append(c * c + t * t == 1)
            return self.v[i]
        if s.kind == "imag":
            raise alg.Inconclusive("imaginary value in a real query")
        x = z3.Real(f"{s.name if s.kind == 'var' else s.kind}!{i}")
        self.v[i] = x
        if s.pos:
            self.side.append(x > 0)
        if s.kind == "root":
            if isinstance(s.info, dict):
                p = self.poly(s.info)
                self.side.append(x * x == p)
                self.side.append(x >= 0)
            else:
                self.side.append(x * x == self.q(s.info))
                a = alg.isqrt(int(s.info * 10 ** 12))
                self.side.append(x > self.q(Fraction(a, 10 ** 6)))
                self.side.append(x < self.q(Fraction(a + 1, 10 ** 6)))
        elif s.kind == "pi":
            self.side.append(x > self.q(Fraction(314159265, 10 ** 8)))
            self.side.append(x < self.q(Fraction(314159266, 10 ** 8)))
        elif s.kind == "exp":
            base, g = s.info
            try:
                b = self.ratio_sign(base)
                self.side.append(z3.And(z3.Implies(b > 0, x > 1), z3.Implies(b < 0, x < 1), z3.Implies(b == 0, x == 1)))
            except alg.Inconclusive:
                pass
        return x

    def pw(self, i, e):
        k = (i, e)
        r = self.pwc.get(k)
        if r is None:
            x = self.sym(i)
            r = x
            for _ in range(e - 1):
                r = r * x
            self.pwc[k] = r
        return r

    def unit_pow(self, i, e):
        """(re, im) of Z**e"""
        k = (i, e, "u")
        r = self.pwc.get(k)
        if r is None:
            c, s = self.sym(i)
            if e < 0:
                a, b = self.unit_pow(i, -e)
                r = (a, -b)
            elif e == 1:
                r = (c, s)
            else:
                a, b = self.unit_pow(i, e - 1)
                r = (a * c - b * s, a * s + b * c)
            self.pwc[k] = r
        return r

    def poly(self, p, shift=None):
        """z3 term of a real polynomial with non-negative exponents (after
        `shift`, a monomial, was multiplied in)"""
        terms = []
        gu = {}
        for m in p:
            for i, e in alg.exps(m):
                if alg.CTX.syms[i].kind in ("unit", "exp"):
                    gu[i] = alg.gcd(gu.get(i, 0), abs(e))
        if shift:
            for i, e in alg.exps(shift):
                if alg.CTX.syms[i].kind == "exp":
                    gu[i] = alg.gcd(gu.get(i, 0), abs(e))
        for m, c in p.items():
            if shift:
                m = m + shift
            re, im = None, None
            fac = []
            for i, e in alg.exps(m):
                s = alg.CTX.syms[i]
                if s.kind == "imag":
                    a, b = z3.RealVal(0), z3.RealVal(1)
                elif s.kind == "unit":
                    # use the largest common power as the base angle
                    g = gu[i]
                    a, b = self.unit_base(i, g, e // g)
                else:
                    if e < 0:
                        raise alg.Inconclusive("negative exponent in query")
                    if s.kind == "exp" and gu[i] > 1:
                        fac.append(self.exp_pow(i, gu[i], e // gu[i]))
                    else:
                        fac.append(self.pw(i, e))
                    continue
                if re is None:
                    re, im = a, b
                else:
                    re, im = re * a - im * b, re * b + im * a
            t = self.q(c)
            for f in fac:
                t = t * f
            if re is not None:
                t = t * re
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def exp_pow(self, i, g, e):
        """(E^g)^e with E^g as the solver variable"""
        k = (i, g)
        if k not in self.v:
            x = z3.Real(f"exp!{i}!{g}")
            self.v[k] = x
            self.side.append(x > 0)
            try:
                b = self.ratio_sign(alg.CTX.syms[i].info[0])
                self.side.append(z3.And(z3.Implies(b > 0, x > 1), z3.Implies(b < 0, x < 1), z3.Implies(b == 0, x == 1)))
            except alg.Inconclusive:
                pass
            for (j, h), y in [kv for kv in self.v.items() if isinstance(kv[0], tuple) and kv[0] != k and kv[0][0] == i]:
                a, b, q = (x, y, h // g) if h % g == 0 else (y, x, g // h) if g % h == 0 else (None, None, 9)
                if q <= 4:
                    t = a
                    for _ in range(q - 1):
                        t = t * a
                    self.side.append(t == b)
        key = (i, g, e, "eb")
        r = self.pwc.get(key)
        if r is None:
            x = self.v[k]
            r = x
            for _ in range(e - 1):
                r = r * x
            self.pwc[key] = r
        return r

    def unit_base(self, i, g, e):
        k = (i, g)
        if k not in self.v:
            c, s = z3.Real(f"c!{i}!{g}"), z3.Real(f"s!{i}!{g}")
            self.v[k] = (c, s)
            self.side.append(c * c + s * s == 1)
            for (j, h), (c2, s2) in [kv for kv in self.v.items()
                                     if isinstance(kv[0], tuple) and kv[0] != k and kv[0][0] == i]:
                if h == 2 * g:
                    self.side += [c2 == c * c - s * s, s2 == 2 * c * s]
                elif g == 2 * h:
                    self.side += [c == c2 * c2 - s2 * s2, s == 2 * c2 * s2]
        key = (i, g, e, "ub")
        r = self.pwc.get(key)
        if r is None:
            c, s = self.v[k]
            if e < 0:
                a, b = self.unit_base(i, g, -e)
                r = (a, -b)
            elif e == 1:
                r = (c, s)
            else:
                a, b = self.unit_base(i, g, e - 1)
                r = (a * c - b * s, a * s + b * c)
            self.pwc[key] = r
        return r

    def clear_mono(self, p):
        """multiply by a positive-sign-preserving monomial so that all
        exponents become non-negative.  -> shift monomial"""
        mins = {}
        for m in p:
            for i, e in alg.exps(m):
                if e < 0:
                    if alg.CTX.syms[i].kind in ("unit",):
                        continue
                    mins[i] = min(mins.get(i, 0), e)
        sh = 0
        for i, e in mins.items():
            e = -e
            if not alg.CTX.syms[i].pos and e % 2:
                e += 1
            sh += e << alg.CTX.syms[i].shift
        return sh

    def ratio_sign(self, x):
        """z3 term with the same sign as Frac x (den != 0 assumed)"""
        t = self.poly(x.num, self.clear_mono(x.num))
        for f, e in x.den:
            if e % 2:
                t = t * self.poly(alg.CTX.factors[f])
        return t

    def den_nonzero(self, x):
        return [self.poly(alg.CTX.factors[f]) != 0 for f, _ in x.den]

    def eq_terms(self, a, b):
        """cross-multiplied sides of a == b (unexpanded)"""
        da, db = dict(a.den), dict(b.den)
        sh = {}
        for p in (a.num, b.num):
            for m in p:
                for i, e in alg.exps(m):
                    if e < 0 and alg.CTX.syms[i].kind != "unit":
                        sh[i] = min(sh.get(i, 0), e)
        s = 0
        for i, e in sh.items():
            s += (-e) << alg.CTX.syms[i].shift
        l = self.poly(a.num, s)
        r = self.poly(b.num, s)
        for f, e in db.items():
            for _ in range(e - min(e, da.get(f, 0))):
                l = l * self.poly(alg.CTX.factors[f])
        for f, e in da.items():
            for _ in range(e - min(e, db.get(f, 0))):
                r = r * self.poly(alg.CTX.factors[f])
        return l, r


def qv(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)


def rel(term, kind):
    return {"lt": term < 0, "le": term <= 0, "gt": term > 0, "ge": term >= 0, "eq": term == 0, "ne": term != 0}[kind]


def check(cons, ms=None, model=False, nl=True):
    """-> 'sat'|'unsat'|'unknown' (, model)"""
    t0 = time.time()
    cons = list(cons)
    s = z3.Solver()
    s.set("timeout", ms or DEFAULT_MS)
    s.add(cons)
    r = s.check()
    if r == z3.unknown and nl:
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", ms or DEFAULT_MS)
        s.add(cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["max_time"] = max(STATS["max_time"], dt)
    r = str(r)
    STATS[r] += 1
    if model:
        return r, (s.model() if r == "sat" else None)
    return r


def lin_abstract(cons):
    """replace every non-linear product by a fresh variable (sound for unsat)"""
    import z3
    memo, tab = {}, {}

    def mono(t):
        """normal form of a product: (coef, sorted var-ids)"""
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long()), ()
        if z3.is_mul(t):
            c, v = Fraction(1), []
            for ch in t.children():
                m = mono(ch)
                if m is None:
                    return None
                c *= m[0]
                v += m[1]
            return c, tuple(sorted(v, key=lambda u: u.get_id()))
        if z3.is_const(t):
            return Fraction(1), (t,)
        return None

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_mul(t):
            m = mono(t)
            if m is None:
                t2 = z3.simplify(t, som=True)
                r = go(t2) if not z3.is_mul(t2) else z3.FreshReal("lin")
            else:
                c, vs = m
                if len(vs) <= 1:
                    r = t
                else:
                    key = tuple(v.get_id() for v in vs)
                    if key not in tab:
                        tab[key] = z3.FreshReal("lin")
                    r = tab[key] * z3.Q(c.numerator, c.denominator)
        elif t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            r = t.decl()(*ch) if not (z3.is_and(t) or z3.is_or(t) or z3.is_add(t)) else \
                (z3.And(ch) if z3.is_and(t) else z3.Or(ch) if z3.is_or(t) else z3.Sum(ch))
        memo[k] = r
        return r
    out = []
    keep = []
    for c in cons:
        s = z3.simplify(c, som=True, flat=True)
        keep.append(s)
        out.append(go(s))
    lin_abstract._keep = keep
    return out


def model_value(m, x):
    v = m.eval(x, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())
