"""Symbolic state of one execution path, and the depth-first path explorer."""
from __future__ import annotations
import random
import time
from fractions import Fraction
import z3
from . import alg, node as nd, smt, interp


class Dead(Exception):
    """the path's constraints are unsatisfiable"""


class PathLimit(Exception):
    pass


ALLOWED = {"lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}, "eq": {0}, "ne": {-1, 1}}
OPP = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}


class State:
    """one path"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trail = []            # (choice, remaining options)
        self.enc = smt.Enc()
        self.cons = []             # z3 path constraints
        self.desc = []             # text of decisions
        self.vars = {}             # name -> sym
        self.hist = []             # predicates on concrete points
        self.known = {}
        self.absfacts = []            # Frac key -> set of possible signs
        self.undef_ok = False
        self.hints = {}            # var name -> (lo, hi) for replay sampling
        self.pool = None           # concrete points known to lie on this path
        self.rng = random.Random(ex.seed)
        self.memo = {}
        self.fixed = False         # concretised run: symbols are rational constants
        self.fixvals = {}

    # -- symbols
    def var(self, name, pos=False, lo=None, hi=None, param=False):
        if self.fixed:
            if name not in self.fixvals:
                r = self.rng
                if lo is not None and hi is not None:
                    v = r.uniform(float(lo), float(hi))
                elif pos:
                    v = 10 ** r.uniform(-0.7, 0.7)
                else:
                    v = r.choice([-1, 1]) * 10 ** r.uniform(-1, 0.7)
                self.fixvals[name] = Fraction(v).limit_denominator(997) or Fraction(1, 997)
            return alg.F(self.fixvals[name])
        x = alg.var(name, pos, param)
        s = alg.CTX.by_key[("var", name)]
        self.vars[name] = s
        if lo is not None or hi is not None:
            self.hints[name] = (lo, hi)
        return x

    def all(self):
        return self.enc.side + self.cons

    def cons_with(self, *f):
        """path constraints plus `f` (side conditions of symbols first met in
        `f` included: the arguments were evaluated before this call)"""
        return self.enc.side + self.cons + list(f)

    def assume(self, x, kind):
        """assume  x kind 0"""
        q = alg.quick_sign(x)
        if q is not None:
            ok = {"lt": q < 0, "le": q <= 0, "gt": q > 0, "ge": q >= 0, "eq": q == 0, "ne": q != 0}[kind]
            if not ok:
                raise Dead()
            return
        self._add(x, kind)

    def _add(self, x, kind):
        if self.fixed:
            if (alg.rsign(x, {}) or 0) not in ALLOWED[kind]:
                raise Dead()
            return
        self.cons.append(self.relz(x, kind))
        k = x.key()
        cur = self.known.get(k, {-1, 0, 1})
        al = ALLOWED[kind]
        self.known[k] = cur & al
        nk = (-x).key()
        self.known[nk] = {-s for s in self.known[k]}
        self._filter(x, al)

    # -- witness pool: concrete points on the path
    def _gen(self):
        env = {}
        r = self.rng
        for name, s in self.vars.items():
            lo, hi = self.hints.get(name, (None, None))
            if lo is not None and hi is not None:
                v = r.uniform(lo, hi)
            elif s.pos:
                u = r.random()
                v = 10 ** r.uniform(-1.0, 1.0) if u < 0.75 else 10 ** r.uniform(-9, 4)
            else:
                v = r.choice([-1, 1]) * 10 ** r.uniform(-1, 1)
            env[s.idx] = Fraction(v).limit_denominator(10 ** 14) or Fraction(1, 10 ** 14)
        return (env, {})

    def points(self):
        if self.fixed:
            return [({}, {})]
        if self.pool is None:
            self.pool = []
            cs = list(self.hist)
            for _ in range(self.ex.pool_tries):
                pt = self._gen()
                if all(h(pt) for h in cs):
                    self.pool.append(pt)
                    if len(self.pool) >= self.ex.pool_size:
                        break
        return self.pool

    def _filter(self, x, al):
        self._filt(lambda pt: alg.rsign(x, *pt) in al)

    def _filt(self, h):
        self.hist.append(h)
        if self.pool is not None:
            self.pool = [pt for pt in self.pool if h(pt)]

    def _env(self, model):
        env = {}
        for name, s in self.vars.items():
            if s.idx in self.enc.v:
                env[s.idx] = smt.model_value(model, self.enc.v[s.idx])
            else:
                env[s.idx] = Fraction(1)
        return env

    def enrich(self, d=None, want=6, tries=400):
        """further concrete points on the path for a replay: the solver's models
        tend to sit on the boundary of the path's conditions (where rounding sends
        the real code the other way), so look around them and the known points"""
        if self.fixed:
            return []
        bases = [pt[0] for pt in self.points()]
        for extra in ([self.relz(d, "ne")] if d is not None else [], []):
            try:
                _, m = smt.check(self.cons_with(*extra), ms=3000, model=True)
            except alg.Inconclusive:
                m = None
            if m is not None:
                bases.append(self._env(m))
                break
        if not bases:
            return []
        new, r = [], self.rng
        pos = {s.idx: s.pos for s in self.vars.values()}
        for _ in range(tries):
            b, g = r.choice(bases), self._gen()[0]
            fresh, size = r.choice((0.0, 0.3, 0.7)), r.choice((1e-3, 0.1, 0.5, 0.9))
            env = {}
            for i, x in g.items():
                v = b.get(i, x)
                if r.random() >= fresh:
                    v = v * Fraction(1 + r.uniform(-size, size)) if v else Fraction(0 if pos[i] else r.uniform(-size, size))
                    if abs(v) > Fraction(1, 10 ** 6):
                        v = v.limit_denominator(10 ** 14)
                    x = v if v > 0 or not pos[i] else x
                env[i] = x
            pt = (env, {})
            if all(h(pt) for h in self.hist):
                new.append(pt)
                if len(new) >= want:
                    break
        self.points().extend(new)
        return new

    def add_model(self, model):
        """turn a z3 model into a concrete point, if it truly lies on the path"""
        env = self._env(model)
        pt = (env, {})
        if all(h(pt) for h in self.hist):
            self.points().append(pt)
            return True
        return False

    # -- decisions
    def relz(self, x, kind):
        """z3 formula for  x kind 0  (x's denominator is non-zero)"""
        if self._cplx(x) and kind in ("eq", "ne"):
            re, im = alg.re_im(alg.Frac(x.num))
            if im.num:
                z = [self.enc.ratio_sign(v) == 0 for v in (re, im) if v.num]
                return z3.And(z) if kind == "eq" else z3.Not(z3.And(z))
            if re.num:
                x = re
        r = self._red(x)
        if r is None:
            return smt.rel(self.enc.ratio_sign(x), kind)
        sg, odd, even = r
        t = z3.RealVal(sg)
        for p in odd:
            t = t * self.enc.poly(p)
        ev = [self.enc.poly(p) for p in even]
        nz = [e != 0 for e in ev]
        z = [e == 0 for e in ev]
        if kind in ("gt", "lt", "ne"):
            f = smt.rel(t, kind)
            return z3.And([f] + nz) if nz else f
        f = smt.rel(t, kind)
        return z3.Or([f] + z) if z else f

    def _red(self, x):
        if len(x.num) > 60:
            return None
        ck = ("red", x.key())
        if ck in self.memo:
            return self.memo[ck]
        k, mono, fs = alg.pfactor(x.num)
        for f, e in x.den:
            fs[f] = fs.get(f, 0) + (e if e % 2 else 0)
        odd, even = [], []
        for i, e in alg.exps(mono):
            s = alg.CTX.syms[i]
            if s.kind in ("unit", "imag"):
                self.memo[ck] = None
                return None
            if s.pos:
                continue
            p = {1 << s.shift: 1}
            if e % 2:
                odd.append(p)
            elif e > 0:
                even.append(p)
        for f, e in fs.items():
            if e:
                (odd if e % 2 else even).append(alg.CTX.factors[f])
        for p in odd + even:
            if any(alg.CTX.syms[i].kind in ("imag", "unit") for i in alg.psyms(p)):
                self.memo[ck] = None
                return None
        self.memo[ck] = (1 if k > 0 else -1, odd, even)
        return self.memo[ck]

    def feasible(self, x, kind):
        """'yes' (witness or model) | 'maybe' | 'no'"""
        self.ex.stats["feas"] += 1
        k = x.key()
        al = ALLOWED[kind]
        kn = self.known.get(k)
        if kn is not None:
            if not (kn & al):
                return "no"
            if kn <= al:
                return "yes"
        for pt in self.points():
            if alg.rsign(x, *pt) in al:
                self.ex.stats["feas_wit"] += 1
                return "yes"
        r, m = self.feas_check(self.relz(x, kind), heavy=_heavy(x))
        if m is not None:
            return "yes" if self.add_model(m) else "maybe"
        return "no" if r == "unsat" else "maybe"

    def feas_check(self, *f, heavy=False):
        """feasibility of the path with `f`; large non-linear constraints are only
        tried with their products abstracted (an undecided branch is kept)"""
        if heavy:
            r = smt.check(smt.lin_abstract(self.cons_with(*f)), ms=self.ex.feas_ms, nl=False)
            return ("unsat", None) if r == "unsat" else ("unknown", None)
        return smt.check(self.cons_with(*f), ms=self.ex.feas_ms, model=True)

    def choose(self, x, options):
        """options: list of relation kinds; returns the chosen one"""
        n = len(self.trail)
        if self.fixed:
            s = alg.rsign(x, {})
            for o in options:
                if (s or 0) in ALLOWED[o]:
                    return o
        if n < len(self.prefix):
            ch = self.prefix[n]
            self.trail.append((ch, None))
        else:
            feas, maybe = [], []
            for i, o in enumerate(options):
                if i == len(options) - 1 and not feas and not maybe:
                    feas.append(o)      # the others are impossible
                    break
                r = self.feasible(x, o)
                if r == "yes":
                    feas.append(o)
                elif r == "maybe":
                    maybe.append(o)
            feas += maybe
            ch = feas[0]
            self.trail.append((ch, feas[1:]))
            if len(self.trail) > self.ex.max_depth:
                raise PathLimit("path too deep")
        self._add(x, ch)
        self.desc.append(f"{alg.show(x, 6)} {ch} 0")
        return ch

    def oracle(self, d, kind):
        if kind == "sign":
            return self.sign(d)
        kn = self.known.get(d.key())
        al = ALLOWED[kind]
        if kn is not None:
            if kn <= al:
                return True
            if not (kn & al):
                return False
        if not alg._is_real(d) if self._cplx(d) else False:
            raise alg.Inconclusive("comparison of a complex value")
        ch = self.choose(d, [kind, OPP[kind]])
        return ch == kind

    @staticmethod
    def _cplx(d):
        return ("imag",) in alg.CTX.by_key

    def abs_less(self, x, c, strict):
        """decide |x| < c (c > 0 a rational constant) without splitting on the sign"""
        key = ("abs", x.key(), c, strict)
        if key in self.known:
            return self.known[key]
        lo, hi = x - alg.F(c), x + alg.F(c)
        inside = lambda pt: (alg.rsign(lo, *pt) == -1 and alg.rsign(hi, *pt) == 1)
        n = len(self.trail)
        if self.fixed:
            return inside(({}, {}))

        def cons(b):
            a1, a2 = self.enc.ratio_sign(lo), self.enc.ratio_sign(hi)
            if b:
                return [a1 < 0, a2 > 0] if strict else [a1 <= 0, a2 >= 0]
            return [z3.Or(a1 >= 0, a2 <= 0)] if strict else [z3.Or(a1 > 0, a2 < 0)]
        if n < len(self.prefix):
            b = self.prefix[n]
            self.trail.append((b, None))
        else:
            feas = []
            for o in (False, True):
                self.ex.stats["feas"] += 1
                if any(inside(pt) == o for pt in self.points()):
                    self.ex.stats["feas_wit"] += 1
                    feas.append(o)
                    continue
                if o and not feas:
                    feas.append(o)
                    continue
                r, m = self.feas_check(*cons(o), heavy=_heavy(x))
                if m is not None:
                    self.add_model(m)
                if r != "unsat":
                    feas.append(o)
            b = feas[0]
            self.trail.append((b, feas[1:]))
        self.cons += cons(b)
        self._filt(lambda pt: inside(pt) == b)
        self.known[key] = b
        self.absfacts.append((x, c, b))
        self.desc.append(f"|{alg.show(x, 6)}| {'<' if b else '>='} {float(c):g}")
        return b

    def sign(self, d):
        kn = self.known.get(d.key())
        if kn is not None and len(kn) == 1:
            return next(iter(kn))
        if self._cplx(d) and not alg._is_real(d):
            raise alg.Inconclusive("sign of a complex value")
        ch = self.choose(d, ["gt", "lt", "eq"])
        return {"gt": 1, "lt": -1, "eq": 0}[ch]

    def activate(self):
        nd.set_oracle(self.oracle, self.abs_less)
        alg.CTX.sign_oracle = self.sign


class Explorer:
    def __init__(self, max_paths=2000, max_depth=400, feas_ms=2000, deadline=None, seed=1, pool_size=24, pool_tries=400):
        self.seed, self.pool_size, self.pool_tries = seed, pool_size, pool_tries
        self.max_paths, self.max_depth, self.feas_ms = max_paths, max_depth, feas_ms
        self.deadline = deadline
        self.stats = {"paths": 0, "dead": 0, "feas": 0, "feas_wit": 0}
        self.trace_cache = {}
        self.truncated = False

    def explore(self, fn):
        """call fn(state) once per feasible path"""
        prefix = []
        while True:
            alg.reset()
            st = State(self, prefix)
            st.activate()
            try:
                fn(st)
                self.stats["paths"] += 1
            except Dead:
                self.stats["dead"] += 1
            # backtrack
            tr = [(c, r) for c, r in st.trail]
            for i, p in enumerate(prefix):
                if i < len(tr):
                    tr[i] = (p, self._rem[i])
            self._rem = [r for _, r in tr]
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                return
            c, r = tr.pop()
            prefix = [x for x, _ in tr] + [r[0]]
            self._rem = [x for _, x in tr] + [r[1:]]
            if self.stats["paths"] + self.stats["dead"] >= self.max_paths or \
                    (self.deadline and time.time() > self.deadline):
                self.truncated = True
                return


def _heavy(x):
    if len(x.num) > 40:
        return True
    n = 0
    for m in x.num:
        n = max(n, sum(abs(e) if alg.CTX.syms[i].kind == "var" else 1 for i, e in alg.exps(m)))
    return len(x.num) > 4 and n > 9
