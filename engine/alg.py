"""Exact symbolic scalar algebra used by the symbolic executor.

Values are `Frac`s: a Laurent polynomial numerator over Q divided by a product
of registered (non-monomial, primitive) polynomial factors.  Transcendental
functions live in the ring as *atoms*:

  exp(c*m)    -> E_m ** (c*G)      (E_m stands for exp(m/G), positive)
  exp(i*c*m)  -> Z_m ** (c*G)      (unit complex number; sin/cos via Z)
  sqrt(x)     -> perfect squares are resolved, otherwise an algebraic atom
  log(x)      -> sum of logs of symbols / primes / factors

so that equality of two values is decided by polynomial normalisation, which
the SMT back end (smt.py) then re-checks on the cross-multiplied equation.
"""
from __future__ import annotations
from fractions import Fraction
from math import gcd, isqrt
import math

W = 18                    # bits per exponent field (signed)
BIAS = 1 << (W - 1)
MASK = (1 << W) - 1
G = 120                   # granularity of exp atoms


class Undef(Exception):
    """division by zero / log of non-positive, ..."""


class TooBig(Exception):
    pass


class Inconclusive(Exception):
    """the engine cannot decide (unsupported construct, timeout, ...)"""


class Sym:
    __slots__ = ("idx", "name", "kind", "pos", "info", "shift", "param")

    def __init__(self, idx, name, kind, pos, info=None):
        self.idx = idx
        self.name = name
        self.kind = kind      # var | exp | unit | imag | root | log | pi
        self.pos = pos        # strictly positive?
        self.info = info
        self.shift = W * idx
        self.param = False    # parameters are kept together inside exponents

    def __repr__(self):
        return f"<{self.name}>"


class Ctx:
    """Registry of symbols and factors (one per harness path)."""

    def __init__(self):
        self.syms = []
        self.by_key = {}
        self.biasall = 0
        self.factors = []        # list of dict polys
        self.factor_key = {}
        self.reducers = []       # indices of symbols with a reduction rule
        self.sign_oracle = None  # callable(Frac)->+1/-1/0/None
        self.max_terms = 400000

    def sym(self, key, name, kind, pos=False, info=None):
        s = self.by_key.get(key)
        if s is None:
            s = Sym(len(self.syms), name, kind, pos, info)
            self.syms.append(s)
            self.by_key[key] = s
            self.biasall |= BIAS << s.shift
            if kind in ("imag", "root"):
                self.reducers.append(s.idx)
        return s


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()
    return CTX


def exps(m):
    """decode packed monomial -> list of (idx, exp)"""
    out = []
    if m == 0:
        return out
    mm = m + CTX.biasall
    i = 0
    for i in range(len(CTX.syms)):
        e = ((mm >> (W * i)) & MASK) - BIAS
        if e:
            out.append((i, e))
    return out


def exp_of(m, i):
    return (((m + CTX.biasall) >> (W * i)) & MASK) - BIAS


# --------------------------------------------------------------------------
# polynomials: dict packed-monomial -> int|Fraction (non zero)

def _norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    get = r.get
    for m, c in b.items():
        v = get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k, mono=0):
    if k == 0:
        return {}
    if k == 1:
        if mono == 0:
            return a
        return {m + mono: c for m, c in a.items()}
    return {m + mono: c * k for m, c in a.items()}


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        return pscale(b, c, m)
    r = {}
    get = r.get
    bi = list(b.items())
    if len(a) * len(b) > 60_000_000:
        raise TooBig(f"product {len(a)}x{len(b)}")
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            v = get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                r[m] = v + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > CTX.max_terms:
        raise TooBig(f"{len(r)} terms")
    return r


def pmul(a, b):
    r = pmul_raw(a, b)
    if CTX.reducers:
        r = preduce(r)
    return r


def _needs_red(m):
    mm = m + CTX.biasall
    for i in CTX.reducers:
        e = ((mm >> (W * i)) & MASK) - BIAS
        if e != 0 and e != 1:
            return True
    return False


def preduce(p):
    """apply i**2=-1, rt_n**2=n; generic roots (root of a Frac) too"""
    red = CTX.reducers
    biasall = CTX.biasall
    shifts = [W * i for i in red]
    bad = None
    for m in p:
        mm = m + biasall
        for s in shifts:
            e = ((mm >> s) & MASK) - BIAS
            if e != 0 and e != 1:
                bad = True
                break
        if bad:
            break
    if not bad:
        return p
    out = {}
    for m, c in p.items():
        mm = m + biasall
        extra = None
        for i in red:
            e = ((mm >> (W * i)) & MASK) - BIAS
            if e == 0 or e == 1:
                continue
            q, r = divmod(e, 2)
            s = CTX.syms[i]
            m -= (e - r) << s.shift
            val = s.info            # square of the symbol: number or poly dict
            if isinstance(val, dict):
                if q < 0:
                    raise Inconclusive("negative power of a root atom")
                t = val
                pw = {0: 1}
                for _ in range(q):
                    pw = pmul_raw(pw, t)
                extra = pw if extra is None else pmul_raw(extra, pw)
            else:
                c = c * (Fraction(val) ** q)
        c = _norm_c(c)
        if extra is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        else:
            for m2, c2 in extra.items():
                v = out.get(m + m2, 0) + c * c2
                if v:
                    out[m + m2] = v
                else:
                    out.pop(m + m2, None)
    # one round can create new reducible monomials (extra * rest)
    if any(_needs_red(m) for m in out):
        return preduce(out)
    return out


def psyms(p):
    """indices of symbols occurring in p"""
    n = len(CTX.syms)
    seen = set()
    for m in p:
        mm = m + CTX.biasall
        for i in range(n):
            if i not in seen and ((mm >> (W * i)) & MASK) != BIAS:
                seen.add(i)
        if len(seen) == n:
            break
    return seen


def pcontent(p):
    """-> (rational content c>0 w/ sign of leading, min monomial)"""
    g_n, g_d = 0, 1
    for c in p.values():
        if type(c) is int:
            g_n = gcd(g_n, c)
        else:
            g_n = gcd(g_n, c.numerator)
            g_d = g_d * c.denominator // gcd(g_d, c.denominator)
        if g_n == 1 and g_d == 1:
            pass
    # recompute numerators over the common denominator
    if g_d != 1:
        g_n = 0
        for c in p.values():
            g_n = gcd(g_n, int(c * g_d))
    n = len(CTX.syms)
    mins = None
    for m in p:
        mm = m + CTX.biasall
        e = [(mm >> (W * i)) & MASK for i in range(n)]
        if mins is None:
            mins = e
        else:
            mins = [x if x < y else y for x, y in zip(mins, e)]
    mono = 0
    for i, e in enumerate(mins):
        mono += (e - BIAS) << (W * i)
    lead = max(p)
    k = Fraction(g_n, g_d)
    if p[lead] < 0:
        k = -k
    return _norm_c(k), mono


def pprim(p):
    """primitive part: content 1, min exponents 0, leading coef > 0"""
    k, mono = pcontent(p)
    if k == 1 and mono == 0:
        return p, k, mono
    inv = 1 / Fraction(k)
    return {m - mono: _norm_c(c * inv) for m, c in p.items()}, k, mono


def pexactdiv(a, b):
    """exact division of ordinary (non-negative exponent) polys a / b, or None.
    The packed integer order is a valid monomial order for non-negative
    exponents."""
    if len(a) < 1:
        return {}
    lb = max(b)
    cb = b[lb]
    bi = [(m - lb, c) for m, c in b.items() if m != lb]
    biasall = CTX.biasall
    highbits = biasall  # bit set in each field iff biased value >= BIAS i.e. e >= 0
    # quick test: trailing terms must divide as well
    tb, ta = min(b), min(a)
    if ((ta - tb) + biasall) & highbits != highbits:
        return None
    import heapq
    r = dict(a)
    heap = [-m for m in r]
    heapq.heapify(heap)
    q = {}
    steps = 0
    lim = 4 * len(a) + 50
    while r:
        m = -heapq.heappop(heap)
        c = r.pop(m, None)
        if c is None:
            continue
        qm = m - lb
        if (qm + biasall) & highbits != highbits:
            return None
        qc = Fraction(c) / cb if (type(c) is Fraction or type(cb) is Fraction or c % cb) else c // cb
        qc = _norm_c(qc)
        q[qm] = qc
        for dm, bc in bi:
            mm = m + dm
            v = r.get(mm)
            if v is None:
                r[mm] = -qc * bc
                heapq.heappush(heap, -mm)
            else:
                v = v - qc * bc
                if v:
                    r[mm] = v
                else:
                    del r[mm]
        steps += 1
        if steps > 200000:
            return None
    return q


def _divides(f, prim):
    """try prim / f (both primitive polys)"""
    if len(prim) < 2:
        return None
    return pexactdiv(prim, f)


# --------------------------------------------------------------------------

def factor_id(p):
    key = frozenset(p.items())
    i = CTX.factor_key.get(key)
    if i is None:
        i = len(CTX.factors)
        CTX.factors.append(p)
        CTX.factor_key[key] = i
    return i


_FACT_LIMIT_TERMS = 40
_FACT_LIMIT_SYMS = 9


def _sympy_factor(p):
    """factor a primitive polynomial with sympy (small ones only)"""
    ss = sorted(psyms(p))
    if len(p) > _FACT_LIMIT_TERMS or len(ss) > _FACT_LIMIT_SYMS:
        return None
    maxdeg = 0
    for m in p:
        maxdeg = max(maxdeg, sum(e for _, e in exps(m)))
    if maxdeg > 24:
        return None
    import sympy
    from sympy.polys.rings import ring
    from sympy import QQ
    R = ring([f"x{i}" for i in ss], QQ)[0]
    el = R.zero
    d = {}
    for m, c in p.items():
        ee = dict(exps(m))
        d[tuple(ee.get(i, 0) for i in ss)] = QQ(Fraction(c).numerator, Fraction(c).denominator)
    el = R.from_dict(d)
    coef, fl = el.factor_list()
    out = []
    for f, e in fl:
        q = {}
        for mon, c in f.terms():
            m = 0
            for i, x in zip(ss, mon):
                m += x << (W * i)
            q[m] = _norm_c(Fraction(int(c.numerator), int(c.denominator)))
        q, k, mono = pprim(q)
        out.append((q, e))
        coef = coef * (Fraction(k).numerator) / (Fraction(k).denominator) if False else coef
    # constants are recovered by the caller through content (primitive)
    return out


def pfactor(p):
    """p (nonzero poly) -> (coef, mono, {factor_id: exp})"""
    prim, k, mono = pprim(p)
    fs = {}
    if len(prim) == 1:
        return k, mono, fs
    # known factors first
    for i, f in enumerate(CTX.factors):
        if len(f) > len(prim) * 4:
            continue
        while True:
            q = _divides(f, prim)
            if q is None:
                break
            fs[i] = fs.get(i, 0) + 1
            prim = q
            if len(prim) == 1:
                break
        if len(prim) == 1:
            break
    if len(prim) == 1:
        (m, c), = prim.items()
        return _norm_c(k * c), mono + m, fs
    prim, k2, m2 = pprim(prim)
    k = _norm_c(k * k2)
    mono += m2
    fl = _sympy_factor(prim)
    if fl is None:
        # even power / squarefree detection: try polynomial square root
        s = psqrt(prim)
        if s is not None:
            kk, mm, ff = pfactor(s)
            k = _norm_c(k * kk * kk)
            mono += 2 * mm
            for i, e in ff.items():
                fs[i] = fs.get(i, 0) + 2 * e
            return k, mono, fs
        fs[factor_id(prim)] = fs.get(factor_id(prim), 0) + 1
        return k, mono, fs
    # rebuild to fix the constant
    prod = {0: 1}
    for f, e in fl:
        i = factor_id(f)
        fs[i] = fs.get(i, 0) + e
        for _ in range(e):
            prod = pmul_raw(prod, f)
    lead = max(prim)
    ratio = _norm_c(Fraction(prim[lead]) / Fraction(prod[lead]))
    return _norm_c(k * ratio), mono, fs


def psqrt(p):
    """polynomial square root of a primitive poly or None"""
    lead = max(p)
    c = Fraction(p[lead])
    if c < 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    for _, e in exps(lead):
        if e % 2:
            return None
    lm = lead // 2
    lc = _norm_c(Fraction(n, d))
    s = {lm: lc}
    r = padd(p, pneg(pmul_raw(s, s)))
    biasall = CTX.biasall
    steps = 0
    while r:
        m = max(r)
        qm = m - lm
        if (qm + biasall) & biasall != biasall:
            return None
        if qm >= lm:
            return None
        qc = _norm_c(Fraction(r[m]) / (2 * lc))
        t = {qm: qc}
        # r -= 2*s*t + t^2
        r = padd(r, pscale(s, -2 * qc, qm))
        r = padd(r, {2 * qm: -qc * qc})
        s[qm] = qc
        steps += 1
        if steps > 300:
            return None
    return s


# --------------------------------------------------------------------------

class Frac:
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # tuple of (factor_id, exp>0), sorted
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        if type(c) is not int:
            c = _norm_c(Fraction(c))
        return Frac({0: c} if c else {})

    def is_zero(self):
        return not self.num

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def const_val(self):
        return self.num.get(0, 0)

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.num.items()), self.den)
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Frac) and self.key() == o.key()

    # -- arithmetic
    def __neg__(self):
        return Frac(pneg(self.num), self.den)

    def __add__(self, o):
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            n = padd(self.num, o.num)
            return Frac(n, self.den)._cancel() if self.den else Frac(n)
        d1, d2 = dict(self.den), dict(o.den)
        a, b = self.num, o.num
        den = dict(d1)
        for f, e in d2.items():
            if den.get(f, 0) < e:
                den[f] = e
        for f, e in den.items():
            for _ in range(e - d1.get(f, 0)):
                a = pmul(a, CTX.factors[f])
            for _ in range(e - d2.get(f, 0)):
                b = pmul(b, CTX.factors[f])
        n = padd(a, b)
        return Frac(n, tuple(sorted(den.items())))._cancel()

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.num or not o.num:
            return ZERO
        a, b = self, o
        if not a.den and not b.den:
            return Frac(pmul(a.num, b.num))
        # cross-cancel before multiplying
        if b.den:
            an, bd = _cancel_against(a.num, b.den)
        else:
            an, bd = a.num, b.den
        if a.den:
            bn, ad = _cancel_against(b.num, a.den)
        else:
            bn, ad = b.num, a.den
        den = dict(ad)
        for f, e in bd:
            den[f] = den.get(f, 0) + e
        r = Frac(pmul(an, bn), tuple(sorted(den.items())))
        if CTX.reducers and r.den:
            r = r._cancel()
        return r

    def _cancel(self):
        if not self.num:
            return ZERO
        if not self.den:
            return self
        n, d = _cancel_against(self.num, self.den)
        if n is self.num:
            return self
        return Frac(n, d)

    def inv(self):
        if not self.num:
            raise Undef("division by zero")
        num, extra = self.num, None
        # rationalise: imaginary unit and root symbols
        if CTX.reducers:
            sy = psyms(num)
            for i in CTX.reducers:
                if i in sy and (len(num) > 1 or isinstance(CTX.syms[i].info, dict)):
                    s = CTX.syms[i]
                    if s.kind == "imag":
                        cj = pconj(num)
                    else:
                        cj = pconj_root(num, i)
                    extra = cj if extra is None else pmul(extra, cj)
                    num = pmul(num, cj)
                    if not num:
                        raise Undef("zero divisor")
                    sy = psyms(num)
        k, mono, fs = pfactor(num)
        n = {-mono: _norm_c(1 / Fraction(k))}
        if CTX.reducers:
            n = preduce(n)
        if extra is not None:
            n = pmul(n, extra)
        for f, e in self.den:
            for _ in range(e):
                n = pmul(n, CTX.factors[f])
        r = Frac(n, tuple(sorted(fs.items())))
        if (extra is not None or self.den) and r.den:
            r = r._cancel()
        return r

    def __truediv__(self, o):
        return self * o.inv()

    def __pow__(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return self.inv() ** (-n)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __repr__(self):
        return show(self)

    # -- complex parts
    def conj(self):
        c = conj_den(self)
        return c

    def syms(self):
        s = set(psyms(self.num))
        for f, _ in self.den:
            s |= psyms(CTX.factors[f])
        return s


def _cancel_against(num, den):
    """cancel polynomial num against factor tuple den -> (num', den')"""
    if len(num) == 1:
        return num, den
    prim = None
    newden = []
    changed = False
    for f, e in den:
        F = CTX.factors[f]
        while e > 0:
            if prim is None:
                prim, k, mono = pprim(num)
            if len(prim) == 1:
                break
            q = pexactdiv(prim, F)
            if q is None:
                break
            prim = q
            changed = True
            e -= 1
        if e:
            newden.append((f, e))
    if not changed:
        return num, den
    num = pscale(prim, k, mono)
    num = {m: _norm_c(c) for m, c in num.items()}
    return num, tuple(newden)


ZERO = Frac({})
ONE = Frac({0: 1})


def F(c):
    return Frac.const(c)


def from_sym(s, e=1):
    return Frac({e << s.shift: 1})


def var(name, pos=False, param=False):
    s = CTX.sym(("var", name), name, "var", pos)
    s.param = param
    return from_sym(s)


def imag():
    return from_sym(CTX.sym(("imag",), "I", "imag", False, -1))


def rootn(n):
    """sqrt of a positive squarefree integer"""
    return from_sym(CTX.sym(("root", n), f"sqrt{n}", "root", True, n))


def PI():
    return from_sym(CTX.sym(("pi",), "pi", "pi", True))


def pconj(p):
    out = {}
    sy = CTX.syms
    special = [s for s in sy if s.kind in ("imag", "unit")]
    for m, c in p.items():
        mm = m + CTX.biasall
        for s in special:
            e = ((mm >> s.shift) & MASK) - BIAS
            if e:
                if s.kind == "imag":
                    c = -c
                else:
                    m -= (2 * e) << s.shift
        v = out.get(m, 0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def pconj_root(p, i):
    out = {}
    for m, c in p.items():
        if exp_of(m, i) % 2:
            c = -c
        out[m] = c
    return out


def conj_den(x):
    den_has = any(any(CTX.syms[i].kind in ("imag", "unit") for i in psyms(CTX.factors[f])) for f, _ in x.den)
    r = Frac(pconj(x.num))
    if not den_has:
        return Frac(r.num, x.den)
    for f, e in x.den:
        fr = Frac(pconj(CTX.factors[f])).inv()
        for _ in range(e):
            r = r * fr
    return r


def re_im(x):
    c = x.conj()
    half = F(Fraction(1, 2))
    re = (x + c) * half
    im = (x - c) * half * (-imag())
    return re, im


# --------------------------------------------------------------------------
# functions

def _isqrt_frac(c):
    """c>0 rational -> (a, n) with sqrt(c) = a*sqrt(n), n squarefree int"""
    c = Fraction(c)
    v = c.numerator * c.denominator
    a = Fraction(1, c.denominator)
    n = v
    p = 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            n //= p * p
            a *= p
        p += 1
    r = isqrt(n)
    if r * r == n:
        return a * r, 1
    return a, n


def sqrt(x):
    if x.is_zero():
        return ZERO
    k, mono, fs = pfactor(x.num)
    for f, e in x.den:
        fs[f] = fs.get(f, 0) - e
    res = ONE
    rest = ONE
    k = Fraction(k)
    ksign = 1
    units, bal = {}, {}
    if CTX.by_key.get(("imag",)) is not None and _is_real(x):
        # write x as a product of real factors u^-m p(u)
        units = {i: e for i, e in exps(mono) if CTX.syms[i].kind == "unit"}
        for f, e in fs.items():
            b = Frac(CTX.factors[f])
            for i in psyms(CTX.factors[f]):
                if CTX.syms[i].kind == "unit":
                    m = max(exp_of(t, i) for t in CTX.factors[f])
                    if m % 2 == 0:
                        b = b * from_sym(CTX.syms[i]).inv() ** (m // 2)
                        units[i] = units.get(i, 0) + e * (m // 2)
            if _is_real(b):
                bal[f] = b
        if any(units.values()) or len(bal) != len(fs):
            units, bal = {}, {}
    # monomial part
    for i, e in exps(mono):
        s = CTX.syms[i]
        if i in units:
            continue
        if e % 2 == 0 or (s.kind == "exp"):
            if s.kind == "exp" and e % 2:
                # exp atoms: granularity allows odd exponents only if new atom
                rest = rest * from_sym(s, 1)
                e -= 1
            h = from_sym(s, e // 2)
            if not s.pos and (e // 2) % 2:
                h = absf(h)
            res = res * h
        else:
            rest = rest * from_sym(s, 1)
            if e - 1:
                h = from_sym(s, (e - 1) // 2)
                if not s.pos and ((e - 1) // 2) % 2:
                    h = absf(h)
                res = res * h
    for f, e in fs.items():
        if not e:
            continue
        P = bal.get(f) or Frac(CTX.factors[f])
        q, r = divmod(e, 2)
        if r:
            rest = rest * P
        if q:
            h = P ** abs(q) if q > 0 else (P ** (-q)).inv()
            if q % 2:
                h = h if sign_of(P) > 0 else -h
            res = res * h
    if rest.is_const():
        kk = k
        if kk < 0:
            raise Undef("sqrt of negative")
        a, n = _isqrt_frac(kk)
        res = res * F(a)
        if n != 1:
            res = res * rootn(n)
        return res
    # irreducible remainder: algebraic atom  r = sqrt(k*rest)
    a, n = _isqrt_frac(abs(k))
    arg = rest * F((1 if k > 0 else -1) * n)
    res = res * F(a)
    s = CTX.sym(("sqrt", arg.key()), f"sqrt({show(arg)})", "root", True, arg.num)
    return res * from_sym(s)


def sign_of(x):
    """+1 / -1 / 0, consulting the path oracle when needed"""
    s = quick_sign(x)
    if s is not None:
        return s
    if CTX.sign_oracle is None:
        raise Inconclusive(f"sign of {show(x)[:200]}")
    return CTX.sign_oracle(x)


def quick_sign(x):
    if x.is_zero():
        return 0
    if x.is_const():
        return 1 if x.const_val() > 0 else -1

    def psign(p):
        sg = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for i, e in exps(m):
                sy = CTX.syms[i]
                if not sy.pos:
                    if sy.kind in ("imag", "unit"):
                        return None
                    if e % 2:
                        return None
                    # even power of a real symbol: >=0, may vanish
                    if len(p) > 1 and 0 not in p:
                        return None
                    if len(p) == 1:
                        return None
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return sg
    sg = psign(x.num)
    if sg is None:
        return None
    for f, e in x.den:
        if e % 2:
            t = psign(CTX.factors[f])
            if t is None:
                return None
            sg *= t
    return sg


def absf(x):
    s = sign_of(x)
    if s == 0:
        return ZERO
    return x if s > 0 else -x


def _terms(x):
    """split numerator into terms over the common den: list of (coef, mono)"""
    return list(x.num.items())


def exp(x):
    """exp of a Frac.  The argument is split into terms; terms that differ only
    in *parameter* symbols stay together in one exponent."""
    if x.is_zero():
        return ONE
    res = ONE
    I = CTX.by_key.get(("imag",))
    groups = {}
    for m, c in x.num.items():
        ee = exps(m)
        # log atoms
        if not x.den and len(ee) == 1 and ee[0][1] == 1 and CTX.syms[ee[0][0]].kind == "log":
            arg = CTX.syms[ee[0][0]].info
            c = Fraction(c)
            if c.denominator == 1:
                res = res * (arg ** int(c))
                continue
            if c.denominator == 2:
                res = res * (sqrt(arg) ** int(2 * c))
                continue
        is_im = False
        if I is not None and exp_of(m, I.idx) == 1:
            is_im = True
            m -= 1 << I.shift
            ee = exps(m)
        if is_im and not x.den and len(ee) == 1 and ee[0][1] == 1 and CTX.syms[ee[0][0]].kind == "pi":
            c2 = Fraction(c) * 2
            if c2.denominator == 1:
                k = int(c2) % 4
                res = res * [ONE, imag(), -ONE, -imag()][k]
                continue
        time = 0
        for i, e in ee:
            if not CTX.syms[i].param:
                time += e << CTX.syms[i].shift
        groups.setdefault((is_im, time), {})[m] = c
    for (is_im, _), p in groups.items():
        prim, c, mono = pprim(p)
        c = Fraction(c)
        kind = "unit" if is_im else "exp"
        n = c * G
        g = G
        if n.denominator != 1:
            g = c.denominator
            n = Fraction(c.numerator)
        base = Frac(pscale(prim, 1, mono), x.den)
        if abs(n) >= 1 << 13:       # keep exponents far from the packing limit
            base = base * F(c)
            n, g = 1, 1
        s = CTX.sym((kind, base.key(), g), f"{'cis' if is_im else 'exp'}[{show(base)}/{g}]",
                    kind, kind == "exp", (base, g))
        res = res * from_sym(s, int(n))
    return res


def cos(x):
    e = exp(x * imag())
    return (e + e.conj()) * F(Fraction(1, 2))


def sin(x):
    e = exp(x * imag())
    return (e - e.conj()) * F(Fraction(1, 2)) * (-imag())


def _log_atom(x, name):
    s = CTX.sym(("log", x.key()), name, "log", False, x)
    return from_sym(s)


def log_const(c):
    c = Fraction(c)
    if c <= 0:
        raise Undef("log of non-positive")
    r = ZERO
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while n > 1 and p * p <= n and p < 5000:
            while n % p == 0:
                r = r + _log_atom(F(p), f"log{p}") * F(sg)
                n //= p
            p += 1
        if n > 1:
            r = r + _log_atom(F(n), f"log{n}") * F(sg)
    return r


def log(x):
    if x.is_zero():
        raise Undef("log(0)")
    if x.is_const():
        return log_const(x.const_val())
    if CTX.by_key.get(("imag",)) is not None and not _is_real(x):
        x2 = x * x
        if not _is_real(x2):
            raise Inconclusive("log of complex")
        if sign_of(x) <= 0:
            raise Undef("log of negative")
        return log(x2) * F(Fraction(1, 2))
    k, mono, fs = pfactor(x.num)
    for f, e in x.den:
        fs[f] = fs.get(f, 0) - e
    r = ZERO
    k = Fraction(k)
    units = {}
    for i, e in exps(mono):
        s = CTX.syms[i]
        if s.kind == "unit":
            units[i] = e
            continue
        if s.kind == "exp":
            base, g = s.info
            r = r + base * F(Fraction(e, g))
            continue
        if s.kind == "root":
            arg = F(s.info) if not isinstance(s.info, dict) else Frac(s.info)
            r = r + log(arg) * F(Fraction(e, 2))
            continue
        b = from_sym(s)
        if not s.pos:
            sg = sign_of(b)
            if sg < 0:
                b = -b
                if e % 2:
                    k = -k
            elif sg == 0:
                raise Undef("log(0)")
        r = r + _log_atom(b, f"log({s.name})") * F(e)
    for f, e in fs.items():
        if not e:
            continue
        b = Frac(CTX.factors[f])
        for i in psyms(CTX.factors[f]):
            if CTX.syms[i].kind == "unit":      # u^-m p(u) is the real factor
                m = max(dict(exps(t)).get(i, 0) for t in CTX.factors[f])
                if m % 2:
                    raise Inconclusive("log of complex")
                u = from_sym(CTX.syms[i])
                b = b * u.inv() ** (m // 2)
                units[i] = units.get(i, 0) + e * (m // 2)
        if CTX.by_key.get(("imag",)) is not None and not _is_real(b):
            raise Inconclusive("log of complex")
        sg = sign_of(b)
        if sg == 0:
            raise Undef("log(0)")
        if sg < 0:
            b = -b
            if e % 2:
                k = -k
        r = r + _log_atom(b, f"log({show(b)[:60]})") * F(e)
    if any(units.values()):
        raise Inconclusive("log of complex")
    if k < 0:
        raise Undef("log of negative")
    return r + log_const(k)


def _is_real(x):
    d = x - x.conj()
    return d.is_zero()


def power(x, y):
    if y.is_const():
        c = Fraction(y.const_val())
        if c.denominator == 1:
            return x ** int(c)
        if c.denominator == 2:
            return sqrt(x) ** int(2 * c)
    if x.is_zero():
        return ZERO
    return exp(y * log(x))


# --------------------------------------------------------------------------
# differentiation / substitution / evaluation

def diff(x, s, memo=None):
    """d x / d (symbol s)"""
    if memo is None:
        memo = {}
    n = pdiff(x.num, s, memo)
    r = n if not x.den else n * Frac({0: 1}, x.den)
    for f, e in x.den:
        df = pdiff(CTX.factors[f], s, memo)
        if not df.is_zero():
            r = r - x * df * F(e) * Frac({0: 1}, ((f, 1),))
    return r


def sym_diff(sy, s, memo):
    """(d sym/ds) / sym   as Frac"""
    if sy.idx in memo:
        return memo[sy.idx]
    if sy is s:
        r = from_sym(sy, -1)
    elif sy.kind in ("exp", "unit"):
        base, g = sy.info
        r = diff(base, s, memo) * F(Fraction(1, g))
        if sy.kind == "unit":
            r = r * imag()
    elif sy.kind == "root" and isinstance(sy.info, dict):
        a = Frac(sy.info)
        r = diff(a, s, memo) * F(Fraction(1, 2)) / a
    elif sy.kind == "log":
        a = sy.info
        d = diff(a, s, memo)
        r = ZERO if d.is_zero() else d / a / from_sym(sy)
    else:
        r = ZERO
    memo[sy.idx] = r
    return r


def pdiff(p, s, memo):
    by = {}
    for m, c in p.items():
        for i, e in exps(m):
            by.setdefault(i, {})[m] = c * e
    r = ZERO
    for i, q in by.items():
        d = sym_diff(CTX.syms[i], s, memo)
        if not d.is_zero():
            r = r + Frac(q) * d
    return r


def subst(x, mp, memo=None):
    """substitute symbols (idx -> Frac); atoms are rebuilt"""
    if memo is None:
        memo = {}

    def sval(i):
        if i in memo:
            return memo[i]
        sy = CTX.syms[i]
        if i in mp:
            v = mp[i]
        elif sy.kind == "exp":
            base, g = sy.info
            nb = subst(base, mp, memo)
            v = None if nb.key() == base.key() else exp(nb * F(Fraction(1, g)))
        elif sy.kind == "unit":
            base, g = sy.info
            nb = subst(base, mp, memo)
            v = None if nb.key() == base.key() else exp(nb * imag() * F(Fraction(1, g)))
        elif sy.kind == "root" and isinstance(sy.info, dict):
            a = Frac(sy.info)
            nb = subst(a, mp, memo)
            v = None if nb.key() == a.key() else sqrt(nb)
        elif sy.kind == "log":
            nb = subst(sy.info, mp, memo)
            v = None if nb.key() == sy.info.key() else log(nb)
        else:
            v = None
        memo[i] = v
        return v

    def psub(p):
        used = psyms(p)
        ch = {i: sval(i) for i in used}
        ch = {i: v for i, v in ch.items() if v is not None}
        if not ch:
            return Frac(p)
        r = ZERO
        pw = {}
        for m, c in p.items():
            t = None
            rest = m
            for i, e in exps(m):
                if i in ch:
                    rest -= e << (W * i)
                    k = (i, e)
                    if k not in pw:
                        pw[k] = ch[i] ** e
                    t = pw[k] if t is None else t * pw[k]
            base = Frac({rest: c})
            r = r + (base if t is None else base * t)
        return r
    r = psub(x.num)
    for f, e in x.den:
        r = r / (psub(CTX.factors[f]) ** e)
    return r


def evalf(x, env, mp=None, cache=None):
    """numeric value (mpmath) of x; env: sym idx -> mpf for var symbols"""
    import mpmath
    if cache is None:
        cache = {}

    def sval(i):
        if i in cache:
            return cache[i]
        sy = CTX.syms[i]
        if i in env:
            v = env[i]
            if isinstance(v, Fraction):
                v = mpmath.mpf(v.numerator) / v.denominator
            else:
                v = mpmath.mpf(v)
        elif sy.kind == "exp":
            base, g = sy.info
            v = mpmath.exp(evalf(base, env, mp, cache) / g)
        elif sy.kind == "unit":
            base, g = sy.info
            v = mpmath.expj(evalf(base, env, mp, cache) / g)
        elif sy.kind == "imag":
            v = mpmath.mpc(0, 1)
        elif sy.kind == "pi":
            v = +mpmath.pi
        elif sy.kind == "root":
            a = sy.info
            v = mpmath.sqrt(pval(a) if isinstance(a, dict) else a)
        elif sy.kind == "log":
            v = mpmath.log(evalf(sy.info, env, mp, cache))
        else:
            raise KeyError(sy.name)
        cache[i] = v
        return v

    def pval(p):
        t = mpmath.mpf(0)
        for m, c in p.items():
            c = Fraction(c)
            v = mpmath.mpf(c.numerator) / c.denominator
            for i, e in exps(m):
                v = v * sval(i) ** e
            t = t + v
        return t
    r = pval(x.num)
    for f, e in x.den:
        r = r / pval(CTX.factors[f]) ** e
    return r


def fsign(x, env, cache):
    """float evaluation: (value, reliable?)   env: idx -> float"""
    import cmath

    def sval(i):
        v = cache.get(i)
        if v is not None:
            return v
        sy = CTX.syms[i]
        if i in env:
            v = float(env[i])
        elif sy.kind == "exp":
            base, g = sy.info
            v = math.exp(fsign(base, env, cache)[0].real / g)
        elif sy.kind == "unit":
            base, g = sy.info
            v = cmath.exp(1j * fsign(base, env, cache)[0].real / g)
        elif sy.kind == "imag":
            v = 1j
        elif sy.kind == "pi":
            v = math.pi
        elif sy.kind == "root":
            a = sy.info
            v = math.sqrt(pv(a)[0].real if isinstance(a, dict) else a)
        elif sy.kind == "log":
            v = math.log(fsign(sy.info, env, cache)[0].real)
        else:
            raise KeyError(sy.name)
        cache[i] = v
        return v

    def pv(p):
        t, ab = 0.0, 0.0
        for m, c in p.items():
            v = float(c)
            for i, e in exps(m):
                v = v * sval(i) ** e
            t = t + v
            ab += abs(v)
        return t, ab
    n, an = pv(x.num)
    ok = abs(n) > 1e-11 * an
    for f, e in x.den:
        d, ad = pv(CTX.factors[f])
        ok = ok and abs(d) > 1e-11 * ad
        n = n / d ** e
    return complex(n), ok


def rsign(x, env, cache=None):
    """sign of the real value of x at a concrete point, or None"""
    try:
        v, ok = fsign(x, env, cache if cache is not None else {})
        if ok and math.isfinite(v.real) and v.real != 0:
            return 1 if v.real > 0 else -1
    except (OverflowError, ZeroDivisionError, ValueError):
        pass
    import mpmath
    try:
        with mpmath.workdps(60):
            v = mpmath.re(evalf(x, env))
            if abs(v) < mpmath.mpf(10) ** -45:
                return 0 if v == 0 else None
            return 1 if v > 0 else -1
    except (ZeroDivisionError, OverflowError, ValueError):
        return None


# --------------------------------------------------------------------------

def pshow(p, lim=40):
    if not p:
        return "0"
    out = []
    for n, (m, c) in enumerate(sorted(p.items(), reverse=True)):
        if n >= lim:
            out.append(f"...[{len(p)} terms]")
            break
        mm = "*".join(CTX.syms[i].name + (f"^{e}" if e != 1 else "") for i, e in exps(m))
        if not mm:
            out.append(str(c))
        elif c == 1:
            out.append(mm)
        elif c == -1:
            out.append("-" + mm)
        else:
            out.append(f"{c}*{mm}")
    return " + ".join(out)


def show(x, lim=40):
    s = pshow(x.num, lim)
    if x.den:
        s = "(" + s + ")/(" + "*".join(f"[{pshow(CTX.factors[f], lim)}]" + (f"^{e}" if e != 1 else "") for f, e in x.den) + ")"
    return s


# --------------------------------------------------------------------------
# float literals

_SMALL = [Fraction(p, q) for q in range(1, 13) for p in range(1, 40) if gcd(p, q) == 1]


def from_float(v):
    """read a floating-point constant as the real number it stands for"""
    v = float(v)
    if v != v or v in (math.inf, -math.inf):
        raise Undef("non-finite constant")
    if v == int(v) and abs(v) < 2**53:
        return F(int(v))
    if abs(Fraction(v).numerator) < 2**24:
        return F(Fraction(v))
    r = repr(v)
    mant = r.lower().split("e")[0].replace("-", "").replace(".", "").strip("0")
    if len(mant) <= 12:
        return F(Fraction(r))
    sg = -1 if v < 0 else 1
    a = abs(v)
    tol = 4e-15

    def close(b):
        return abs(a - b) <= tol * a
    fr = Fraction(a).limit_denominator(2000)
    if fr and close(float(fr)):
        return F(sg * fr)
    fr = Fraction(a / math.pi).limit_denominator(500)
    if fr and close(math.pi * float(fr)) and fr.numerator < 2000:
        return PI() * F(sg * fr)
    fr = Fraction(1 / (a * math.pi)).limit_denominator(60)
    if fr and close(1 / (math.pi * float(fr))):
        return PI().inv() * F(sg / fr)
    fr = Fraction(a * a).limit_denominator(400)
    if fr and close(math.sqrt(float(fr))) and fr.numerator < 4000:
        aa, n = _isqrt_frac(fr)
        return F(sg * aa) * (rootn(n) if n != 1 else ONE)
    if close(math.log(2 * math.pi)):
        return F(sg) * log(PI() * F(2))
    if close(math.log(math.pi)):
        return F(sg) * log(PI())
    for n in (2, 3, 5, 7, 10):
        fr = Fraction(a / math.log(n)).limit_denominator(12)
        if fr and close(math.log(n) * float(fr)):
            return log_const(n) * F(sg * fr)
    return F(Fraction(v))
