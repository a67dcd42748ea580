"""Lazy symbolic scalars (DAG) and lazy booleans."""
from __future__ import annotations
import math
from fractions import Fraction
from . import alg


class Node:
    __slots__ = ("op", "args", "val", "c")

    def __init__(self, op, args, val=None, c=None):
        self.op = op
        self.args = args
        self.val = val      # Frac once evaluated
        self.c = c          # python number if it is a literal constant (or inf/nan)

    def __repr__(self):
        return f"Node({self.op},{self.c if self.c is not None else ''})"


def const(v):
    """python/numpy number -> Node"""
    if isinstance(v, Fraction):
        return Node("c", (), alg.F(v), v)
    if isinstance(v, int):
        return Node("c", (), alg.F(v), v)
    if isinstance(v, complex) or hasattr(v, "imag") and v.imag != 0:
        return add(const(float(v.real)), mul(const(float(v.imag)), wrap(alg.imag())))
    v = float(v.real) if hasattr(v, "real") else float(v)
    if v != v or v in (math.inf, -math.inf):
        return Node("c", (), None, v)
    if v == int(v) and abs(v) < 2 ** 53:
        return Node("c", (), alg.F(int(v)), int(v))
    f = alg.from_float(v)
    return Node("c", (), f, Fraction(f.const_val()) if f.is_const() else v)


def wrap(fr):
    if fr.is_const():
        return Node("c", (), fr, fr.const_val())
    return Node("v", (), fr)


def is0(n):
    return n.op == "c" and n.c == 0


def is1(n):
    return n.op == "c" and n.c == 1


def exactc(n):
    return n.op == "c" and isinstance(n.c, (int, Fraction))


def add(a, b):
    if is0(a):
        return b
    if is0(b):
        return a
    if exactc(a) and exactc(b):
        return const(Fraction(a.c) + b.c)
    return Node("+", (a, b))


def sub(a, b):
    if is0(b):
        return a
    if exactc(a) and exactc(b):
        return const(Fraction(a.c) - b.c)
    if is0(a):
        return neg(b)
    return Node("-", (a, b))


def neg(a):
    if exactc(a):
        return const(-Fraction(a.c))
    return Node("neg", (a,))


ZERO = Node("c", (), alg.ZERO, 0)
ONE = Node("c", (), alg.ONE, 1)


def mul(a, b):
    if is0(a) or is0(b):
        return ZERO
    if is1(a):
        return b
    if is1(b):
        return a
    if exactc(a) and exactc(b):
        return const(Fraction(a.c) * b.c)
    return Node("*", (a, b))


def div(a, b):
    if is1(b):
        return a
    if exactc(b) and b.c != 0:
        if exactc(a):
            return const(Fraction(a.c) / b.c)
        return mul(a, const(1 / Fraction(b.c)))
    if is0(a) and b.op != "c":
        return Node("/", (a, b))   # stay lazy: 0/0 must be seen
    return Node("/", (a, b))


def ipow(a, n):
    if n == 1:
        return a
    if exactc(a) and (a.c != 0 or n >= 0):
        return const(Fraction(a.c) ** n)
    return Node("ipow", (a,), c=n)


def fn(name, *a):
    return Node(name, a)


def force(n):
    """evaluate a node to a Frac (iterative, memoised)"""
    if n.val is not None:
        return n.val
    stack = [n]
    while stack:
        x = stack[-1]
        if x.val is not None:
            stack.pop()
            continue
        op = x.op
        if op == "c":
            raise alg.Undef(f"non-finite constant {x.c}")
        if op == "sel":
            p, cases = x.args
            i = p.force() if isinstance(p, LazyBool) else int(p)
            y = cases[int(i)]
            if y.val is None:
                stack.append(y)
                continue
            x.val = y.val
            stack.pop()
            continue
        if op == "solve":
            obj, i, j = x.args
            x.val = obj.get(i, j)
            stack.pop()
            continue
        if op in ("max", "min"):
            pend = [y for y in x.args if y.val is None]
            if pend:
                if any(y.op == "c" for y in pend):   # infinities
                    a, b = x.args
                    inf = a if a.op == "c" and a.val is None else b
                    oth = b if inf is a else a
                    if inf.c != inf.c:
                        raise alg.Undef("nan")
                    pick = (inf if (inf.c > 0) == (op == "max") else oth)
                    if pick is inf:
                        raise alg.Undef("inf")
                    if oth.val is None:
                        stack.append(oth)
                        continue
                    x.val = oth.val
                    stack.pop()
                    continue
                stack.extend(pend)
                continue
            a, b = (y.val for y in x.args)
            s = alg.sign_of(a - b)
            x.val = (a if s >= 0 else b) if op == "max" else (b if s >= 0 else a)
            stack.pop()
            continue
        pend = [y for y in x.args if y.val is None]
        if pend:
            stack.extend(pend)
            continue
        v = [y.val for y in x.args]
        if op == "+":
            r = v[0] + v[1]
        elif op == "sum":
            r = v[0]
            for y in v[1:]:
                r = r + y
        elif op == "-":
            r = v[0] - v[1]
        elif op == "*":
            r = v[0] * v[1]
        elif op == "/":
            if alg.quick_sign(v[1]) in (None, 0):
                DIVISORS.append(v[1])
            r = v[0] / v[1]
        elif op == "neg":
            r = -v[0]
        elif op == "ipow":
            r = v[0] ** x.c
        elif op == "exp":
            r = alg.exp(v[0])
        elif op == "expm1":
            r = alg.exp(v[0]) - alg.ONE
        elif op == "log":
            r = alg.log(v[0])
        elif op == "log1p":
            r = alg.log(v[0] + alg.ONE)
        elif op == "sin":
            r = alg.sin(v[0])
        elif op == "cos":
            r = alg.cos(v[0])
        elif op == "tan":
            r = alg.sin(v[0]) / alg.cos(v[0])
        elif op == "sinh":
            e = alg.exp(v[0])
            r = (e - e.inv()) * alg.F(Fraction(1, 2))
        elif op == "cosh":
            e = alg.exp(v[0])
            r = (e + e.inv()) * alg.F(Fraction(1, 2))
        elif op == "tanh":
            e = alg.exp(v[0])
            r = (e - e.inv()) / (e + e.inv())
        elif op == "logistic":
            r = alg.ONE / (alg.ONE + alg.exp(-v[0]))
        elif op == "sqrt":
            r = alg.sqrt(v[0])
        elif op == "rsqrt":
            r = alg.sqrt(v[0]).inv()
        elif op == "abs":
            r = alg.absf(v[0])
        elif op == "sign":
            r = alg.F(alg.sign_of(v[0]))
        elif op == "pow":
            r = alg.power(v[0], v[1])
        elif op == "real":
            r = alg.re_im(v[0])[0]
        elif op == "imag":
            r = alg.re_im(v[0])[1]
        elif op == "conj":
            r = v[0].conj()
        elif op == "lgamma":
            r = _lgamma(v[0])
        else:
            raise alg.Inconclusive(f"unsupported operation {op} on a symbolic value")
        x.val = r
        stack.pop()
    return n.val


def _lgamma(v):
    if v.is_const():
        c = Fraction(v.const_val())
        if c.denominator == 1 and c > 0:
            return alg.log_const(math.factorial(int(c) - 1)) if c > 2 else alg.ZERO
        if c.denominator == 2 and c > 0:
            # Gamma(n+1/2) = (2n)!/(4^n n!) sqrt(pi)
            n = int(c - Fraction(1, 2))
            k = Fraction(math.factorial(2 * n), 4 ** n * math.factorial(n))
            return alg.log_const(k) + alg.log(alg.PI()) * alg.F(Fraction(1, 2))
    raise alg.Inconclusive("lgamma of a symbolic value")


# ---------------------------------------------------------------------------

class LazyBool:
    """boolean decided on demand by the path explorer"""
    __slots__ = ("kind", "args", "val")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self.val = None

    def force(self):
        if self.val is None:
            self.val = self._f()
        return self.val

    __bool__ = force

    def _f(self):
        k = self.kind
        if k == "and":
            return all(fb(a) for a in self.args)
        if k == "or":
            return any(fb(a) for a in self.args)
        if k == "xor":
            return fb(self.args[0]) != fb(self.args[1])
        if k == "not":
            return not fb(self.args[0])
        if k == "sel":
            p, cases = self.args
            return fb(cases[int(fb(p)) if isinstance(p, LazyBool) else int(p)])
        if k == "finite":
            try:
                force(self.args[0])
                return True
            except alg.Undef:
                return False
        if k == "nan":
            try:
                force(self.args[0])
                return False
            except alg.Undef:
                return True
        a, b = self.args
        infs = [(n.c if n.op == "c" and n.val is None else None) for n in (a, b)]
        if infs[0] is not None or infs[1] is not None:
            x = infs[0] if infs[0] is not None else 0.0
            y = infs[1] if infs[1] is not None else 0.0
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[k]
        if b.op == "abs" and a.op != "abs":
            a, b = b, a
            k = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(k, k)
        if a.op == "abs" and b.op != "abs" and _ABS is not None and k in ("lt", "le", "gt", "ge"):
            r = _abs_cmp(a, b, k)
            if r is not None:
                return r
        try:
            d = force(a) - force(b)
        except alg.Undef:
            return k == "ne"
        q = alg.quick_sign(d)
        if q is None:
            q = _oracle(d, k)
            if isinstance(q, bool):
                return q
        return {"lt": q < 0, "le": q <= 0, "gt": q > 0, "ge": q >= 0, "eq": q == 0, "ne": q != 0}[k]


def _abs_cmp(a, b, k):
    """|x| compared with a positive threshold, decided without splitting on the sign of x"""
    x = force(a.args[0])
    if exactc(b):
        if b.c <= 0:
            return None
        c = Fraction(b.c)
    else:
        t = force(b)
        if alg.quick_sign(t) != 1:
            return None
        x, c = x / t, Fraction(1)
    if x.is_const():
        q = abs(x.const_val()) - c
        return {"lt": q < 0, "le": q <= 0, "gt": q > 0, "ge": q >= 0}[k]
    r = _ABS(x, c, k in ("lt", "ge"))
    return r if k in ("lt", "le") else not r


_ORACLE = None
_ABS = None
DIVISORS = []      # divisors met while executing the real code (current path)


def set_oracle(f, g=None):
    global _ORACLE, _ABS
    _ORACLE, _ABS = f, g
    DIVISORS.clear()


def _oracle(d, k):
    if _ORACLE is None:
        raise alg.Inconclusive("no path oracle")
    return _ORACLE(d, k)


def fb(b):
    if isinstance(b, LazyBool):
        return b.force()
    return bool(b)


def lb(kind, *args):
    return LazyBool(kind, args)


class Mat:
    """lazy exact linear solve  A X = B (square A)"""

    def __init__(self, A, B):
        self.A, self.B = A, B    # lists of lists of Node
        self.sol = None

    def get(self, i, j):
        if self.sol is None:
            self._solve()
        return self.sol[i][j]

    def _solve(self):
        A = [[force(x) for x in r] for r in self.A]
        B = [[force(x) for x in r] for r in self.B]
        self.sol = solve_frac(A, B)


def blocks(A):
    """block-triangular structure: connected components by nonzero pattern"""
    n = len(A)
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for i in range(n):
        for j in range(n):
            if i != j and not A[i][j].is_zero():
                a, b = find(i), find(j)
                if a != b:
                    comp[a] = b
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(i)
    return list(out.values())


def det_frac(A):
    n = len(A)
    if n == 0:
        return alg.ONE
    if n == 1:
        return A[0][0]
    if n == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    # Laplace with memo over column subsets
    from functools import lru_cache

    @lru_cache(None)
    def d(r, cols):
        if r == n:
            return alg.ONE
        s = alg.ZERO
        sg = 1
        for k, c in enumerate(cols):
            a = A[r][c]
            if not a.is_zero():
                sub = d(r + 1, cols[:k] + cols[k + 1:])
                if not sub.is_zero():
                    t = a * sub
                    s = s + t if sg > 0 else s - t
            sg = -sg
        return s
    return d(0, tuple(range(n)))


def solve_frac(A, B):
    n = len(A)
    m = len(B[0]) if n else 0
    X = [[None] * m for _ in range(n)]
    for blk in blocks(A):
        a = [[A[i][j] for j in blk] for i in blk]
        k = len(blk)
        D = det_frac(a)
        if D.is_zero():
            raise alg.Undef("singular matrix")
        if alg.quick_sign(D) is None:
            DIVISORS.append(D)
        Di = D.inv()
        # adjugate
        for jj in range(m):
            b = [B[i][jj] for i in blk]
            if all(x.is_zero() for x in b):
                for i in blk:
                    X[i][jj] = alg.ZERO
        cof = None
        for jj in range(m):
            if X[blk[0]][jj] is not None:
                continue
            if cof is None:
                cof = [[None] * k for _ in range(k)]
                for i in range(k):
                    for j in range(k):
                        minor = [[a[r][c] for c in range(k) if c != j] for r in range(k) if r != i]
                        d = det_frac(minor)
                        cof[i][j] = d if (i + j) % 2 == 0 else -d
            b = [B[i][jj] for i in blk]
            for i in range(k):
                s = alg.ZERO
                for j in range(k):
                    if not b[j].is_zero() and not cof[j][i].is_zero():
                        s = s + cof[j][i] * b[j]
                X[blk[i]][jj] = s * Di
    return X
