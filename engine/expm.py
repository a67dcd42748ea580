"""Exact matrix exponential of a symbolic matrix (Newton/Putzer form with
confluent divided differences of exp at the exact eigenvalues)."""
from __future__ import annotations
from fractions import Fraction
from . import alg, node as nd


def sccs(A):
    n = len(A)
    reach = [[i == j or not A[i][j].is_zero() for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if reach[i][k]:
                for j in range(n):
                    if reach[k][j]:
                        reach[i][j] = True
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        c = [j for j in range(n) if reach[i][j] and reach[j][i]]
        seen |= set(c)
        out.append(c)
    return out


def eig2(tr, det):
    half = alg.F(Fraction(1, 2))
    m = tr * half
    disc = m * m - det
    if disc.is_zero():
        return [m, m]
    s = alg.sign_of(disc)
    if s == 0:
        return [m, m]
    if s > 0:
        r = alg.sqrt(disc)
    else:
        r = alg.sqrt(-disc) * alg.imag()
    return [m + r, m - r]


def eigenvalues(A):
    lam = []
    for c in sccs(A):
        k = len(c)
        B = [[A[i][j] for j in c] for i in c]
        if k == 1:
            lam.append(B[0][0])
        elif k == 2:
            lam += eig2(B[0][0] + B[1][1], nd.det_frac(B))
        else:
            tr = alg.ZERO
            for i in range(k):
                tr = tr + B[i][i]
            l0 = tr * alg.F(Fraction(1, k))
            # nilpotent test of (B - l0)
            N = [[B[i][j] - (l0 if i == j else alg.ZERO) for j in range(k)] for i in range(k)]
            P = N
            for _ in range(k - 1):
                P = matmul(P, N)
            if all(x.is_zero() for r in P for x in r):
                lam += [l0] * k
            else:
                raise alg.Inconclusive("eigenvalues of a %dx%d block" % (k, k))
    return lam


def matmul(A, B):
    n, m, p = len(A), len(B), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(p):
            s = alg.ZERO
            for k in range(m):
                if not A[i][k].is_zero() and not B[k][j].is_zero():
                    s = s + A[i][k] * B[k][j]
            row.append(s)
        out.append(row)
    return out


def expm(A):
    n = len(A)
    lam = eigenvalues(A)
    groups = []
    for l in lam:
        for g in groups:
            if (g[0] - l).is_zero():
                g.append(l)
                break
        else:
            groups.append([l])
    lam = [l for g in groups for l in [g[0]] * len(g)]
    ex = {}

    def e(l):
        k = l.key()
        if k not in ex:
            ex[k] = alg.exp(l)
        return ex[k]
    # divided differences table
    T = {}
    fact = [1]
    for i in range(1, n + 1):
        fact.append(fact[-1] * i)
    for w in range(n):
        for i in range(n - w):
            j = i + w
            if lam[i].key() == lam[j].key():
                T[i, j] = e(lam[i]) * alg.F(Fraction(1, fact[w]))
            else:
                T[i, j] = (T[i + 1, j] - T[i, j - 1]) / (lam[j] - lam[i])
    I = [[alg.ONE if i == j else alg.ZERO for j in range(n)] for i in range(n)]
    P = I
    R = [[alg.ZERO] * n for _ in range(n)]
    for k in range(n):
        c = T[0, k]
        for i in range(n):
            for j in range(n):
                if not P[i][j].is_zero():
                    R[i][j] = R[i][j] + c * P[i][j]
        if k < n - 1:
            P = matmul(P, [[A[i][j] - (lam[k] if i == j else alg.ZERO) for j in range(n)] for i in range(n)])
            if all(x.is_zero() for r in P for x in r):
                break
    return R


class LazyExpm:
    def __init__(self, A):
        self.A = A
        self.norm_block = len(A)
        self.r = None

    def get(self, i, j):
        if self.r is None:
            A = [[nd.force(x) for x in r] for r in self.A]
            self.r = expm(A)
        return self.r[i][j]
