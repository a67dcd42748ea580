"""Symbolic kernel catalogue: parameters, how to build the real kernel, and the
documented closed form of its covariance."""
import math
from fractions import Fraction as Q_

import jax
import jax.numpy as jnp
import numpy as np

from engine import alg, node as nd, interp
from engine import expm as ex
from engine.alg import F, ONE, ZERO
from engine.harness import Case

import smolgp
import smolgp.kernels as K
import smolgp.kernels.base as KB
import smolgp.kernels.integrated as KI

HALF = F(Q_(1, 2))


def con(x):
    return F(Q_(x))


# ---- documented covariances ------------------------------------------------
# every entry: params(C) -> dict(args=[...], cov=lambda tau, F=..., poly terms)

class Entry:
    def __init__(self, name, params, make, integrated=None, d=None, fn=()):
        self.name, self.params, self.make, self.integrated, self.d = name, params, make, integrated, d
        self.fn = list(fn)


def p_exp(C):
    l, s = C.var("ell", True, param=True), C.var("sig", True, param=True)
    # k = sum_j c_j tau^n_j exp(-a_j tau) cos/sin: stored as list of (c, n, a, b) meaning c tau^n Re-part
    return dict(args=[l, s], terms=[(s * s, 0, l.inv(), ZERO)], var=s * s)


def p_m32(C):
    l, s = C.var("ell", True, param=True), C.var("sig", True, param=True)
    f = alg.rootn(3) / l
    return dict(args=[l, s], terms=[(s * s, 0, f, ZERO), (s * s * f, 1, f, ZERO)], var=s * s)


def p_m52(C):
    l, s = C.var("ell", True, param=True), C.var("sig", True, param=True)
    f = alg.rootn(5) / l
    return dict(args=[l, s], terms=[(s * s, 0, f, ZERO), (s * s * f, 1, f, ZERO), (s * s * f * f * con("1/3"), 2, f, ZERO)],
                var=s * s)


def p_cos(C):
    l, s = C.var("ell", True, param=True), C.var("sig", True, param=True)
    w = F(2) * alg.PI() / l
    h = s * s * HALF
    I = alg.imag()
    return dict(args=[l, s], terms=[(h, 0, ZERO, w), (h, 0, ZERO, -w)], var=s * s)


def p_const(C):
    s = C.var("sig", True, param=True)
    return dict(args=[s], terms=[(s * s, 0, ZERO, ZERO)], var=s * s)


def p_sho_u(C):
    """Q > 1/2 (outside the float band around 1/2): q=(1+k^2)/(4k), w0=u(1+k^2)"""
    k = C.var("k", True, 0.02, 0.95, param=True)
    u = C.var("u", True, param=True)
    s = C.var("sig", True, param=True)
    C.assume(k - ONE, "lt")
    k2 = k * k
    q = (ONE + k2) / (F(4) * k)
    w = u * (ONE + k2)
    C.assume(q - con("0.50001"), "gt")
    a, b = F(2) * u * k, u * (ONE - k2)
    I = alg.imag()
    # e^{-a tau}( cos b tau + a/b sin b tau )
    c1 = s * s * HALF * (ONE - I * a / b)
    c2 = s * s * HALF * (ONE + I * a / b)
    return dict(args=[w, q, s], terms=[(c1, 0, a, b), (c2, 0, a, -b)], var=s * s, a=a, b=b)


def p_sho_o(C):
    """Q < 1/2: q=k/(1+k^2), w0=2uk -> rates u(1+k^2) -+ u(1-k^2) = 2uk^2, 2u"""
    k = C.var("k", True, 0.02, 0.95)
    u = C.var("u", True)
    s = C.var("sig", True, param=True)
    C.assume(k - ONE, "lt")
    k2 = k * k
    q = k / (ONE + k2)
    w = F(2) * u * k
    C.assume(q - con("0.49999"), "lt")
    a, b = u * (ONE + k2), u * (ONE - k2)
    # cosh b tau + a/b sinh b tau
    c1 = s * s * HALF * (ONE + a / b)      # e^{-(a-b) tau}
    c2 = s * s * HALF * (ONE - a / b)      # e^{-(a+b) tau}
    return dict(args=[w, q, s], terms=[(c1, 0, a - b, ZERO), (c2, 0, a + b, ZERO)], var=s * s, a=a, b=b)


def p_sho_c(C):
    w = C.var("w", True, param=True)
    s = C.var("sig", True, param=True)
    return dict(args=[w, HALF, s], terms=[(s * s, 0, w, ZERO), (s * s * w, 1, w, ZERO)], var=s * s)


def p_per(J):
    """periodic kernel: the first J harmonics of the documented covariance,
    sigma^2 e^{-x} (S_0 + 2 sum_{0<j<J} S_j cos(2 pi j tau / P)), x = Gamma/2, with S_j
    the first 50 terms of the power series of the Bessel function I_j(x)"""
    def params(C):
        P, g, s = C.var("per", True, param=True), C.var("gam", True, 0.3, 3, param=True), C.var("sig", True, param=True)
        terms = []
        for j, c in enumerate(per_coeffs(g, J)):
            w = F(2 * j) * alg.PI() / P
            if j == 0:
                terms.append((s * s * c, 0, ZERO, ZERO))
            else:
                terms += [(s * s * c * HALF, 0, ZERO, w), (s * s * c * HALF, 0, ZERO, -w)]
        var = ZERO
        for c, *_ in terms:
            var = var + c
        return dict(args=[P, g, s], terms=terms, var=var)
    return params


def per_coeffs(g, J, terms=50):
    out = []
    y = g * con("1/4")      # x/2
    for j in range(J):
        r, p = ZERO, y ** j
        for k in range(terms):
            r = r + p * F(Q_(1, math.factorial(k) * math.factorial(k + j)))
            p = p * y * y
        out.append(r * alg.exp(-g * HALF) * F(2 if j else 1))
    return out


def p_matern(p):
    """nu = p + 1/2"""
    def params(C):
        l, s = C.var("ell", True, param=True), C.var("sig", True, param=True)
        f = alg.rootn(2 * p + 1) / l
        fc = math.factorial
        terms = []
        for i in range(p + 1):
            c = Q_(fc(p) * fc(p + i) * 2 ** (p - i), fc(2 * p) * fc(i) * fc(p - i))
            terms.append((s * s * F(c) * f ** (p - i), p - i, f, ZERO))
        return dict(args=[l, s], terms=terms, var=s * s)
    return params


ENTRIES = {e.name: e for e in [
    Entry("Exp", p_exp, lambda l, s: K.Exp(scale=l, sigma=s), lambda l, s, n: KI.IntegratedExp(scale=l, sigma=s, num_insts=n), 1, ["kernels.base.Exp"]),
    Entry("Matern32", p_m32, lambda l, s: K.Matern32(scale=l, sigma=s),
          lambda l, s, n: KI.IntegratedMatern32(scale=l, sigma=s, num_insts=n), 2, ["kernels.base.Matern32"]),
    Entry("Matern52", p_m52, lambda l, s: K.Matern52(scale=l, sigma=s),
          lambda l, s, n: KI.IntegratedMatern52(scale=l, sigma=s, num_insts=n), 3, ["kernels.base.Matern52"]),
    Entry("Cosine", p_cos, lambda l, s: K.Cosine(scale=l, sigma=s),
          lambda l, s, n: KI.IntegratedCosine(scale=l, sigma=s, num_insts=n), 2, ["kernels.base.Cosine"]),
    Entry("SHO-underdamped", p_sho_u, lambda w, q, s: K.SHO(omega=w, quality=q, sigma=s),
          lambda w, q, s, n: KI.IntegratedSHO(omega=w, quality=q, sigma=s, num_insts=n), 2, ["kernels.base.SHO"]),
    Entry("SHO-overdamped", p_sho_o, lambda w, q, s: K.SHO(omega=w, quality=q, sigma=s),
          lambda w, q, s, n: KI.IntegratedSHO(omega=w, quality=q, sigma=s, num_insts=n), 2, ["kernels.base.SHO"]),
    Entry("SHO-critical", p_sho_c, lambda w, q, s: K.SHO(omega=w, quality=q, sigma=s),
          lambda w, q, s, n: KI.IntegratedSHO(omega=w, quality=q, sigma=s, num_insts=n), 2, ["kernels.base.SHO"]),
    Entry("Constant", p_const, lambda s: KB.Constant(sigma=s), None, 1, ["kernels.base.Constant"]),
]}


def matern(nu):
    def make(l, s):
        interp.install_scipy_stub()
        # the constructor tests nu with jnp.isclose, which cannot be staged out
        with jax.ensure_compile_time_eval():
            return KB.Matern(nu=nu, scale=l, sigma=s)
    return make


def periodic(J):
    return lambda P, g, s: K.ExpSineSquared(period=P, gamma=g, sigma=s, order=J)


# the generic Matern class and the truncated periodic kernel
MATERN = {e.name: e for e in [Entry(f"Matern(nu={2 * p + 1}/2)", p_matern(p), matern(p + .5), None, p + 1, ["kernels.base.Matern"])
                              for p in range(4)]}
PERIODIC = {f"ExpSineSquared(order={J})": Entry(f"ExpSineSquared(order={J})", p_per(J), periodic(J), None, 2 * J,
            ["kernels.base.ExpSineSquared", "kernels.base.ExpSineSquared.PeriodicTerm"]) for J in (1, 2, 3, 4)}
ALL = {**ENTRIES, **MATERN, **PERIODIC}


def cov(terms, tau):
    """sum c tau^n exp((-a + i b) tau)"""
    r = ZERO
    for c, n, a, b in terms:
        e = (-a) * tau
        if not b.is_zero():
            e = e + alg.imag() * b * tau
        r = r + c * (tau ** n) * alg.exp(e)
    return r


def psd(terms, om):
    """(1/2pi) int k(|tau|) e^{-i om tau} dtau = (1/pi) Re sum c n!/(a - i b + i om)^{n+1}"""
    I = alg.imag()
    r = ZERO
    fact = [1, 1, 2, 6]
    for c, n, a, b in terms:
        for sg in (1, -1):
            z = a - I * b + (I * om if sg > 0 else -I * om)
            r = r + c * F(fact[n]) / (z ** (n + 1))
    return r / (F(2) * alg.PI())


def fr(x):
    return interp.fr(x)


def mm(A, B):
    """exact matrix product of object arrays of Frac"""
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    n, k = A.shape
    m = B.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = ZERO
            for l in range(k):
                s = s + A[i, l] * B[l, j]
            out[i, j] = s
    return out


def ma(A, B, sg=1):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        out[i] = A[i] + B[i] if sg > 0 else A[i] - B[i]
    return out


def eye(n):
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = ONE if i == j else ZERO
    return out


def zeros(*s):
    out = np.empty(s, dtype=object)
    for i in np.ndindex(*s):
        out[i] = ZERO
    return out


def arr(x):
    return np.array(x, dtype=object)


def expm_sym(Fm, dt):
    n = len(Fm)
    R = ex.expm([[Fm[i][j] * dt for j in range(n)] for i in range(n)])
    return arr(R)


def inv_sym(A):
    n = len(A)
    return arr(nd.solve_frac([list(r) for r in A], [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]))


def det_sym(A):
    return nd.det_frac([list(r) for r in A])


class Pfx:
    """the same context with every symbol name suffixed"""

    def __init__(self, C, sfx, split=False):
        self.C, self.sfx, self.split = C, sfx, split

    def var(self, name, *a, **k):
        if self.split:      # exponents of several kernels must combine and separate freely
            k["param"] = False
        return self.C.var(name + self.sfx, *a, **k)

    def assume(self, x, kind):
        return self.C.assume(x, kind)


def t_mul(x, y):
    return [(c1 * c2, n1 + n2, a1 + a2, b1 + b2) for c1, n1, a1, b1 in x for c2, n2, a2, b2 in y]


def t_scale(s, x):
    return [(s * c, n, a, b) for c, n, a, b in x]


def build(C, spec):
    """spec: entry name | ('+', s1, s2) | ('*', s1, s2) | ('s', s1)
    -> (symbolic args, rebuild(args)->kernel, covariance terms, name)"""
    args = []
    split = not isinstance(spec, str)

    def go(sp):
        if isinstance(sp, str):
            e = ALL[sp]
            k = len(args)
            p = e.params(Pfx(C, str(k), split))
            args.extend(p["args"])
            m = len(p["args"])
            return (lambda a: e.make(*a[k:k + m])), p["terms"]
        if sp[0] == "s":
            k = len(args)
            c = C.var(f"c{k}", True, param=True)
            args.append(c)
            mk, t = go(sp[1])
            return (lambda a: a[k] * mk(a)), t_scale(c, t)
        m1, t1 = go(sp[1])
        m2, t2 = go(sp[2])
        if sp[0] == "+":
            return (lambda a: m1(a) + m2(a)), t1 + t2
        return (lambda a: m1(a) * m2(a)), t_mul(t1, t2)
    mk, t = go(spec)
    return args, mk, t


def spec_name(sp):
    if isinstance(sp, str):
        return sp
    if sp[0] == "s":
        return f"c*({spec_name(sp[1])})"
    return f"({spec_name(sp[1])}{sp[0]}{spec_name(sp[2])})"


class AbsKernel(KB.StateSpaceModel):
    """an arbitrary state space model: every matrix is a symbol"""
    Fm: jnp.ndarray
    Pm: jnp.ndarray
    Hm: jnp.ndarray
    Lm: jnp.ndarray
    Qcm: jnp.ndarray
    Am: jnp.ndarray
    Qm: jnp.ndarray

    def __init__(self, Fm, Pm, Hm, Lm, Qcm, Am, Qm, name="Abs"):
        self.Fm, self.Pm, self.Hm, self.Lm, self.Qcm, self.Am, self.Qm = Fm, Pm, Hm, Lm, Qcm, Am, Qm
        self.name = name

    def design_matrix(self):
        return self.Fm

    def stationary_covariance(self):
        return self.Pm

    def observation_matrix(self, X):
        return self.Hm

    def noise(self):
        return self.Qcm

    def noise_effect_matrix(self):
        return self.Lm

    def transition_matrix(self, X1, X2):
        return self.Am

    def process_noise(self, X1, X2):
        return self.Qm


def sym_matrix(C, name, n, m, sym=False):
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = out[j, i] if sym and j < i else C.var(f"{name}{i}{j}")
    return out


def abs_args(C, d, tag):
    """matrices of an arbitrary consistent model of dimension d"""
    Fm, P = sym_matrix(C, f"F{tag}", d, d), sym_matrix(C, f"P{tag}", d, d, True)
    H, A = sym_matrix(C, f"H{tag}", 1, d), sym_matrix(C, f"A{tag}", d, d)
    Qc = ma(zeros(d, d), ma(mm(Fm, P), mm(P, Fm.T)), -1)
    Q = ma(P, mm(mm(A, P), A.T), -1)
    return [Fm, P, H, eye(d), Qc, A, Q]


FACT = [1, 1, 2, 6, 24]


def int_pow(n, lam, T):
    """int_0^T s^n exp(-lam s) ds"""
    if lam.is_zero():
        return T ** (n + 1) * F(Q_(1, n + 1))
    s = ZERO
    for k in range(n + 1):
        s = s + (lam * T) ** k * F(Q_(1, FACT[k])) if k else s + ONE
    # exp(-lam T) with lam = a - i b
    return F(FACT[n]) / lam ** (n + 1) * (ONE - cexp(lam, T) * s)


def cexp(lam, T):
    re, im = alg.re_im(lam) if ("imag",) in alg.CTX.by_key else (lam, ZERO)
    e = -re * T
    if not im.is_zero():
        e = e - alg.imag() * im * T
    return alg.exp(e)


def int_cov(terms, T):
    """int_0^T k(s) ds"""
    r = ZERO
    for c, n, a, b in terms:
        lam = a - alg.imag() * b if not b.is_zero() else a
        r = r + c * int_pow(n, lam, T)
    return r


def int2_cov(terms, T):
    """int_0^T int_0^T k(|s-s'|) ds ds' = 2 int_0^T (T-s) k(s) ds"""
    r = ZERO
    for c, n, a, b in terms:
        lam = a - alg.imag() * b if not b.is_zero() else a
        r = r + c * (T * int_pow(n, lam, T) - int_pow(n + 1, lam, T))
    return F(2) * r


def lyap_integral(Fm, W, dt):
    """Q = int_0^dt exp(F s) W exp(F' s) ds by one exact matrix exponential"""
    n = len(Fm)
    M = zeros(2 * n, 2 * n)
    for i in range(n):
        for j in range(n):
            M[i, j] = -Fm[i, j]
            M[i, n + j] = W[i, j]
            M[n + i, n + j] = Fm[j, i]
    E = expm_sym(M, dt)
    return mm(E[n:, n:].T, E[:n, n:])
