"""C19: the dense reference kernels (kernels.dense) are the covariances they document."""
from .common import *
import smolgp.kernels.dense as KD

BOUNDS = ("all parameter values, times and exposure times (reals); Q > 1/2 (IntegratedSHOKernel), Q = 1/2 exactly or |Q-1/2| > 1e-5 (SHOKernel); "
          "exposures either instantaneous or longer than 1e-4 of the undamped period")


def G(terms, T):
    """int_0^T (T-s) k(s) ds"""
    return int2_cov(terms, T) * HALF if not T.is_zero() else ZERO


DAMP = {"u": "under", "o": "over", "c": "critically "}


def sho(C, damp):
    p = {"u": p_sho_u, "o": p_sho_o, "c": p_sho_c}[damp](C)
    w, q, s = p["args"]
    return p, w, q, s


def make(cls, par, w, q, s):
    if par == "SwQ":
        return [s * s / (w * q), w, q], lambda a, b, c: cls(S=a, w=b, Q=c)
    return [F(2) * alg.PI() / w, F(2) * q / w, s], lambda a, b, c: cls(rho=a, tau=b, sig=c)


def point(damp, par, form):
    def fn(C):
        p, w, q, s = sho(C, damp)
        t1, dt = C.var("t1"), C.var("dt", True)
        args, mk = make(KD.SHOKernel, par, w, q, s)

        def f(t, d, *a):
            k = mk(*a)
            i = jnp.zeros((), int)
            wrap = {"t": lambda x: x, "ti": lambda x: (x, i), "tdi": lambda x: (x, 0 * x, i)}[form]
            return k.evaluate(wrap(t), wrap(t + d)), k.evaluate(wrap(t + d), wrap(t)), k.evaluate(wrap(t), wrap(t))
        R = C.run("dense", f, t1, dt, *args)
        kd = cov(p["terms"], dt)
        C.eq("k(t,t+d)", R, lambda o: o[0], kd)
        C.eq("k(t+d,t)", R, lambda o: o[1], kd)
        C.eq("k(t,t)", R, lambda o: o[2], p["var"])
        C.validate(R, lambda o: o[0], "k")
    return Case(f"SHOKernel/{DAMP[damp]}damped/{par}/{form}", fn, functions=["kernels.dense.SHOKernel", "kernels.dense.unpack_coordinates"])


# relation of two exposures: number of free lengths -> (s1, e1, s2, e2) in terms of consecutive lengths
REL = {
    "apart": (3, lambda x: ((0, 1), (2, 3))),
    "abutting": (2, lambda x: ((0, 1), (1, 2))),
    "overlapping": (3, lambda x: ((0, 2), (1, 3))),
    "concentric": (2, lambda x: ((0, 3), (1, 2))),
    "nested": (3, lambda x: ((0, 3), (1, 2))),
    "same start": (2, lambda x: ((0, 2), (0, 1))),
    "same end": (2, lambda x: ((0, 2), (1, 2))),
    "identical": (1, lambda x: ((0, 1), (0, 1))),
    "instant after": (2, lambda x: ((0, 1), (2, 2))),
    "instant at the end": (1, lambda x: ((0, 1), (1, 1))),
    "instant at the middle": (1, lambda x: ((0, 2), (1, 1))),
    "instant inside": (2, lambda x: ((0, 2), (1, 1))),
    "instant at the start": (1, lambda x: ((0, 1), (0, 0))),
    "both instants": (1, lambda x: ((0, 0), (1, 1))),
    "same instant": (0, lambda x: ((0, 0), (0, 0))),
}


def expo(rel, par="SwQ", swap=False, damp="u", pairs_=False):
    def fn(C):
        p, w, q, s = sho(C, damp)
        n, ends = REL[rel]
        t0 = C.var("t0")
        L = [C.var(f"x{i}", True) for i in range(n)]
        if rel in ("concentric", "instant at the middle"):
            L.append(L[0])
        if rel == "nested":
            C.assume(L[0] - L[2], "ne")
        if rel == "instant inside":
            C.assume(L[0] - L[1], "ne")
        pos = [ZERO]
        for x in L:
            pos.append(pos[-1] + x)
        (a1, b1), (a2, b2) = ends(None)
        ex_ = [(pos[a1], pos[b1]), (pos[a2], pos[b2])]
        if swap:
            ex_ = ex_[::-1]
        T = F(2) * alg.PI() / w
        for a, b in ex_:
            if not (b - a).is_zero():
                C.assume((b - a) / T - con("1/10000"), "gt")
        args, mk = make(KD.IntegratedSHOKernel, par, w, q, s)
        t = arr([t0 + (a + b) * HALF for a, b in ex_])
        d = arr([b - a for a, b in ex_])

        def f(t, d, *a):
            k = mk(*a)
            if pairs_:
                return k.evaluate((t[0], d[0]), (t[1], d[1])), k((t, d))
            return k.evaluate((t[0], d[0], 0), (t[1], d[1], 0)), k((t, d, jnp.zeros(2, int)))
        R = C.run("integrated dense", f, t, d, *args)
        te = p["terms"]

        def Gd(i, j):      # G(|pos i - pos j|)
            i, j = max(i, j), min(i, j)
            return G(te, pos[i] - pos[j])

        def pair(e1, e2):
            """1/(d1 d2) int_e1 int_e2 k  (limits as the exposures shrink to instants)"""
            (a1, b1), (a2, b2) = e1, e2
            if a1 == b1 and a2 == b2:
                return cov(te, pos[max(a1, a2)] - pos[min(a1, a2)])
            if a1 == b1 or a2 == b2:
                if a1 == b1:
                    (a1, b1), (a2, b2) = (a2, b2), (a1, b1)

                def H(i):      # signed int_0^{pos i - pos a2} k
                    return int_cov(te, pos[i] - pos[a2]) if i >= a2 else -int_cov(te, pos[a2] - pos[i])
                return (H(b1) - H(a1)) / (pos[b1] - pos[a1])
            return (Gd(b1, a2) + Gd(a1, b2) - Gd(b1, b2) - Gd(a1, a2)) / ((pos[b1] - pos[a1]) * (pos[b2] - pos[a2]))
        es = list(ends(None))
        if swap:
            es = es[::-1]
        C.eq("covariance of the averages", R, lambda o: o[0], pair(*es))
        C.eq("variances", R, lambda o: o[1], arr([pair(e, e) for e in es]))
        C.validate(R, lambda o: o[0], "k")
    nm = f"IntegratedSHOKernel/{rel}" + ("/swapped" if swap else "") + ("" if par == "SwQ" else "/" + par) + ("/pairs" if pairs_ else "")
    if damp != "u":
        nm = "IntegratedSHOKernel-" + {"o": "overdamped", "c": "critical"}[damp]
    return Case(nm, fn,
                functions=["kernels.dense.IntegratedSHOKernel"])


def cases(tier):
    r = [point(dm, "SwQ", "t") for dm in "uoc"]
    r += [point("u", "rts", "t"), point("u", "SwQ", "ti"), point("u", "SwQ", "tdi")]
    r += [expo(x) for x in REL] + [expo(x, swap=True) for x in REL] + [expo(x, par="rts") for x in ("overlapping", "instant inside")]
    r += [expo(x, pairs_=True) for x in ("overlapping", "instant inside")]
    r += [expo("apart", damp=dm) for dm in "oc"]
    return r
