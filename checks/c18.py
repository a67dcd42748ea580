"""C18: the periodic kernel approximates its documented covariance within error_bound()."""
from .common import *

BOUNDS = ("orders 1..5: all periods, amplitudes, lags and 0 < Gamma < 60 (symbolic); default order: 7 concrete Gamma, "
          "everything else symbolic")


def true_err(k, P, g, s, n=400):
    t = np.arange(n + 1) / n * float(P)
    doc = float(s) ** 2 * np.exp(-float(g) * np.sin(np.pi * t / float(P)) ** 2)
    got = np.array(jax.vmap(lambda x: k.evaluate(0.0, x))(t))
    return float(np.max(np.abs(doc - got)))


def mk(J, gam=None):
    """Documented: sigma^2 exp(-x) exp(x cos th), x = Gamma/2, th = 2 pi tau/P,
    = sigma^2 sum_j C_j cos(j th), C_j > 0, sum C_j = 1 (Jacobi-Anger at th=0).
    If the code's covariance is sigma^2 sum_{j<J} a_j cos(j th) with a_j a partial sum of the
    (positive) series of C_j - the first obligation - then the error is
    at most sigma^2 M in size, M = 1 - sum a_j, and exactly that at th = 0.  Second obligation:
    error_bound() >= sigma^2 M.  Replay compares the real covariance with the documented one
    on a grid of lags."""
    def fn(C):
        P, s = C.var("per", True, param=True), C.var("sig", True, param=True)
        g = con(Q_(gam)) if gam is not None else C.var("gam", True, 0.02, 40, param=True)
        if gam is None:
            C.assume(g - con(60), "lt")
        t1, dt = C.var("t1"), C.var("dt", True)

        def build_(P, g, s):
            if gam is not None:
                with jax.ensure_compile_time_eval():
                    jg = jnp.asarray(gam)      # (the default order needs a concrete Gamma)
                    order = K.ExpSineSquared(period=1.0, gamma=jg).order
                return K.ExpSineSquared(period=P, gamma=gam, sigma=s, order=order)
            return K.ExpSineSquared(period=P, gamma=g, sigma=s, order=J)

        def f(t, d, P, s, g):
            k = build_(P, g, s)
            return k.evaluate(t, t + d), k.error_bound(), jnp.zeros(k.dimension)
        R = C.run("periodic", f, t1, dt, P, s, g)
        n = R.out[2].shape[0] // 2 if not C.st.fixed else None
        if C.st.fixed:
            k = build_(float(numval_(P)), float(numval_(g)), float(numval_(s)))
            n = k.order
        a = per_coeffs(g, n)
        w = F(2) * alg.PI() / P
        tot, M = ZERO, ONE
        for j, c in enumerate(a):
            M = M - c
            tot = tot + (c * HALF * (alg.exp(alg.imag() * F(j) * w * dt) + alg.exp(-alg.imag() * F(j) * w * dt)) if j else c)
        C.eq("truncated series", R, lambda o: o[0], s * s * tot)
        C.shape("error_bound is a number", R, lambda o: o[1], ())

        def margin(o):
            k = build_(*[float(C.cenv_val(v)) for v in (P, g, s)])
            err = true_err(k, *[C.cenv_val(v) for v in (P, g, s)])
            return (float(o[1]) - err) / float(C.cenv_val(s)) ** 2
        B = fr(R.out[1]).reshape(-1)[0] / (s * s) if not C.st.fixed else None
        if B is not None:
            C.rel("bound covers the largest error", R, B - M, "ge", pick=margin, tol=1e-12)
        else:
            m = margin(C.concrete(R, {}))
            C.fact("bound covers the error", m > -1e-12, f"error exceeds the bound by {-m} sigma^2", C.fixed_inputs())
        C.validate(R, lambda o: o[1], "bound")
    nm = f"order={J}" if gam is None else f"default-order/Gamma={gam}"
    return Case(nm, fn, functions=["kernels.base.ExpSineSquared", "kernels.base.ExpSineSquared.PeriodicTerm",
                                   "kernels.base.ExpSineSquared.error_bound"])


def numval_(x):
    from engine.harness import numval
    return numval(x, {})


def cases(tier):
    r = [mk(J) for J in (1, 2, 3, 4, 5)]
    r += [mk(None, g) for g in (0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0)]
    return r
