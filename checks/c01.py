"""C01: the kernel's covariance function is the documented closed form."""
from .common import *

BOUNDS = "all parameter values and times (reals); SHO: Q=1/2 exactly, or |Q-1/2|>1e-5"


def mk(e):
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)

        def f(t, d, *a):
            k = e.make(*a)
            X = jnp.stack([t, t + d])
            return (k.evaluate(t, t + d), k.evaluate(t + d, t), k.evaluate(t, t), k(X, X), k(X))
        R = C.run("covariance", f, t1, dt, *p["args"])
        kd, k0 = cov(p["terms"], dt), p["var"]
        C.eq("k(t,t+d)", R, lambda o: o[0], kd)
        C.eq("k(t+d,t)", R, lambda o: o[1], kd)
        C.eq("k(t,t)", R, lambda o: o[2], k0)
        C.eq("K(X,X)", R, lambda o: o[3], arr([[k0, kd], [kd, k0]]))
        C.shape("diag shape", R, lambda o: o[4], (2,))
        C.eq("diag", R, lambda o: o[4], arr([k0, k0]))
        C.validate(R, lambda o: o[3], "K")
    return Case(e.name, fn, functions=e.fn + ["kernels.base.StateSpaceModel.evaluate", "kernels.base.StateSpaceModel.evaluate_diag"])


def cases(tier):
    return [mk(e) for e in ALL.values()]
