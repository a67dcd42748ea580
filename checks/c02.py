"""C02: transition matrices are the flow of the kernel's own dynamics."""
from .common import *

BOUNDS = "all parameter values and times (reals); SHO: Q=1/2 exactly, or |Q-1/2|>1e-5"


def mk(e):
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)

        def f(t, d, *a):
            k = e.make(*a)
            return k.design_matrix(), k.transition_matrix(t, t + d), k.transition_matrix(t, t)
        R = C.run("flow", f, t1, dt, *p["args"])
        Fm = fr(R.out[0])
        C.eq("A(dt)=exp(F dt)", R, lambda o: o[1], expm_sym(Fm, dt))
        C.eq("A(0)=I", R, lambda o: o[2], eye(len(Fm)))
        C.validate(R, lambda o: o[1], "A")
    return Case(e.name, fn, functions=e.fn)


def cases(tier):
    return [mk(e) for e in ALL.values()]
