"""C03: process noise and stationary covariance are consistent with the dynamics."""
from .common import *

BOUNDS = "all parameter values and times (reals); SHO: Q=1/2 exactly, or |Q-1/2|>1e-5"



def mk(e):
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)

        def f(t, d, *a):
            k = e.make(*a)
            F_, P, L, Qc = k.design_matrix(), k.stationary_covariance(), k.noise_effect_matrix(), k.noise()
            H = k.observation_model(t)
            return (F_, P, F_ @ P + P @ F_.T + L @ Qc @ L.T, k.process_noise(t, t + d), k.process_noise(t, t), H @ P @ H.T)
        R = C.run("noise", f, t1, dt, *p["args"])
        Fm, P = fr(R.out[0]), fr(R.out[1])
        n = len(Fm)
        C.eq("F P + P F' + L Qc L' = 0", R, lambda o: o[2], zeros(n, n))
        C.eq("H P H' = variance", R, lambda o: o[5][0, 0], p["var"])
        A = expm_sym(Fm, dt)
        want = ma(P, mm(mm(A, P), A.T), -1)
        # the code zeroes entries below 1e-14 of their natural scale
        if e.name == "SHO-underdamped":
            w = p["args"][0]
            sc = [[ONE, w], [w, w * w]]
            for i in range(n):
                for j in range(n):
                    C.eq(f"Q[{i},{j}]", R, lambda o: o[3][i, j], want[i, j],
                         tol=con("1/50000000000000") * p["var"] * sc[i][j])
                    C.eq(f"Q0[{i},{j}]", R, lambda o: o[4][i, j], ZERO)
        else:
            C.eq("Q", R, lambda o: o[3], want)
            C.eq("Q(0)=0", R, lambda o: o[4], zeros(n, n))
        C.validate(R, lambda o: o[3], "Q")
    return Case(e.name, fn, functions=e.fn)


def mk_default(e, vl):
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)

        def f(t, d, *a):
            k = e.make(*a)
            return (k.design_matrix(), k.stationary_covariance(),
                    KB.StateSpaceModel.process_noise(k, t, t + d, use_van_loan=vl))
        R = C.run("noise", f, t1, dt, *p["args"])
        Fm, P = fr(R.out[0]), fr(R.out[1])
        A = expm_sym(Fm, dt)
        C.eq("Q", R, lambda o: o[2], ma(P, mm(mm(A, P), A.T), -1))
        C.validate(R, lambda o: o[2], "Q")
    return Case(f"{e.name}/{'van-loan' if vl else 'default'}", fn,
                functions=["kernels.base.StateSpaceModel.process_noise"] + (["helpers.Q_from_VanLoan", "helpers.VanLoan"] if vl else []))


def cases(tier):
    r = [mk(e) for e in ALL.values()]
    r += [mk_default(e, vl) for e in ALL.values() for vl in (False, True)]
    return r
