"""C11: the parallel solver gives the dense posterior and likelihood."""
from .tab import *

BOUNDS = ("any Gauss-Markov model: d=1 up to 7 data (8 in the thorough tier), d=2 up to 4 data with an observation of one state component, "
          "coinciding times and test points included; observation matrices as in C08; every entry of A, Q, Pinf, H, every noise variance, datum and time symbolic")
OUTSIDE = "more data than the bound; unsorted times (documented as assumed sorted); floating-point rounding; the order of reductions on a GPU"
FN = ["solvers.parallel.solver.ParallelStateSpaceSolver", "solvers.parallel.kalman.ParallelKalmanFilter", "solvers.parallel.rts.ParallelRTSSmoother",
      "gp.GaussianProcess.condition", "gp.GaussianProcess._compute_log_prob", "gp.GaussianProcess.predict"]


def mk(events, d, H_="sym", zero=(), states=True, tier="quick", limit=300):
    def fn(C):
        W = instant(C, events, d, H_, zero=zero, t0="pos")
        t = W.coords(W.data)
        ts = W.coords(W.tests)

        def f(t, R, y, H, P, *ts):
            g = GaussianProcess(TableKernel(H, P, timed=H_), pairs(t), diag=R, solver=ParallelStateSpaceSolver)
            lp, c = g.condition(y)
            s = c.states
            p = c.predict(pairs(ts[0]), return_var=True) if ts else ()
            return (lp, g.log_probability(y), c.loc, c.variance, s.smoothed_mean, s.smoothed_cov, s.filtered_mean, s.filtered_cov,
                    s.predicted_mean, s.predicted_cov, p)
        R = C.run("parallel", f, t, arr(W.Rn), arr(W.y), W.H, W.Pinf, *([ts] if W.tests else []))
        n = len(W.data)
        C.shape("mean shape", R, lambda o: o[2], (n,))
        check_loglike(C, W, "log_probability", R, lambda o: o[1])
        check_loglike(C, W, "condition", R, lambda o: o[0])
        for k, b in enumerate(W.data):
            check_posterior(C, W, f"at datum {k}", R, lambda o: o[2][k], lambda o: o[3][k], b, proj=W.Hb(b))
            if states:
                check_posterior(C, W, f"smoothed state {k}", R, lambda o: o[4][k], lambda o: o[5][k], b)
                check_posterior(C, W, f"filtered state {k}", R, lambda o: o[6][k], lambda o: o[7][k], b, use=list(range(k + 1)))
                check_posterior(C, W, f"predicted state {k}", R, lambda o: o[8][k], lambda o: o[9][k], b, use=list(range(k)))
        for k, b in enumerate(W.tests):
            check_posterior(C, W, f"test {k}", R, lambda o: o[10][0][k], lambda o: o[10][1][k], b, proj=W.Hb(b))
    return Case(f"{events}/d={d}" + ("" if H_ == "sym" else f"/H={H_}") + (f"/ties={sorted(zero)}" if zero else ""), fn, on_concrete=on_concrete,
                tier=tier, limit=limit, functions=FN)


def cases(tier):
    r = [mk("d", 1), mk("d", 2), mk("dd", 1), mk("dd", 2), mk("ddd", 1), mk("dddd", 1), mk("ddddd", 1), mk("dddddd", 1), mk("ddddddd", 1),
         mk("dtd", 1), mk("tdd", 1), mk("ddt", 1), mk("ddtdd", 1), mk("dtd", 2), mk("ddd", 2, "e0"), mk("dddd", 2, "e0"),
         mk("d", 2, "timed"), mk("dd", 2, "labelled"), mk("ddd", 1, "labelled", zero=[1]), mk("tdtdt", 1, "labelled"), mk("dd", 2, "timed"), mk("ddd", 1, "timed"), mk("dddd", 1, "timed"), mk("dtd", 1, "timed"), mk("tddt", 1, "timed"),
         mk("dd", 1, zero=[0]), mk("ddd", 1, zero=[0]), mk("dddd", 1, zero=[1])]
    if tier == "thorough":
        r += [mk("dddddddd", 1, tier="thorough", limit=1500), mk("ddd", 2, tier="thorough", limit=1500), mk("ddd", 3, "e0", tier="thorough", limit=1500)]
    return r
