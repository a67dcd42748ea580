"""C09: conditioning gives the dense posterior at the data."""
from .tab import *

BOUNDS = ("any Gauss-Markov model: d=1 up to 4 data, d=2 up to 3 data (with an observation of one state component at 3 in the quick tier), "
          "coinciding times included; every entry of A, Q, Pinf, H, every noise variance, datum and time symbolic")
OUTSIDE = "more data than the bound; unsorted times (documented as assumed sorted); floating-point rounding"
FN = ["gp.GaussianProcess.condition", "gp.GaussianProcess._compute_log_prob", "gp.ConditionedStates", "gp.GaussianProcess.predict", "gp.GaussianProcess.variance",
      "solvers.solver.StateSpaceSolver.condition", "solvers.kalman.KalmanFilter", "solvers.rts.RTSSmoother"]


def mk(events, d, H_="sym", zero=(), tier="quick", limit=300):
    def fn(C):
        W = instant(C, events, d, H_, zero=zero)
        t = W.coords(W.data)

        def f(t, R, y, H, P):
            g = GaussianProcess(TableKernel(H, P, timed=H_), pairs(t), diag=R)
            c = g.condition(y).gp
            s = c.states
            return (c.loc, c.variance, s.smoothed_mean, s.smoothed_cov, s.filtered_mean, s.filtered_cov,
                    s.predicted_mean, s.predicted_cov, c.predict(return_var=True), g.predict(None, y, return_var=True))
        R = C.run("condition", f, t, arr(W.Rn), arr(W.y), W.H, W.Pinf)
        n = len(W.data)
        C.shape("mean shape", R, lambda o: o[0], (n,))
        C.shape("variance shape", R, lambda o: o[1], (n,))
        for k, b in enumerate(W.data):
            check_posterior(C, W, f"at datum {k}", R, lambda o: o[0][k], lambda o: o[1][k], b, proj=W.Hb(b))
            check_posterior(C, W, f"predict() at datum {k}", R, lambda o: o[8][0][k], lambda o: o[8][1][k], b, proj=W.Hb(b))
            check_posterior(C, W, f"predict(None, y) at datum {k}", R, lambda o: o[9][0][k], lambda o: o[9][1][k], b, proj=W.Hb(b))
            check_posterior(C, W, f"smoothed state {k}", R, lambda o: o[2][k], lambda o: o[3][k], b)
            check_posterior(C, W, f"filtered state {k}", R, lambda o: o[4][k], lambda o: o[5][k], b, use=list(range(k + 1)))
            check_posterior(C, W, f"predicted state {k}", R, lambda o: o[6][k], lambda o: o[7][k], b, use=list(range(k)))
    return Case(f"{events}/d={d}" + ("" if H_ == "sym" else f"/H={H_}") + (f"/ties={sorted(zero)}" if zero else ""), fn, on_concrete=on_concrete,
                tier=tier, limit=limit, functions=FN)


def cases(tier):
    r = [mk("d", 1), mk("d", 2), mk("dd", 1), mk("dd", 2), mk("dd", 2, "e0"), mk("ddd", 1), mk("ddd", 2, "e0"), mk("dddd", 1), mk("dd", 3, "e0"),
         mk("d", 2, "timed"), mk("dd", 2, "labelled"), mk("ddd", 1, "labelled", zero=[1]), mk("dd", 2, "timed"), mk("ddd", 1, "timed"), mk("ddd", 1, "timed", zero=[0]),
         mk("dd", 1, zero=[0]), mk("dd", 2, zero=[0]), mk("ddd", 1, zero=[0]), mk("ddd", 1, zero=[1]), mk("ddd", 1, zero=[0, 1])]
    if tier == "thorough":
        r += [mk("ddd", 2, tier="thorough", limit=1200), mk("ddddd", 1, tier="thorough", limit=1200), mk("ddd", 3, "e0", tier="thorough", limit=1200)]
    return r
