"""C10: prediction at arbitrary points gives the dense posterior."""
from .tab import *

BOUNDS = ("any Gauss-Markov model: d=1 up to 3 data and one or two test points in every position (before, between, after, at the data), "
          "d=2 up to 2 data; observation matrices constant, arbitrary functions of time, or depending on a label (tuple coordinates); every entry of A, Q, Pinf, H, every noise variance, datum and time symbolic")
OUTSIDE = "more data or test points than the bound; unsorted data times (documented as assumed sorted); floating-point rounding"
FN = ["gp.GaussianProcess.predict", "gp.GaussianProcess.condition", "gp.ConditionedStates", "gp.PredictedStates",
      "solvers.solver.StateSpaceSolver.predict", "solvers.solver.StateSpaceSolver.condition", "solvers.kalman.KalmanFilter", "solvers.rts.RTSSmoother"]


def mk(events, d, H_="sym", zero=(), order=None, tier="quick", limit=300):
    """order: permutation of the test points as passed to predict"""
    def fn(C):
        W = instant(C, events, d, H_, zero=zero, t0="pos" if d > 1 else True)
        t = W.coords(W.data)
        perm = order or list(range(len(W.tests)))
        tb = [W.tests[i] for i in perm]
        ts = W.coords(tb)

        om = row([C.var(f"om{i}", False, 0.5, 1.5) for i in range(d)])

        def f(t, R, y, H, P, ts, om):
            g = GaussianProcess(TableKernel(H, P, timed=H_), pairs(t), diag=R)
            ts = pairs(ts)
            c = g.condition(y).gp
            ps = c.predict(ts, return_full_state=True)
            c2 = g.condition(y, ts).gp
            return (c.predict(ts, return_var=True), g.predict(ts, y, return_var=True), (ps.mean, ps.cov), (ps.loc, ps.variance),
                    (c2.loc, c2.variance), c.predict(ts), c2.predict(return_var=True), c.predict(ts, return_var=True, observation_model=lambda X: om),
                    c.predict(return_var=True, observation_model=lambda X: om), g.predict(None, y, return_var=True, observation_model=lambda X: om))
        R = C.run("predict", f, t, arr(W.Rn), arr(W.y), W.H, W.Pinf, ts, om)
        n = len(tb)
        for i in (0, 1, 3, 4):
            C.shape(f"mean shape {i}", R, lambda o: o[i][0], (n,))
            C.shape(f"variance shape {i}", R, lambda o: o[i][1], (n,))
        C.shape("full state", R, lambda o: o[2][1], (n, d, d))
        for k, b in enumerate(tb):
            for i, what in ((0, "condGP.predict"), (1, "gp.predict(X, y)"), (3, "PredictedStates"), (4, "condition(y, X)"), (6, "condition(y, X).predict()")):
                check_posterior(C, W, f"{what} at test {k}", R, lambda o: o[i][0][k], lambda o: o[i][1][k], b, proj=W.Hb(b))
            check_posterior(C, W, f"other observation at test {k}", R, lambda o: o[7][0][k], lambda o: o[7][1][k], b, proj=om)
            check_posterior(C, W, f"full state at test {k}", R, lambda o: o[2][0][k], lambda o: o[2][1][k], b)
            check_posterior(C, W, f"mean only at test {k}", R, lambda o: o[5][k], lambda o: o[0][1][k], b, proj=W.Hb(b))
        for k, b in enumerate(W.data):
            for i in (8, 9):
                check_posterior(C, W, f"other observation at datum {k}", R, lambda o: o[i][0][k], lambda o: o[i][1][k], b, proj=om)
    return Case(f"{events}/d={d}" + ("" if H_ == "sym" else f"/H={H_}") + (f"/ties={sorted(zero)}" if zero else "") +
                (f"/order={order}" if order else ""), fn, on_concrete=on_concrete,
                tier=tier, limit=limit, functions=FN)


def cases(tier):
    r = []
    for ev in ("td", "dt", "tdd", "dtd", "ddt"):
        r += [mk(ev, 1), mk(ev, 2)]
    for ev in ("tddd", "dtdd", "ddtd", "dddt"):
        r += [mk(ev, 1)]
    r += [mk("tdtdt", 1, order=[1, 2, 0]), mk("dttd", 1, order=[1, 0]), mk("ttdd", 1), mk("ddtt", 1)]
    r += [mk("td", 1, zero=[0]), mk("tdd", 1, zero=[0]), mk("dtd", 1, zero=[0]), mk("dtd", 1, zero=[1]), mk("ddt", 1, zero=[1])]
    r += [mk("dtd", 2, zero=[0])]
    r += [mk(ev, 1, "labelled") for ev in ("tdd", "dtd", "ddt")] + [mk("tdtdt", 1, "labelled", order=[1, 2, 0])]
    r += [mk(ev, 1, "timed") for ev in ("tdd", "dtd", "ddt", "tdtdt")] + [mk("dtd", 2, "timed"), mk("td", 2, "timed"), mk("dt", 2, "timed")]
    return r
