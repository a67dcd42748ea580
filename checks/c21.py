"""C21: a GP has no hidden state: histories of operations do not change its answers."""
from .integ import *

BOUNDS = ("every history of one or two earlier operations (condition at the data, condition at test points, predict, likelihood - all on other, symbolic data - and passage "
          "through jax.jit / flattening), then likelihood, conditioning and prediction, asked twice, singly and batched with vmap; any Gauss-Markov model with d=1, two data, one test "
          "point (in between or after); the four solvers; every matrix entry, noise variance, datum and time symbolic (integrated: one instrument)")
OUTSIDE = "longer histories, more data; GPs changed in place by the user; floating-point rounding"
FN = ["gp.GaussianProcess.condition", "gp.GaussianProcess.predict", "gp.GaussianProcess.log_probability", "gp.ConditionedStates", "gp.GaussianProcess.__init__",
      "solvers.solver.StateSpaceSolver", "solvers.parallel.solver.ParallelStateSpaceSolver", "solvers.integrated.solver.IntegratedStateSpaceSolver",
      "solvers.integrated.parallel.solver.ParallelIntegratedStateSpaceSolver"]
OPS = {
    "cond": lambda g, z, ts: g.condition(z).gp,
    "condx": lambda g, z, ts: g.condition(z, ts).gp,
    "pred": lambda g, z, ts: (g.predict(ts, z, return_var=True), g)[1],
    "llh": lambda g, z, ts: (g.log_probability(z), g)[1],
    "jit": lambda g, z, ts: jax.jit(lambda q: q)(g),
    "full": lambda g, z, ts: (g.predict(ts, z, return_full_state=True), g)[1],
}


def lv(g):
    return g.loc, g.variance


def history(ops, events, solver=None, m=0, tier="quick", limit=300):
    def fn(C):
        W = build_int(C, events, 1, [0, 0], 1) if m else instant(C, events, 1)
        n = len(W.y)
        if m:
            dat = [({W.end[k]: row([ONE, ZERO])}, None) if W.delta_n[k].is_zero() else W.obs[k] for k in range(n)]
            tgt = [W.latent[b] for b in W.tests]
            proj = None
        else:
            dat, tgt = W.data, W.tests
            proj = [W.Hb(b) for b in range(W.B)]
        ts = arr([W.T[b] for b in W.tests])
        z = [C.var(f"z{k}", False, -2.0, 2.0) for k in range(n)]
        td = W.coords if m else (arr([W.T[b] for b in W.data]),)

        def f(R, y, z, H, P, ts, *td):
            X = (*td, jnp.zeros(n, dtype=int)) if m else td[0]
            xt = (ts, jnp.zeros_like(ts), jnp.zeros(ts.shape, dtype=int)) if m else ts
            k = TableIntegrated(H, P, 1) if m else TableKernel(H, P)
            g0 = GaussianProcess(k, X, diag=R, **({"solver": solver} if solver else {}))
            g = g0
            for o in ops:
                g = OPS[o](g, z, xt)
            lp, c = g.condition(y)
            first = lv(c)
            ft = c.predict(xt, return_var=True)
            lp2, cx = g.condition(y, xt)
            again = c.predict(xt, return_var=True)
            b = jax.vmap(lambda v: (lambda r: (r.log_probability, r.gp.loc, r.gp.variance, r.gp.predict(xt)))(g.condition(v)))(jnp.stack([z, y]))
            return dict(llh=[lp, lp2, g.log_probability(y), c.log_probability(y), cx.log_probability(y), g0.log_probability(y), b[0][1]],
                        data=[first, lv(c), c.predict(return_var=True), lv(g0.condition(y).gp), lv(c.condition(y).gp), lv(cx.condition(y).gp), (b[1][1], b[2][1])],
                        tests=[ft, again, lv(cx), cx.predict(return_var=True), cx.predict(xt, return_var=True), (b[3][1], ft[1]), g0.predict(xt, y, return_var=True)],
                        fresh=g0.loc)
        R = C.run("history", f, arr(W.Rn), arr(W.y), arr(z), W.H, W.Pinf, ts, *td)
        C.shape("data", R, lambda o: o["data"][5][0], (n,))
        C.shape("tests", R, lambda o: o["tests"][2][0], (len(tgt),))
        C.eq("prior mean of the first GP", R, lambda o: o["fresh"], [ZERO] * n)
        ll = ["condition", "condition(X)", "log_probability", "conditioned.log_probability", "conditioned(X).log_probability", "first.log_probability", "vmap"]
        for i, nm in enumerate(ll):
            (check_loglike_int if m else check_loglike)(C, W, f"likelihood: {nm}", R, lambda o: o["llh"][i])
        dd = ["condition", "after predicting", "predict()", "first GP", "conditioned again", "conditioned(X) again", "vmap"]
        for i, nm in enumerate(dd):
            for k in range(n):
                check_posterior(C, W, f"{nm}: datum {k}", R, lambda o: o["data"][i][0][k], lambda o: o["data"][i][1][k], dat[k], proj=None if m else proj[dat[k]])
        tt = ["predict", "predict again", "condition(X)", "condition(X).predict()", "condition(X).predict(X)", "vmap", "first GP"]
        for i, nm in enumerate(tt):
            for k in range(len(tgt)):
                check_posterior(C, W, f"{nm}: test {k}", R, lambda o: o["tests"][i][0][k], lambda o: o["tests"][i][1][k], tgt[k], proj=None if m else proj[tgt[k]])
    sv = ("integrated-" if m else "") + ("parallel" if solver else "sequential")
    return Case(f"{sv}/{events.replace(' ', '')}/{'+'.join(ops) or 'fresh'}", fn, on_concrete=on_concrete, tier=tier, limit=limit, functions=FN)


def cases(tier):
    r = []
    one = [(o,) for o in OPS]
    two = [(a, b) for a in OPS for b in OPS]
    for sv, m, evs in ((None, 0, ("dtd", "ddt")), (ParallelStateSpaceSolver, 0, ("dtd", "ddt")),
                       (None, 1, ("[a ]a t [b ]b", "[a t ]a [b ]b")), (ParallelIntegratedStateSpaceSolver, 1, ("[a ]a t [b ]b", "[a t ]a [b ]b"))):
        for i, h in enumerate([()] + one + two):
            r.append(history(h, evs[i % 2], sv, m))
    return r
