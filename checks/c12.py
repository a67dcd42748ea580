"""C12: exposure-averaged data: exact likelihood and posterior of the integrated model."""
from .integ import *

BOUNDS = ("any Gauss-Markov base process with its running integral: d=1 (d=2 with fewer data), up to three data of one instrument, every matrix entry, exposure, gap, "
          "noise variance and datum symbolic; two or three instruments with every interleaving kind (overlapping, nested, abutting, simultaneous exposures): state matrices rational "
          "numbers drawn from the seed, noises, data and times symbolic")
OUTSIDE = "more data or instruments than the bound; overlapping exposures of one instrument; floating-point rounding of exposure boundaries"
FN = ["solvers.integrated.solver.IntegratedStateSpaceSolver", "solvers.integrated.kalman.IntegratedKalmanFilter", "solvers.integrated.rts.IntegratedRTSSmoother",
      "kernels.integrated.IntegratedStateSpaceModel", "gp.GaussianProcess.condition", "gp.GaussianProcess.predict", "gp.ConditionedStates.project_at_data"]


def mk_case(events, d=1, insts=None, m=1, conc=None, zero=(), perm=None, part="all", label=None, tier="quick", limit=300, solver=None, fns=FN):
    """perm: order in which the data are passed"""
    N = len({n for k, n in parse(events) if n is not None})
    insts = list(insts or [0] * N)

    def fn(C):
        W = build_int(C, events, d, insts, m, conc, zero)
        pm = list(perm or range(N))
        t, dl = (arr([c[n] for n in pm]) for c in W.coords)
        ids = np.array([insts[n] for n in pm])
        ts = arr([W.T[b] for b in W.tests])

        def f(t, dl, R, y, H, P, *ts):
            k = TableIntegrated(H, P, m)
            g = GaussianProcess(k, (t, dl, jnp.asarray(ids)), diag=R, **({"solver": solver} if solver else {}))
            lp, c = g.condition(y)
            s = c.states
            p = c.predict(ts[0], return_var=True) if ts else ()
            pt = c.predict((ts[0], jnp.zeros_like(ts[0]), jnp.zeros(len(ts[0]), dtype=int)), return_var=True) if ts else ()
            return (lp, g.log_probability(y), c.loc, c.variance, s.smoothed_mean, s.smoothed_cov, s.filtered_mean, s.filtered_cov,
                    s.predicted_mean, s.predicted_cov, p, pt, s.t_states)
        R = C.run("integrated", f, t, dl, arr([W.Rn[n] for n in pm]), arr([W.y[n] for n in pm]), W.H, W.Pinf, *([ts] if len(ts) else []))
        C.shape("mean shape", R, lambda o: o[2], (N,))
        check_loglike_int(C, W, "log_probability", R, lambda o: o[1])
        check_loglike_int(C, W, "condition", R, lambda o: o[0])
        for i, n in enumerate(pm if part != "filter" else []):
            f0 = W.obs[n] if not W.delta_n[n].is_zero() else W.latent[W.end[n]]
            check_posterior(C, W, f"at datum {n}", R, lambda o: o[2][i], lambda o: o[3][i], f0)
        for i in range(len(W.states) if part != "light" else 0):
            if part != "filter":
                check_posterior(C, W, f"smoothed state {i}", R, lambda o: o[4][i], lambda o: o[5][i], state_target(W, i))
            check_posterior(C, W, f"filtered state {i}", R, lambda o: o[6][i], lambda o: o[7][i], state_target(W, i, True), use=before(W, i, True))
            check_posterior(C, W, f"predicted state {i}", R, lambda o: o[8][i], lambda o: o[9][i], state_target(W, i), use=before(W, i, False))
        for k, b in enumerate(W.tests if part != "filter" else []):
            check_posterior(C, W, f"test {k}", R, lambda o: o[10][0][k], lambda o: o[10][1][k], W.latent[b])
            check_posterior(C, W, f"test {k} as a point exposure", R, lambda o: o[11][0][k], lambda o: o[11][1][k], W.latent[b])
    nm = f"{events}/d={d}" + (f"/insts={insts}" if m > 1 else "") + (f"/ties={sorted(zero)}" if zero else "") + (f"/order={perm}" if perm else "")
    return Case(label or nm, fn, on_concrete=on_concrete, tier=tier, limit=limit, functions=fns)


def sum_case(events, insts, m=1, ds=(1, 1), zero=(), scale=False, tier="quick", limit=300, solver=None, fns=FN, seed=30, inst=()):
    """several integrated kernels added together; every component on its own and the total.
    inst: components that are instantaneous kernels (read out at the end of the exposure)"""
    N = len({n for k, n in parse(events) if n is not None})

    def fn(C):
        parts = []
        for i, d in enumerate(ds):
            parts.append(build_int(C, events, d, insts, m, seed + i, zero, tag=str(i) if i else "", share=parts[0] if i else None))
        W = SumInt(C, parts, inst) if len(ds) > 1 else parts[0]
        if scale:
            W.scale = C.var("c", True, 0.5, 2.0)
        ts = arr([W.T[b] for b in W.tests])
        HP = [x for p in parts for x in (p.H, p.Pinf)]

        def f(t, dl, R, y, c, ts, *hp):
            tg = lambda i: dict(tag=str(i) if i else "", name=f"k{i}")
            ks = [TableBase(hp[2 * i], hp[2 * i + 1], **tg(i)) if i in inst else TableIntegrated(hp[2 * i], hp[2 * i + 1], m, **tg(i)) for i in range(len(ds))]
            k = ks[0]
            for x in ks[1:]:
                k = k + x
            if scale:
                k = c * k
            g = GaussianProcess(k, (t, dl, jnp.asarray(insts)), diag=R, **({"solver": solver} if solver else {}))
            lp, cg = g.condition(y)
            p = cg.predict(ts, return_var=True) if len(W.tests) else ()
            cm = [cg.get_component_mean(f"k{i}", return_var=True) for i in range(len(ds))] if len(ds) > 1 and not scale else []
            st = cg.predict(ts, return_full_state=True) if len(W.tests) and len(ds) > 1 and not scale else None
            ct = [st.get_component(f"k{i}", return_var=True) for i in range(len(ds))] if st is not None else []
            return lp, cg.loc, cg.variance, p, cm, ct
        R = C.run("integrated", f, *W.coords, arr(W.Rn), arr(W.y), W.scale if scale else ONE, ts if len(ts) else zeros(0), *HP)
        check_loglike_int(C, W, "condition", R, lambda o: o[0])
        point = lambda n: W.delta_n[n].is_zero()
        for n in range(N):
            check_posterior(C, W, f"at datum {n}", R, lambda o: o[1][n], lambda o: o[2][n], W.latent[W.end[n]] if point(n) else W.obs[n])
            for i in range(len(ds) if len(ds) > 1 and not scale else 0):
                check_posterior(C, W, f"component {i} at datum {n}", R, lambda o: o[4][i][0][n], lambda o: o[4][i][1][n],
                                W.comp_latent[i][W.end[n]] if point(n) else W.comp_obs[i][n])
        for k, b in enumerate(W.tests):
            check_posterior(C, W, f"test {k}", R, lambda o: o[3][0][k], lambda o: o[3][1][k], W.latent[b])
            for i in range(len(ds) if len(ds) > 1 and not scale else 0):
                check_posterior(C, W, f"component {i} at test {k}", R, lambda o: o[5][i][0][k], lambda o: o[5][i][1][k], W.comp_latent[i][b])
    nm = ("scaled " if scale else "") + (f"mixed {list(inst)} " if inst else "") + f"sum of {len(ds)}: {events}/d={list(ds)}/insts={insts}" if len(ds) > 1 else f"scaled: {events}/d={ds[0]}/insts={insts}"
    return Case(nm, fn, on_concrete=on_concrete, tier=tier, limit=limit, functions=fns)


def test_exposure(solver=None, fns=FN):
    """the average over a test exposure (t, texp, instrument)"""
    def fn(C):
        W = build_int(C, "[a ]a t t", 1, [0])
        a, b = W.tests
        dl = W.T[b] - W.T[a]
        ts, dls = arr([(W.T[a] + W.T[b]) * HALF]), arr([dl])

        def f(t, d, R, y, H, P, ts, dts):
            g = GaussianProcess(TableIntegrated(H, P, 1), (t, d, jnp.zeros(1, dtype=int)), diag=R, **({"solver": solver} if solver else {}))
            c = g.condition(y).gp
            q = g.condition(y, (ts, dts, jnp.zeros(1, dtype=int))).gp
            return c.predict((ts, dts, jnp.zeros(1, dtype=int)), return_var=True), (q.loc, q.variance)
        R = C.run("predict", f, *W.coords, arr(W.Rn), arr(W.y), W.H, W.Pinf, ts, dls)
        k = arr([[ONE / dl]])
        ez = row([ZERO, ONE]) * k
        for i in range(2):
            check_posterior(C, W, "average over a test exposure", R, lambda o: o[i][0][0], lambda o: o[i][1][0], ({b: ez, a: -ez}, None))
    return Case("test-exposure", fn, on_concrete=on_concrete, functions=fns)


def case_list(tier, solver, fns):
    def mk(*a, **k):
        return mk_case(*a, solver=solver, fns=fns, **k)
    r = [mk("[a ]a"), mk("[a ]a", 2), mk("[a ]a [b ]b"), mk("[a ]a [b ]b", 2), mk("[a ]a [b ]b [c ]c"), mk("[a t ]a t"), mk("t [a ]a [b ]b"), mk("[a ]a t [b ]b"),
         mk("[a ]a [b t ]b t"), mk("t t [a ]a"), mk("[a t ]a", 2), mk("t [a ]a", 2),
         # abutting exposures, point data
         mk("[a ]a [b ]b", zero=[1]), mk("a"), mk("a b"), mk("a [b ]b"), mk("[a ]a b"), mk("a [b ]b", zero=[0]), mk("[a ]a b", zero=[1]), mk("a t b"), mk("a", 2),
         # the order in which the data are passed
         mk("[a ]a [b ]b", perm=[1, 0]), mk("[a ]a [b ]b t", perm=[1, 0]), mk("[a ]a [b ]b [c ]c", perm=[2, 0, 1]), mk("a [b ]b", perm=[1, 0])]
    two = dict(insts=[0, 1], m=2)
    r += [mk("[a ]a [b ]b", conc=1, **two), mk("[a [b ]a ]b", conc=2, **two), mk("[a [b ]b ]a", conc=3, **two), mk("[a [b ]b ]a", conc=4, insts=[1, 0], m=2),
          mk("[a [b ]b t ]a", conc=5, **two), mk("[a t [b ]a ]b t", conc=6, **two), mk("t [a [b ]a ]b", conc=7, **two),
          mk("[a ]a [b ]b", conc=8, zero=[1], **two), mk("[a [b ]a ]b", conc=9, zero=[2], **two), mk("[a [b ]a ]b", conc=9, zero=[2], insts=[1, 0], m=2),
          mk("[a b ]a", conc=10, **two), mk("[a ]a [b ]b", conc=11, insts=[1, 1], m=2), mk("[a [b ]b ]a [c ]c", conc=12, insts=[0, 1, 1], m=2),
          mk("[a [b ]a [c ]b ]c", conc=13, insts=[0, 1, 0], m=2), mk("[a [b ]a [c ]c ]b", conc=14, insts=[1, 0, 1], m=2), mk("[a [b [c ]a ]c ]b", conc=15, insts=[0, 1, 2], m=3, tier="thorough", limit=1500), mk("[a [b [c ]a ]c ]b", conc=15, insts=[0, 1, 2], m=3, part="light", label="three instruments: likelihood and data"),
          mk("[a [b ]b ]a [c ]c", conc=16, insts=[1, 0, 1], m=2, perm=[2, 1, 0]), mk("[a [b ]a ]b", 2, conc=17, **two),
          mk("[a ]a [b ]b [c ]c [d ]d", conc=18)]
    # the same moment on both instruments: the two integrals coincide, so the smoother's covariances are singular
    r += [mk("[a [b ]a ]b", conc=20, zero=[0], part="filter", **two), mk("[a [b ]b ]a", conc=21, zero=[0], part="filter", **two),
          mk("[a [b ]a ]b t", conc=20, zero=[0], label="simultaneous-starts", **two)]
    r += [sum_case(*a, solver=solver, fns=fns, **k) for a, k in (
        (("[a ]a t [b ]b", [0, 0]), {}), (("[a t [b ]a ]b", [0, 1], 2), {}), (("[a ]a b", [0, 0]), {}), (("[a [b ]a t ]b", [0, 1], 2, (1,)), dict(scale=True)),
        (("[a ]a [b ]b t", [0, 0], 1, (1, 1)), dict(scale=True)),
        (("[a ]a [b ]b t", [0, 0]), dict(inst=(1,))), (("[a ]a [b t ]b", [0, 0]), dict(inst=(0,))), (("t [a [b ]a ]b", [0, 1], 2), dict(inst=(1,))),
        (("[a ]a b", [0, 0], 1, (1, 2)), dict(inst=(1,))), (("[a ]a [b ]b", [0, 0], 1, (1, 1, 1)), dict(inst=(0, 2))), (("[a t ]a [b ]b", [0, 0]), dict(inst=(1,), scale=True)), (("[a ]a [b ]b", [0, 0], 1, (1, 2)), {}), (("[a ]a [b t ]b", [0, 0], 1, (1, 1, 1)), {}))]
    return r + [test_exposure(solver, fns)]


def cases(tier):
    return case_list(tier, None, FN)
