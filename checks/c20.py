"""C20: derivatives are right: forward and reverse mode, of every kernel quantity,
of the likelihood and of the posterior."""
from .integ import *
from .c08 import loglike_sym

BOUNDS = ("kernels: all parameter values and times (SHO: Q=1/2 exactly, in every parameter direction, or |Q-1/2|>1e-5); likelihood and posterior of any Gauss-Markov model: "
          "d=1 up to 4 data, d=2 up to 2 data, both solvers, coinciding times included; catalogue kernels end to end: 2 data; one and two instruments of exposures")
OUTSIDE = ("derivatives in reverse mode through the matrix exponential (integrated and periodic kernels: forward mode only); derivatives with respect to coinciding times "
           "(the covariance has a kink there); second derivatives; floating-point rounding")
QTY = {"evaluate": (lambda k, t, d: k.evaluate(t, t + d), lambda p, dt, e: cov(p["terms"], dt)),
       "variance": (lambda k, t, d: k.evaluate(t, t), lambda p, dt, e: p["var"]),
       "transition": (lambda k, t, d: k.transition_matrix(t, t + d), None),
       "process noise": (lambda k, t, d: k.process_noise(t, t + d), None),
       "process noise at 0": (lambda k, t, d: k.process_noise(t, t), None),
       "stationary": (lambda k, t, d: k.stationary_covariance(), None)}


def plain_matern(nu):
    """constructed while tracing, as any kernel whose parameters are fitted is"""
    return lambda l, s: KB.Matern(nu=nu, scale=l, sigma=s)


def mk(e, q):
    g, spec = QTY[q]

    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)
        args = p["args"]
        if C.st.fixed:
            raise Dead()
        timed = q in ("evaluate", "transition", "process noise")
        syms = {n: s for n, s in C.st.vars.items() if n != "t1" and (timed or n != "dt")}
        ins = [dt] + list(args)
        n = len(ins)
        tan = [[alg.diff(a, s) for a in ins] for s in syms.values()]
        crit = e.name == "SHO-critical"
        if crit:
            tan.append([ZERO, ZERO, ONE, ZERO])

        def f(t, T, *a):
            h = lambda d, *b: jnp.ravel(g(e.make(*b), t, d)) * 1.0
            fw = [jax.jvp(h, a, tuple(T[i, j] for j in range(n)))[1] for i in range(len(tan))]
            y, pull = jax.vjp(h, *a)
            J = jnp.stack([jnp.stack(pull(jnp.eye(len(y))[i])) for i in range(len(y))])
            return y, jnp.stack(fw), T @ J.T
        R = C.run(q, f, t1, arr(tan), *ins)
        y = [spec(p, dt, e)] if spec else [to_frac(v) for v in flat(R.out[0])]
        want = [[alg.diff(v, s) for v in y] for s in syms.values()]
        if crit:
            want.append(dq(p, dt, q))
        want = arr(want)
        C.eq("forward mode", R, lambda o: o[1], want)
        C.eq("reverse mode", R, lambda o: o[2], want)
        C.finite("forward mode", R, lambda o: o[1])
        C.finite("reverse mode", R, lambda o: o[2])
        C.validate(R, lambda o: o[1], "jvp")
    return Case(f"{e.name}/{q}", fn, functions=e.fn, validations=6, jit=True)


def dq(p, t, q):
    """derivative in Q at Q=1/2: the expansion of the exact flow, int_0^t e^{F(t-s)} dF e^{Fs} ds
    with dF = [[0,0],[0,4w]]"""
    w, _, s = p["args"]
    if q == "stationary":
        return [ZERO] * 4
    E = alg.exp(-w * t)
    # T(u) = e^{-wu} [[1+wu, u], [-w^2 u, 1-wu]];  second column / second row as polynomials in s
    col = [[t, -ONE], [ONE - w * t, w]]                 # T(t-s)[:,1]
    rw = [[ZERO, -w * w], [ONE, -w]]                    # T(s)[1,:]
    D = [[ZERO, ZERO], [ZERO, ZERO]]
    for i in range(2):
        for j in range(2):
            for a, x in enumerate(col[i]):
                for b, y in enumerate(rw[j]):
                    D[i][j] = D[i][j] + x * y * t ** (a + b + 1) * F(Q_(1, a + b + 1))
            D[i][j] = D[i][j] * F(4) * w * E
    if q == "evaluate":
        return [s * s * D[0][0]]
    if q in ("variance",):
        return [ZERO]
    if q == "process noise at 0":
        return [ZERO] * 4
    if q == "transition":
        return D[0] + D[1]
    T = arr([[ONE + w * t, t], [-w * w * t, ONE - w * t]]) * E
    P = arr([[s * s, ZERO], [ZERO, s * s * w * w]])
    D = arr(D)
    X = mm(mm(D, P), T.T)
    return [-(X[i, j] + X[j, i]) for i in range(2) for j in range(2)]


def dq_int(args, t, n, q):
    """the same for the augmented model (state, n integrals)"""
    w, _, s = args
    m = 2 + n
    Fm, W, dF, dW = zeros(m, m), zeros(m, m), zeros(m, m), zeros(m, m)
    Fm[0, 1], Fm[1, 0], Fm[1, 1] = ONE, -w * w, -w * F(2)
    for i in range(2, m):
        Fm[i, 0] = ONE
    W[1, 1] = F(4) * w ** 3 * s * s
    dF[1, 1], dW[1, 1] = F(4) * w, F(-8) * w ** 3 * s * s
    if q == "process noise at 0":
        return [ZERO] * (m * m)
    blk = lambda a, b, c, d: np.concatenate([np.concatenate([a, b], 1), np.concatenate([c, d], 1)], 0)
    if q == "transition":
        E = expm_sym(blk(Fm, dF, zeros(m, m), Fm), t)
        return list(E[:m, m:].reshape(-1))
    Cm, dC = blk(-Fm, W, zeros(m, m), Fm.T), blk(-dF, dW, zeros(m, m), dF.T)
    E = expm_sym(blk(Cm, dC, zeros(2 * m, 2 * m), Cm), t)
    V, dV = E[:2 * m, :2 * m], E[:2 * m, 2 * m:]
    X = ma(mm(dV[m:, m:].T, V[:m, m:]), mm(V[m:, m:].T, dV[:m, m:]))
    return list(X.reshape(-1))


def mk_integrated(e, q, n=1, entry=None, rev=True):
    """transition and process noise of the augmented models (through expm where the code uses Van Loan's method)"""
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)
        args = p["args"]
        if C.st.fixed:
            raise Dead()
        syms = {k: s for k, s in C.st.vars.items() if k != "t1"}
        ins = [dt] + list(args)
        tan = [[alg.diff(a, s) for a in ins] for s in syms.values()]
        crit = e.name == "SHO-critical"
        if crit:
            tan.append([ZERO, ZERO, ONE, ZERO])
        g = {"transition": lambda k, t, d: k.transition_matrix(t, t + d), "process noise": lambda k, t, d: k.process_noise(t, t + d),
             "process noise at 0": lambda k, t, d: k.process_noise(t, t)}[q]

        def f(t, T, *a):
            def h(d, *b):
                M = g(e.integrated(*b, n), t, d)
                return (jnp.ravel(M) if entry is None else M[entry].reshape(1)) * 1.0
            fw = [jax.jvp(h, a, tuple(T[i, j] for j in range(len(ins))))[1] for i in range(len(tan))]
            if not rev:
                return h(*a), jnp.stack(fw)
            y, pull = jax.vjp(h, *a)
            J = jnp.stack([jnp.stack(pull(jnp.eye(len(y))[i])) for i in range(len(y))])
            return y, jnp.stack(fw), T @ J.T
        R = C.run(q, f, t1, arr(tan), *ins)
        y = [to_frac(v) for v in flat(R.out[0])]
        want = [[alg.diff(v, s) for v in y] for s in syms.values()]
        if crit:
            want.append(dq_int(args, dt, n, q))
        want = arr(want)
        C.eq("forward mode", R, lambda o: o[1], want)
        C.finite("forward mode", R, lambda o: o[1])
        if rev:
            C.eq("reverse mode", R, lambda o: o[2], want)
            C.finite("reverse mode", R, lambda o: o[2])
        C.validate(R, lambda o: o[1], "jvp")
    return Case(f"Integrated{e.name}/{q}" + (f"/insts={n}" if n > 1 else "") + (f"/{list(entry)}" if entry else ""), fn, feas_ms=300, reach_ms=300,
                functions=["kernels.integrated.Integrated" + e.name.split("-")[0], "helpers.VanLoan", "helpers.Phibar_from_VanLoan"], limit=400, validations=4, jit=True)


def mk_step0(e, integrated):
    """the rate of change with the step, at a zero step: the feedback matrix and the noise intensity"""
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        if C.st.fixed:
            raise Dead()

        # the underdamped oscillator's noise is flushed to zero near a zero step, and so is its derivative
        flush = e.name == "SHO-underdamped"
        W = lambda L, Qc: (L @ Qc @ L.T) * (0.0 if flush else 1.0)

        def f(t, z, *a):
            k = e.integrated(*a, 1) if integrated else e.make(*a)
            L, Qc = k.noise_effect_matrix(), k.noise()
            h = lambda d: (k.transition_matrix(t, t + d) * 1.0, k.process_noise(t, t + d) * (0.0 if flush else 1.0))
            J = jax.jvp(h, (z,), (jnp.ones_like(z),))[1]
            if integrated:
                return J, (k.design_matrix(), W(L, Qc))
            y, pull = jax.vjp(lambda d: jnp.concatenate([jnp.ravel(x) for x in h(d)]), z)
            R = jnp.stack([pull(jnp.eye(len(y))[i])[0] for i in range(len(y))])
            return J, (k.design_matrix(), W(L, Qc)), R
        R = C.run("step", f, t1, np.zeros(()), *p["args"])
        C.eq("dA/dt", R, lambda o: o[0][0], fr(R.out[1][0]))
        C.eq("dQ/dt", R, lambda o: o[0][1], fr(R.out[1][1]))
        if not integrated:
            n = len(fr(R.out[1][0]))
            C.eq("reverse mode", R, lambda o: o[2], arr([v for k in (0, 1) for v in fr(R.out[1][k]).reshape(-1)]))
        C.validate(R, lambda o: o[0][0], "jvp")
    return Case(f"{'Integrated' if integrated else ''}{e.name}/rates at step 0", fn, functions=e.fn, validations=4, jit=True)


def dense_terms(W):
    """S^-1 and S^-1 y of the dense model"""
    S = obs_cov(W)
    Si = inv_sym(S)
    return S, Si, mm(Si, arr([[v] for v in W.y]))


def dlike(Si, al, dS):
    n = len(Si)
    s = ZERO
    for i in range(n):
        for j in range(n):
            if not dS[i, j].is_zero():
                s = s + (al[i, 0] * al[j, 0] - Si[i, j]) * dS[i, j]
    return HALF * s


def mk_gp(events, d, H_="sym", zero=(), solver=None, tier="quick"):
    """an arbitrary model: derivatives in the data, the noise variances, H and the stationary covariance"""
    def fn(C):
        W = instant(C, events, d, H_, zero=zero, t0="pos")
        n = len(W.data)
        if C.st.fixed:
            raise Dead()
        V = arr([[F(Q_(2, 3)) if i == j else F(Q_(1, 5)) for j in range(d)] for i in range(d)])
        ts = W.coords(W.tests)
        kw = {"solver": solver} if solver else {}

        def f(t, R, y, H, P, V, *ts):
            gp = lambda R, H, P: GaussianProcess(TableKernel(H, P), t, diag=R, **kw)
            lp = lambda R, y, H, P: gp(R, H, P).log_probability(y)
            gR, gy, gH, gP = jax.grad(lp, (0, 1, 2, 3))(R, y, H, P)
            # the likelihood alongside conditioning
            cR, cy = jax.grad(lambda R, y: gp(R, H, P).condition(y).log_probability, (0, 1))(R, y)
            fw = jnp.stack([jax.jvp(lambda r: lp(r, y, H, P), (R,), (jnp.eye(n)[i],))[1] for i in range(n)])

            def post(R, y):
                c = gp(R, H, P).condition(y)[1]
                out = [c.loc, c.variance]
                if ts:
                    out += list(c.predict(ts[0], return_var=True))
                return jnp.concatenate([jnp.ravel(o) for o in out])
            v, pull = jax.vjp(post, R, y)
            J = [pull(jnp.eye(len(v))[i]) for i in range(len(v))]
            Jf = [jax.jvp(lambda r: post(r, y), (R,), (jnp.eye(n)[i],))[1] for i in range(n)]
            return gR, gy, jnp.ravel(gH), jnp.sum(gP * V), cR, cy, fw, jnp.stack([x[0] for x in J]), jnp.stack([x[1] for x in J]), jnp.stack(Jf).T
        R = C.run("gradient", f, arr([W.T[b] for b in W.data]), arr(W.Rn), arr(W.y), W.H, W.Pinf, V, *([ts] if W.tests else []))
        S, Si, al = dense_terms(W)
        wR = arr([HALF * (al[k, 0] * al[k, 0] - Si[k, k]) for k in range(n)])
        wy = arr([-al[k, 0] for k in range(n)])

        def quad(mk):
            M = zeros(n, n)
            for i in range(n):
                for j in range(n):
                    M[i, j] = mk(W.data[i], W.data[j])
            return dlike(Si, al, M)
        wH = []
        for i in range(d):
            e = row([ONE if j == i else ZERO for j in range(d)])
            wH.append(quad(lambda a, b: mm(mm(e, W.cxx(a, b)), W.H.T)[0, 0] + mm(mm(W.H, W.cxx(a, b)), e.T)[0, 0]))
        b0 = W.data[0]
        up = lambda b: W.comp(b0, b)[0]
        # (before the first datum the state is stationary whatever the prior)
        wP = quad(lambda a, b: mm(mm(mm(W.H, up(a)), V), mm(W.H, up(b)).T)[0, 0])
        C.eq("likelihood by noise", R, lambda o: o[0], wR)
        C.eq("likelihood by data", R, lambda o: o[1], wy)
        C.eq("likelihood by H", R, lambda o: o[2], arr(wH))
        if not W.tests:
            C.eq("likelihood by stationary covariance", R, lambda o: o[3], wP)
        C.eq("likelihood of condition by noise", R, lambda o: o[4], wR)
        C.eq("likelihood of condition by data", R, lambda o: o[5], wy)
        C.eq("likelihood by noise (forward)", R, lambda o: o[6], wR)
        rows, by = [], []
        for b in list(W.data) + list(W.tests):
            c = mm(W.H, cross(W, b))                       # Cov(f(b), y)
            w = mm(c, Si)
            rows.append((w, [-(w[0, k] * al[k, 0]) for k in range(n)], [w[0, k] * w[0, k] for k in range(n)]))
        nd_ = len(W.data)
        zero_row = [ZERO] * n
        for grp in (rows[:nd_], rows[nd_:]):
            by += [list(w[0]) for w, _, _ in grp] + [zero_row for _ in grp]
        bR = []
        for grp in (rows[:nd_], rows[nd_:]):
            bR += [m for _, m, _ in grp] + [v for _, _, v in grp]
        C.eq("posterior by noise", R, lambda o: o[7], arr(bR))
        C.eq("posterior by data", R, lambda o: o[8], arr(by))
        C.eq("posterior by noise (forward)", R, lambda o: o[9], arr(bR))
        for i in range(10):
            C.finite(f"derivative {i}", R, lambda o: o[i])
        C.validate(R, lambda o: o[7], "posterior by noise")
    return Case(f"{'parallel ' if solver else ''}{events}/d={d}" + ("" if H_ == "sym" else f"/H={H_}") + (f"/ties={sorted(zero)}" if zero else ""), fn, on_concrete=on_concrete, tier=tier,
                functions=FN + (FNP if solver else []), limit=400, validations=4)


FN = ["gp.GaussianProcess.log_probability", "gp.GaussianProcess.condition", "gp.GaussianProcess.predict", "solvers.solver.StateSpaceSolver"]
FNP = ["solvers.parallel.solver.ParallelStateSpaceSolver"]


def mk_real(spec, tie=False, solver=None, crit=False):
    """catalogue kernels end to end: every parameter, time, noise variance and datum"""
    def fn(C):
        args, mkk, terms = build(C, spec)
        npar = list(C.st.vars) if not C.st.fixed else []
        t0 = C.var("t0", True)
        d = ZERO if tie else C.var("dt", True)
        rs = [C.var(f"R{k}", True) for k in range(2)]
        y = [C.var(f"y{k}") for k in range(2)]
        if C.st.fixed:
            raise Dead()
        S = zeros(2, 2)
        for i in range(2):
            for j in range(2):
                S[i, j] = cov(terms, d if i != j else ZERO) + (rs[i] if i == j else ZERO)
        C.assume(det_sym(S), "gt")
        L = loglike_sym(None, y, S)
        vs = npar + ([] if tie else ["t0", "dt"]) + ["R0", "R1", "y0", "y1"]
        t = [t0, t0 + d]
        ins = t + rs + y + list(args)
        tan = arr([[alg.diff(a, C.st.vars[v]) for a in ins] for v in vs])
        n = len(ins)

        def f(T, *a):
            lp = lambda *a: GaussianProcess(mkk(list(a[6:])), jnp.stack(a[:2]), diag=jnp.stack(a[2:4]), **({"solver": solver} if solver else {})).log_probability(jnp.stack(a[4:6]))
            g = jax.grad(lp, tuple(range(n)))(*a)
            fw = [jax.jvp(lp, a, tuple(T[i, j] for j in range(n)))[1] for i in range(len(vs))]
            return T @ jnp.stack(g), jnp.stack(fw)
        R = C.run("gradient", f, tan, *ins)
        want = arr([alg.diff(L, C.st.vars[v]) for v in vs])
        C.eq("reverse mode", R, lambda o: o[0], want)
        C.eq("forward mode", R, lambda o: o[1], want)
        C.finite("reverse mode", R, lambda o: o[0])
        C.finite("forward mode", R, lambda o: o[1])
        C.validate(R, lambda o: o[0], "gradient")
    return Case(f"{'parallel ' if solver else ''}likelihood of {spec_name(spec)}" + ("/tie" if tie else ""), fn, feas_ms=300, reach_ms=300, functions=FN, limit=400, jit=True)


def mk_int(events, insts=None, m=1, conc=None, zero=(), solver=None):
    """exposure-averaged data: likelihood and posterior by data and noise variances"""
    N = len({n for k, n in parse(events) if n is not None})
    ids = list(insts or [0] * N)

    def fn(C):
        W = build_int(C, events, 1, ids, m, conc, zero)
        if C.st.fixed:
            raise Dead()
        ts = arr([W.T[b] for b in W.tests])

        def f(t, dl, R, y, H, P, *ts):
            gp = lambda R: GaussianProcess(TableIntegrated(H, P, m), (t, dl, jnp.asarray(np.array(ids))), diag=R, **({"solver": solver} if solver else {}))
            gR, gy = jax.grad(lambda R, y: gp(R).log_probability(y), (0, 1))(R, y)

            def post(R):
                c = gp(R).condition(y)[1]
                out = [c.loc, c.variance] + (list(c.predict(ts[0], return_var=True)) if ts else [])
                return jnp.concatenate([jnp.ravel(o) for o in out])
            v, pull = jax.vjp(post, R)
            J = jnp.stack([pull(jnp.eye(len(v))[i])[0] for i in range(len(v))])
            Jf = jnp.stack([jax.jvp(post, (R,), (jnp.eye(N)[i],))[1] for i in range(N)]).T
            return gR, gy, J, Jf
        R = C.run("gradient", f, *W.coords, arr(W.Rn), arr(W.y), W.H, W.Pinf, *([ts] if len(ts) else []))
        S, Si, al = dense_terms(W)
        C.eq("likelihood by noise", R, lambda o: o[0], arr([HALF * (al[k, 0] * al[k, 0] - Si[k, k]) for k in range(N)]))
        C.eq("likelihood by data", R, lambda o: o[1], arr([-al[k, 0] for k in range(N)]))
        fs = [W.obs[n] if not W.delta_n[n].is_zero() else W.latent[W.end[n]] for n in range(N)]
        bR = []
        for grp in (fs, [W.latent[b] for b in W.tests]):
            ws = [mm(cross(W, g), Si) for g in grp]
            bR += [[-(w[0, k] * al[k, 0]) for k in range(N)] for w in ws] + [[w[0, k] * w[0, k] for k in range(N)] for w in ws]
        C.eq("posterior by noise", R, lambda o: o[2], arr(bR))
        C.eq("posterior by noise (forward)", R, lambda o: o[3], arr(bR))
        for i in range(4):
            C.finite(f"derivative {i}", R, lambda o: o[i])
        C.validate(R, lambda o: o[2], "posterior by noise")
    return Case(f"{'parallel ' if solver else ''}exposures {events}" + (f"/insts={ids}" if m > 1 else "") + (f"/ties={sorted(zero)}" if zero else ""), fn, on_concrete=on_concrete,
                functions=["solvers.integrated"], limit=400)


def cases(tier):
    r = [mk(e, q) for e in ENTRIES.values() for q in QTY]
    r += [mk_step0(e, False) for e in [*ALL.values()]] + [mk_step0(e, True) for e in ENTRIES.values() if e.integrated is not None]
    r += [mk(Entry(e.name, e.params, plain_matern(nu / 2), None, e.d, e.fn), q) for nu, e in zip((1, 3, 5, 7), MATERN.values()) for q in QTY]
    r += [mk(e, q) for e in PERIODIC.values() for q in QTY]
    for e in ENTRIES.values():
        if e.integrated is None:
            continue
        r += [mk_integrated(e, "transition"), mk_integrated(e, "process noise at 0")]
        if e.name == "SHO-underdamped":
            r += [mk_integrated(e, "process noise", entry=(i, j)) for i in range(3) for j in range(i, 3)]
        else:
            r += [mk_integrated(e, "process noise")]
    for s in (None, ParallelStateSpaceSolver):
        k = dict(solver=s)
        r += [mk_gp("d", 1, **k), mk_gp("dd", 1, **k), mk_gp("d", 2, **k), mk_gp("dd", 2, "e0" if s else "sym", **k), mk_gp("ddd", 1, **k), mk_gp("dtd", 1, **k), mk_gp("tdt", 1, **k),
              mk_gp("dd", 1, zero=[0], **k), mk_gp("ddd", 1, zero=[1], **k)]
    for s in ("Exp", "Matern32", "Cosine", "SHO-critical", ("s", "Exp"), ("+", "Exp", "Exp"), ("*", "Exp", "Cosine")):
        r += [mk_real(s), mk_real(s, tie=True)]
    r += [mk_real("Exp", solver=ParallelStateSpaceSolver), mk_real("Matern32", solver=ParallelStateSpaceSolver)]
    for s in (None, ParallelIntegratedStateSpaceSolver):
        k = dict(solver=s)
        r += [mk_int("[a ]a", **k), mk_int("[a ]a [b ]b", **k), mk_int("[a t ]a [b ]b", **k), mk_int("a [b ]b", **k), mk_int("[a ]a b t", **k), mk_int("[a ]a [b ]b", zero=[1], **k),
              mk_int("[a [b ]a ]b", insts=[0, 1], m=2, conc=2, **k)]
    if tier == "thorough":
        r += [mk_gp("dd", 2, solver=ParallelStateSpaceSolver), mk_gp("dddd", 1), mk_gp("dddd", 1, solver=ParallelStateSpaceSolver)]
        r += [mk_integrated(e, "transition", 2) for e in ENTRIES.values() if e.integrated is not None]
        r += [mk_integrated(e, "process noise", 2) for e in ENTRIES.values() if e.integrated is not None and e.name != "SHO-underdamped"]
    return r
