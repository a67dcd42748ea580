"""C08: log-probability is the dense marginal likelihood."""
from .tab import *
from tinygp import noise as tn

BOUNDS = ("any Gauss-Markov model: d=1 up to 4 data (5 in the thorough tier), d=2 up to 3 data, coinciding times included; observation matrices constant, arbitrary functions of time, or depending on a label of the datum (tuple coordinates); every entry of A, Q, Pinf, H, "
          "every noise variance, datum and time symbolic.  Noise arguments (scalar diag, default jitter, noise objects): up to 2 data, d=1. "
          "Catalogue kernels end to end: 2 data")
OUTSIDE = "more data than the bound; unsorted times (documented as assumed sorted); floating-point rounding"


def mk(events, d, H_="sym", zero=(), tier="quick", limit=240):
    def fn(C):
        W = instant(C, events, d, H_, zero=zero)
        t = W.coords(W.data)

        def f(t, R, y, H, P):
            g = GaussianProcess(TableKernel(H, P, timed=H_), pairs(t), diag=R)
            return g.log_probability(y), g.condition(y).log_probability
        R = C.run("log_probability", f, t, arr(W.Rn), arr(W.y), W.H, W.Pinf)
        C.shape("shape", R, lambda o: o[0], ())
        check_loglike(C, W, "log_probability", R, lambda o: o[0])
        check_loglike(C, W, "condition", R, lambda o: o[1])
    return Case(f"{events}/d={d}" + ("" if H_ == "sym" else f"/H={H_}") + (f"/ties={sorted(zero)}" if zero else ""), fn,
                on_concrete=on_concrete, tier=tier, limit=limit, functions=FN)


FN = ["gp.GaussianProcess.__init__", "gp.GaussianProcess.log_probability", "gp.GaussianProcess._compute_log_prob", "gp.GaussianProcess.condition",
      "solvers.solver.StateSpaceSolver", "solvers.kalman.KalmanFilter"]


def plain(C, N, Rs, size=1.0):
    """a one-dimensional model without the change of variables; Rs: noise variances;
    size: where to look for concrete counterexamples"""
    W = World(C, N, 1)
    W.events = "d" * N
    W.data, W.tests = list(range(N)), []
    W.H = row([C.var("h", False, 0.5, 1.5)])
    W.Pinf = arr([[C.var("P", True, 0.5 * size, 2.0 * size)]])
    for e in range(N - 1):
        W.fill(e, arr([[C.var(f"A{e}", False, 0.3, 0.9)]]), arr([[C.var(f"Q{e}", True, 0.3 * size, 1.0 * size)]]))
    W.prior(W.Pinf)
    W.Rn = Rs
    W.y = [C.var(f"y{k}", False, -2.0 * size ** .5, 2.0 * size ** .5) for k in range(N)]
    finish(C, W, 1e-3 * size)
    return W


def loglike_sym(W, y=None, S=None):
    """-1/2 ( y' S^-1 y + log det S + N log 2 pi ), exact"""
    y = W.y if y is None else y
    S = obs_cov(W) if S is None else S
    n = len(y)
    D = det_sym(S)
    q = ZERO
    Si = inv_sym(S)
    for i in range(n):
        for j in range(n):
            q = q + y[i] * Si[i, j] * y[j]
    return -HALF * (q + alg.log(D) + F(n) * alg.log(F(2) * alg.PI()))


def mk_noise(kind, N):
    def fn(C):
        s = C.var("s", True, 0.2, 2.0)
        rs = [C.var(f"R{k}", True, 0.2, 2.0) for k in range(N)]
        eps = con(float(np.sqrt(np.finfo(np.float64).eps)))
        Rs = {"default": [eps] * N, "scalar": [s] * N, "vector": rs, "Diagonal": rs, "diag ignored when noise given": rs}[kind]
        W = plain(C, N, Rs, 1e-8 if kind == "default" else 1.0)
        kw = {"default": lambda s, r: {}, "scalar": lambda s, r: dict(diag=s), "vector": lambda s, r: dict(diag=r),
              "Diagonal": lambda s, r: dict(noise=tn.Diagonal(r)), "diag ignored when noise given": lambda s, r: dict(noise=tn.Diagonal(r), diag=s)}[kind]
        if N > 1:
            for k in range(N):
                S = obs_cov(W, range(k + 1))
                C.assume(det_sym(S), "gt")

        def f(t, s, r, y, H, P):
            g = GaussianProcess(TableKernel(H, P), t, **kw(s, r))
            return g.log_probability(y), g.condition(y).log_probability
        R = C.run("log_probability", f, arr(W.T), s, arr(rs), arr(W.y), W.H, W.Pinf)
        want = lambda env: [loglike(W, env)]
        ex = None if C.st.fixed else loglike_sym(W)
        C.ident("log_probability", R, lambda o: o[0], lambda: [("", to_frac(flat(R.out[0])[0]), ex)], want)
        C.ident("condition", R, lambda o: o[1], lambda: [("", to_frac(flat(R.out[1])[0]), ex)], want)
    return Case(f"noise={kind}/N={N}", fn, on_concrete=on_concrete, functions=FN)


def mk_mean():
    """a constant mean function shifts the data"""
    def fn(C):
        rs = [C.var(f"R{k}", True, 0.2, 2.0) for k in range(2)]
        W = plain(C, 2, rs)
        mu = C.var("mu", False, 0.5, 2.0)
        C.assume(det_sym(obs_cov(W)), "gt")

        def f(t, r, y, mu, H, P):
            return GaussianProcess(TableKernel(H, P), t, diag=r, mean=mu).log_probability(y)
        R = C.run("log_probability", f, arr(W.T), arr(rs), arr(W.y), mu, W.H, W.Pinf)

        def want(env):
            S, y = num(obs_cov(W), env), num(W.y, env) - numval(mu, env)
            return [-0.5 * (y @ np.linalg.solve(S, y) + np.linalg.slogdet(S)[1] + len(y) * np.log(2 * np.pi))]
        C.ident("log_probability", R, lambda o: o, lambda: [("", to_frac(flat(R.out)[0]), loglike_sym(W, [v - mu for v in W.y]))], want)
    return Case("mean-function", fn, on_concrete=on_concrete, functions=FN)


def mk_dense_noise():
    """correlated measurement noise"""
    def fn(C):
        rs = [C.var(f"R{k}", True, 0.8, 2.0) for k in range(2)]
        c = C.var("c", False, 0.1, 0.5)
        W = plain(C, 2, rs)
        S = obs_cov(W)
        S[0, 1] = S[1, 0] = S[0, 1] + c
        C.assume(det_sym(S), "gt")
        C.assume(det_sym(obs_cov(W)), "gt")

        def f(t, r, c, y, H, P):
            n = jnp.array([[r[0], c], [c, r[1]]])
            return GaussianProcess(TableKernel(H, P), t, noise=tn.Dense(n)).log_probability(y)
        R = C.run("log_probability", f, arr(W.T), arr(rs), c, arr(W.y), W.H, W.Pinf)

        def want(env):
            y, K = num(W.y, env), num(S, env)
            return [-0.5 * (y @ np.linalg.solve(K, y) + np.linalg.slogdet(K)[1] + len(y) * np.log(2 * np.pi))]
        C.ident("log_probability", R, lambda o: o, lambda: [("", to_frac(flat(R.out)[0]), loglike_sym(W, S=S))], want)
    return Case("dense-noise", fn, on_concrete=on_concrete, functions=FN)


def mk_real(spec, N):
    """catalogue kernels end to end, against their documented covariance"""
    def fn(C):
        args, mkk, terms = build(C, spec)
        d = [C.var(f"dt{e}", True) for e in range(N - 1)]
        t = [C.var("t0")]
        for x in d:
            t.append(t[-1] + x)
        rs = [C.var(f"R{k}", True) for k in range(N)]
        y = [C.var(f"y{k}") for k in range(N)]
        S = zeros(N, N)
        for i in range(N):
            for j in range(N):
                tau = ZERO
                for e in range(min(i, j), max(i, j)):
                    tau = tau + d[e]
                S[i, j] = cov(terms, tau) + (rs[i] if i == j else ZERO)
        for k in range(1, N):
            C.assume(det_sym(S[:k + 1, :k + 1]), "gt")

        def f(t, r, y, *a):
            return GaussianProcess(mkk(a), t, diag=r).log_probability(y)
        R = C.run("log_probability", f, arr(t), arr(rs), arr(y), *args)

        def want(env):
            K, v = num(S, env), num(y, env)
            return [-0.5 * (v @ np.linalg.solve(K, v) + np.linalg.slogdet(K)[1] + len(v) * np.log(2 * np.pi))]
        C.ident("log_probability", R, lambda o: o, lambda: [("", to_frac(flat(R.out)[0]), loglike_sym(None, y, S))], want)
        C.validate(R, lambda o: o, "log_probability")
    return Case(f"kernel={spec_name(spec)}/N={N}", fn, feas_ms=300, reach_ms=300, functions=FN)


def cases(tier):
    r = [mk("d", 1), mk("d", 2), mk("dd", 1), mk("dd", 2), mk("ddd", 1), mk("ddd", 2), mk("dddd", 1), mk("ddd", 3, "e0"),
         mk("d", 2, "timed"), mk("dd", 2, "labelled"), mk("ddd", 1, "labelled", zero=[1]), mk("dd", 2, "timed"), mk("ddd", 1, "timed"), mk("ddd", 1, "timed", zero=[1]),
         mk("dd", 1, zero=[0]), mk("dd", 2, zero=[0]), mk("ddd", 1, zero=[0]), mk("ddd", 1, zero=[1])]
    r += [mk_noise(k, n) for k in ("default", "scalar", "vector", "Diagonal", "diag ignored when noise given") for n in (1, 2)]
    r += [mk_mean(), mk_dense_noise()]
    r += [mk_real(s, 2) for s in ("Exp", "Matern32", "Cosine", "SHO-critical", ("s", "Exp"), ("+", "Exp", "Exp"), ("*", "Exp", "Cosine"))]
    if tier == "thorough":
        r += [mk("ddddd", 1), mk("dddd", 2, "e0", limit=1500), mk_real("Matern52", 2), mk_real("SHO-underdamped", 2), mk_real("SHO-overdamped", 2), mk_real("Exp", 3)]
    return r
