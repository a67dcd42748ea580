"""C04: sums, products and scalings of kernels are sums, products and scalings of covariances."""
from .common import *
import scipy.linalg as sla
from engine.alg import Inconclusive
from engine.harness import numval

BOUNDS = ("abstract models: every value of every matrix entry, dimensions <= 2 per factor; catalogue kernels: all "
          "parameter values and times; expressions of up to 3 leaves")


def mk_real(spec, flow=True):
    def fn(C):
        args, mk, terms = build(C, spec)
        t1 = C.var("t1")
        dt = C.var("dt", True)

        def f(t, d, *a):
            k = mk(a)
            F_, P, L, Qc = k.design_matrix(), k.stationary_covariance(), k.noise_effect_matrix(), k.noise()
            A, Q = k.transition_matrix(t, t + d), k.process_noise(t, t + d)
            return (k.evaluate(t, t + d), k.evaluate(t + d, t), k.evaluate(t, t), F_,
                    F_ @ P + P @ F_.T + L @ Qc @ L.T, A, P, Q, k.evaluate_diag(t), jnp.zeros((k.dimension,)),
                    k.transition_matrix(t, t))
        R = C.run("composition", f, t1, dt, *args)
        kd, k0 = cov(terms, dt), cov(terms, ZERO)
        C.eq("k(t,t+d)", R, lambda o: o[0], kd)
        C.eq("k(t+d,t)", R, lambda o: o[1], kd)
        C.eq("k(t,t)", R, lambda o: o[2], k0)
        C.eq("diag", R, lambda o: o[8], k0)
        Fm = fr(R.out[3])
        n = len(Fm)
        C.shape("dimension", R, lambda o: o[9], (n,))
        C.eq("Lyapunov", R, lambda o: o[4], zeros(n, n))
        if flow:
            try:
                A = expm_sym(Fm, dt)
                C.eq("A=exp(F dt)", R, lambda o: o[5], A)
            except Inconclusive:
                # eigenvalues of a Kronecker sum out of reach: the flow is the solution of dA/dt = F A, A(0) = 1
                A = fr(R.out[5])
                C.eq("A(0)=1", R, lambda o: o[10], eye(n))
                want = lambda env: sla.expm(np.array([[numval(v, env) for v in r] for r in Fm]) * numval(dt, env))

                def items():
                    s = C.st.vars["dt"]
                    FA = mm(Fm, A)
                    return [(f"dA/dt[{i},{j}]", alg.diff(A[i, j], s), FA[i, j]) for i in range(n) for j in range(n)]
                C.ident("A=exp(F dt)", R, lambda o: o[5], items, want)
            if "SHO-underdamped" not in repr(spec):   # (its cut-off: C03)
                P = fr(R.out[6])
                C.eq("Q", R, lambda o: o[7], ma(P, mm(mm(A, P), A.T), -1))
        C.validate(R, lambda o: o[5], "A")
    return Case(spec_name(spec), fn, functions=["kernels.base.Sum", "kernels.base.Product", "kernels.base.Scale",
                                                "kernels.base.Wrapper", "kernels.base.StateSpaceModel.__add__/__mul__"])


def mk_abs(op, d1, d2):
    def fn(C):
        a1, a2 = abs_args(C, d1, "a"), abs_args(C, d2, "b")
        s = C.var("s", True)
        t1, dt = C.var("t1"), C.var("dt", True)

        def comb(k1, k2, s):
            return {"+": lambda: k1 + k2, "*": lambda: k1 * k2, "s*": lambda: s * k1, "*s": lambda: k1 * s,
                    "sum": lambda: sum([k1, k2])}[op]()

        def f(t, d, s, *a):
            k1, k2 = AbsKernel(*a[:7], name="a"), AbsKernel(*a[7:], name="b")
            k = comb(k1, k2, s)
            F_, P, L, Qc = k.design_matrix(), k.stationary_covariance(), k.noise_effect_matrix(), k.noise()
            A, Q = k.transition_matrix(t, t + d), k.process_noise(t, t + d)
            return (k.evaluate(t, t + d), k.evaluate(t + d, t), k.evaluate_diag(t),
                    F_ @ P + P @ F_.T + L @ Qc @ L.T, P - A @ P @ A.T - Q, k.reset_matrix(0), P - P.T,
                    jnp.zeros(k.dimension))
        R = C.run("composition", f, t1, dt, s, *a1, *a2)

        def kk(a, fwd):
            _, P, H, _, _, A, _ = a
            M = mm(P, A.T) if fwd else mm(A, P)
            return mm(mm(H, M), H.T)[0, 0]

        def k0(a):
            return mm(mm(a[2], a[1]), a[2].T)[0, 0]

        def oc(g):
            x, y = g(a1), g(a2)
            return {"+": x + y, "sum": x + y, "*": x * y, "s*": s * x, "*s": s * x}[op]
        n = {"+": d1 + d2, "sum": d1 + d2, "*": d1 * d2}.get(op, d1)
        C.shape("dimension", R, lambda o: o[7], (n,))
        C.eq("k(t,t+d)", R, lambda o: o[0], oc(lambda a: kk(a, True)))
        C.eq("k(t+d,t)", R, lambda o: o[1], oc(lambda a: kk(a, False)))
        C.eq("diag", R, lambda o: o[2], oc(k0))
        C.eq("Lyapunov", R, lambda o: o[3], zeros(n, n))
        C.eq("Q = P - A P A'", R, lambda o: o[4], zeros(n, n))
        C.eq("reset of instantaneous states", R, lambda o: o[5], eye(n))
        C.validate(R, lambda o: o[0], "k")
    return Case(f"abstract {op} d={d1},{d2}", fn, functions=["kernels.base.Sum", "kernels.base.Product", "kernels.base.Scale"])


def cases(tier):
    E1 = [("+", "Exp", "Matern32"), ("+", "SHO-underdamped", "Exp"), ("*", "Exp", "Cosine"), ("*", "Matern32", "Exp"),
          ("*", "SHO-underdamped", "Exp"), ("s", "Exp"), ("s", "SHO-critical"), ("s", "Matern52"), ("s", "Cosine"), ("s", "Constant"),
          ("*", "Constant", "Matern32"), ("+", "Constant", "Exp"),
          ("+", ("*", "Exp", "Cosine"), ("s", "Matern32")), ("*", ("+", "Exp", "Cosine"), "Exp"), ("s", ("*", "Exp", "Exp")),
          ("s", ("+", "Exp", ("s", "Matern32"))), ("s", "ExpSineSquared(order=2)"), ("*", "ExpSineSquared(order=2)", "Exp"),
          ("+", "ExpSineSquared(order=2)", "Matern32"), ("+", "Matern(nu=3/2)", ("s", "Matern(nu=5/2)")), ("*", "Matern(nu=3/2)", "Exp")]
    E1 += [("*", "Matern32", "Matern32"), ("*", "Matern52", "Exp"), ("*", "SHO-overdamped", "Exp"),
           ("+", "SHO-overdamped", "Matern52"), ("*", ("*", "Exp", "Cosine"), "Matern32"), ("*", "Cosine", "Matern52"), ("*", "Exp", "Matern52"),
           ("+", "Matern52", ("*", "Cosine", ("+", "Exp", "Matern32")))]
    if tier == "thorough":
        E1 += [("*", "SHO-critical", "Cosine"), ("s", ("*", "Matern32", "ExpSineSquared(order=3)")), ("*", "Matern52", "Matern52"), ("*", "SHO-underdamped", "Matern52")]
    r = [mk_real(s) for s in E1]
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)] + ([(3, 3), (2, 4), (4, 2)] if tier == "thorough" else [])
    r += [mk_abs(op, *d) for op in ("+", "*") for d in dims]
    r += [mk_abs(op, d, 1) for op in ("s*", "*s", "sum") for d in (1, 2)]
    return r
