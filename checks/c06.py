"""C06: the augmented (state, integral) models: transition, noise and integrated covariance."""
from .common import *

BOUNDS = "all parameter values and time steps > 0; 1 to 4 instruments; SHO: Q=1/2 exactly, or |Q-1/2|>1e-5"


def augment(Fb, Wb, d, m):
    """the integrals z_i accumulate the first state component"""
    Fa, Wa = zeros(m, m), zeros(m, m)
    for i in range(d):
        for j in range(d):
            Fa[i, j], Wa[i, j] = Fb[i, j], Wb[i, j]
    for i in range(d, m):
        Fa[i, 0] = ONE
    return Fa, Wa


def one_entry(C, p, dt, R, Fb, Wb, d, m, ij):
    """underdamped SHO: the code zeroes entries below 1e-14 of their natural
    scale; one case per entry keeps the cut-offs of the others out of the path"""
    i, j = ij
    Fa, Wa = augment(Fb, Wb, d, m)
    Qw = lyap_integral(Fa, Wa, dt)
    w = p["args"][0]
    pw = [ONE, w] + [ONE / w] * (m - d)
    if i == j or i >= d:    # variances of the exact noise are not negative (mathematical fact)
        C.assume(Qw[i, i] / p["var"], "ge")
    T = con("1/50000000000000") * p["var"] * pw[i] * pw[j]
    C.eq(f"Q[{i},{j}]", R, lambda o: o[3][i, j], Qw[i, j], tol=T)
    C.eq(f"Q[{j},{i}]", R, lambda o: o[3][j, i], Qw[j, i], tol=T)
    C.validate(R, lambda o: o[3][i, j], "Q")


def mk(e, n, numerical=False, entry=None):
    def fn(C):
        p = e.params(C)
        t1 = C.var("t1")
        dt = C.var("dt", True)

        def f(t, d, *a):
            k = e.integrated(*a, n)
            L, Qc = k.noise_effect_matrix(), k.noise()
            A = k.transition_matrix(t, t + d)
            Q = k.process_noise(t, t + d, force_numerical=True) if numerical else k.process_noise(t, t + d)
            P0 = jnp.zeros_like(Q).at[:k.d, :k.d].set(k.base_model.stationary_covariance())
            V = A @ P0 @ A.T + Q
            return (k.design_matrix(), L @ Qc @ L.T, A, Q, V, k.base_model.design_matrix(),
                    k.base_model.noise_effect_matrix() @ Qc @ k.base_model.noise_effect_matrix().T,
                    k.stationary_covariance(), k.base_model.stationary_covariance(), Q - Q.T)
        R = C.run("augmented", f, t1, dt, *p["args"])
        Fb, Wb = fr(R.out[5]), fr(R.out[6])
        d = len(Fb)
        m = d + n
        C.shape("dimension", R, lambda o: o[0], (m, m))
        if entry is not None:
            return one_entry(C, p, dt, R, Fb, Wb, d, m, entry)
        Fa, Wa = augment(Fb, Wb, d, m)
        C.eq("F", R, lambda o: o[0], Fa)
        C.eq("L Qc L'", R, lambda o: o[1], Wa)
        C.eq("Pinf[x]", R, lambda o: o[7][:d, :d], fr(R.out[8]))
        A = expm_sym(Fa, dt)
        C.eq("A=exp(F dt)", R, lambda o: o[2], A)
        if e.name == "SHO-underdamped":
            return
        Qw = lyap_integral(Fa, Wa, dt)
        Vzz, Vxz = int2_cov(p["terms"], dt), int_cov(p["terms"], dt)
        C.eq("Q", R, lambda o: o[3], Qw)
        C.eq("Cov(z,z)", R, lambda o: o[4][d:, d:], arr([[Vzz] * n] * n))
        C.eq("Cov(x,z)", R, lambda o: o[4][0, d:], arr([Vxz] * n))
        C.eq("Cov(x,x)", R, lambda o: o[4][0, 0], p["var"])
        C.validate(R, lambda o: o[3], "Q")
    return Case(f"{e.name}/insts={n}" + ("/numerical" if numerical else "") + (f"/Q{list(entry)}" if entry else ""), fn, feas_ms=300, reach_ms=300,
                functions=["kernels.integrated.IntegratedStateSpaceModel", "kernels.integrated.Integrated" + e.name.split("-")[0],
                           "helpers.VanLoan", "helpers.Phibar_from_VanLoan"])


def cases(tier):
    es = [e for e in ENTRIES.values() if e.integrated is not None]
    r = [mk(e, n) for e in es for n in (1, 2, 3, 4)]
    u = ENTRIES["SHO-underdamped"]
    r += [mk(u, 1, True)]
    for n in (1, 2, 3):
        m = 2 + n
        r += [mk(u, n, entry=(i, j)) for i in range(m) for j in range(i, m)]
    r += [mk(u, 1, True, entry=(i, j)) for i in range(3) for j in range(i, 3)]
    return r
