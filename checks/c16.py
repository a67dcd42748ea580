"""C16: component predictions of additive models."""
from .tab import *

BOUNDS = ("sums of two and three arbitrary components (dimension one; up to two in three-component sums), including product, scaled and equally named components, "
          "two data and one test point in every position; every observation entry, noise variance and datum symbolic, and (two one-dimensional components) "
          "every entry of A, Q and Pinf; three-component sums have rational state matrices drawn from the seed")
OUTSIDE = "more components, larger states, more data; integrated components (their states are covered by C12); floating-point rounding"
FN = ["gp.GaussianProcess.get_component_mean", "gp.GaussianProcess.get_all_component_means", "gp.GaussianProcess.predict", "gp.GaussianProcess.condition",
      "gp.ConditionedStates.project_at_data", "gp.PredictedStates.get_component", "gp.PredictedStates.get_all_components", "kernels.base.extract_leaf_kernels",
      "kernels.base.Sum.observation_model", "kernels.base.Product.observation_model", "kernels.base.Scale.observation_model"]


def blk(Ms):
    n = sum(len(M) for M in Ms)
    out, k = zeros(n, n), 0
    for M in Ms:
        m = len(M)
        out[k:k + m, k:k + m] = M
        k += m
    return out


def kron(A, B):
    n, m, p, q = len(A), len(A[0]), len(B), len(B[0])
    out = zeros(n * p, m * q)
    for i in np.ndindex(n, m, p, q):
        out[i[0] * p + i[2], i[1] * q + i[3]] = A[i[0], i[1]] * B[i[2], i[3]]
    return out


class Comp:
    """a component: leaf / product / scaled, with its matrices per interval"""

    def __init__(self, C, V, spec, W0, worlds, args, n):
        self.name = None
        if spec[0] == "L":
            _, tag, d, name = spec
            w = World(C, W0.B, d, tag, share=W0, zero=W0.zero)
            worlds.append(w)
            self.H = row([C.var(f"h{tag}{i}", False, 0.5, 1.5) for i in range(d)])
            self.P = ldl(V, f"P{tag}", d)
            self.A, self.Q = [], []
            for e in range(W0.B - 1):
                A = smat(V, f"A{tag}{e}_", d)
                Q = qmat(V, f"Q{tag}{e}_", d) if not n else ma(self.P, mm(mm(A, self.P), A.T), -1)
                w.fill(e, A, Q)
                self.A.append(A)
                self.Q.append(Q)
            i = len(args)
            args += [self.H, self.P]
            self.make = lambda a: TableKernel(a[i], a[i + 1], tag, name)
            self.w = w
        elif spec[0] == "*":
            x, y = (Comp(C, V, s, W0, worlds, args, True) for s in spec[1:3])
            self.H, self.P = kron(x.H, y.H), kron(x.P, y.P)
            self.A = [kron(a, b) for a, b in zip(x.A, y.A)]
            self.Q = [ma(self.P, mm(mm(A, self.P), A.T), -1) for A in self.A]
            self.make = lambda a: x.make(a) * y.make(a)
        elif spec[0] == "s":
            c = C.var("c", True, 0.5, 2.0)
            i = len(args)
            args.append(c)
            x = Comp(C, V, spec[1], W0, worlds, args, n)
            self.H, self.A = x.H, x.A
            self.P, self.Q = x.P * arr([[c]]), [q * arr([[c]]) for q in x.Q]
            self.make = lambda a: a[i] * x.make(a)


def tree(shape, comps, a):
    """sum of the components, bracketed as in `shape`"""
    if isinstance(shape, int):
        return comps[shape].make(a)
    return tree(shape[0], comps, a) + tree(shape[1], comps, a)


def mk(label, specs, shape, events, conc=None, ask="all", tier="quick", limit=300, stationary=False):
    def fn(C):
        V = Rat(conc) if conc is not None else C
        B = len(events)
        W = World(C, B, sum(1 for _ in specs), "unused", t0="pos")
        W.events, W.data, W.tests = events, [b for b in range(B) if events[b] == "d"], [b for b in range(B) if events[b] == "t"]
        worlds, args = [], []
        comps = [Comp(C, V, s, W, worlds, args, stationary) for s in specs]
        W.d = sum(len(c.P) for c in comps)
        for e in range(B - 1):
            W.fill(e, blk([c.A[e] for c in comps]), blk([c.Q[e] for c in comps]))
        W.Pinf = blk([c.P for c in comps])
        W.H = np.concatenate([c.H for c in comps], axis=1)
        W.prior(W.Pinf)
        W.Rn = [C.var(f"R{k}", True, 0.2, 2.0) for k in range(len(W.data))]
        W.y = [C.var(f"y{k}", False, -2.0, 2.0) for k in range(len(W.data))]
        W.before = W.data[0]
        C.worlds = worlds
        for w in worlds:
            w.runs = dict(w.runs)
        finish(C, W)
        C.worlds = worlds
        if not C.st.fixed:
            for k in range(1, len(W.data)):
                C.assume(det_sym(obs_cov(W, range(k + 1))), "gt")
        t, ts = arr([W.T[b] for b in W.data]), arr([W.T[b] for b in W.tests])
        n = len(comps)

        def f(t, R, y, *a):
            ts, a = (a[0], a[1:]) if W.tests else (None, a)
            g = GaussianProcess(tree(shape, comps, a), t, diag=R)
            c = g.condition(y).gp
            leaves = KB.extract_leaf_kernels(c.kernel)
            names = [k.name for k in leaves]
            assert len(set(names)) == n, names
            ac = c.get_all_component_means(return_var=True)
            assert list(ac) == names
            out = {"one": [c.get_component_mean(m, return_var=True) for m in names], "all": [ac[m] for m in names],
                   "mean": [c.get_component_mean(m) for m in names],
                   "pair": [c.get_component_mean([names[i], names[j]], return_var=True) for i in range(n) for j in range(n) if i < j],
                   "total": c.get_component_mean(names, return_var=True), "full": (c.loc, c.variance),
                   "pred": [c.predict(kernel=m, return_var=True) for m in names],
                   "index": [c.predict(kernel=i, return_var=True) for i in range(n)],
                   "cond": [(lambda q: (q.loc, q.variance))(g.condition(y, kernel=k).gp) for k in leaves]}
            if ts is not None:
                ps = c.predict(ts, return_full_state=True)
                pa = ps.get_all_components(return_var=True)
                assert list(pa) == names
                out.update({"ps": [ps.get_component(m, return_var=True) for m in names], "psall": [pa[m] for m in names],
                            "pstot": ps.get_component(names, return_var=True), "predt": [c.predict(ts, kernel=m, return_var=True) for m in names],
                            "predk": [c.predict(ts, kernel=k, return_var=True) for k in leaves], "fullt": c.predict(ts, return_var=True),
                            "indext": [c.predict(ts, kernel=i, return_var=True) for i in range(n)],
                            "condt": [(lambda q: (q.loc, q.variance))(g.condition(y, ts, kernel=k).gp) for k in leaves]})
                x = g.condition(y, ts).gp
                xa = x.get_all_component_means(return_var=True)
                out.update({"x one": [x.get_component_mean(m, return_var=True) for m in names], "x all": [xa[m] for m in names],
                            "x predict": [x.predict(kernel=m, return_var=True) for m in names], "x total": x.get_component_mean(names, return_var=True),
                            "x back": [x.condition(y).gp.get_component_mean(m, return_var=True) for m in names]})
            return out
        R = C.run("components", f, t, arr(W.Rn), arr(W.y), *([ts] if W.tests else []), *args)
        off = np.cumsum([0] + [len(c.P) for c in comps])

        def proj(idx):
            p = zeros(1, W.d)
            for i in idx:
                p[0, off[i]:off[i + 1]] = W.H[0, off[i]:off[i + 1]]
            return p
        pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
        for k, b in enumerate(W.data):
            for key in ("one", "all", "pred", "cond", "index") + (("x back",) if W.tests else ()):
                for i in range(n):
                    check_posterior(C, W, f"{key}: component {i} at datum {k}", R, lambda o: o[key][i][0][k], lambda o: o[key][i][1][k], b, proj=proj([i]))
            for i in range(n):
                check_posterior(C, W, f"mean: component {i} at datum {k}", R, lambda o: o["mean"][i][k], lambda o: o["one"][i][1][k], b, proj=proj([i]))
            for i, p in enumerate(pairs):
                check_posterior(C, W, f"components {p} at datum {k}", R, lambda o: o["pair"][i][0][k], lambda o: o["pair"][i][1][k], b, proj=proj(p))
            for key in ("total", "full"):
                check_posterior(C, W, f"{key} at datum {k}", R, lambda o: o[key][0][k], lambda o: o[key][1][k], b, proj=proj(range(n)))
        for k, b in enumerate(W.tests):
            for key in ("ps", "psall", "predt", "predk", "condt", "indext", "x one", "x all", "x predict"):
                for i in range(n):
                    check_posterior(C, W, f"{key}: component {i} at test {k}", R, lambda o: o[key][i][0][k], lambda o: o[key][i][1][k], b, proj=proj([i]))
            for key in ("pstot", "fullt", "x total"):
                check_posterior(C, W, f"{key} at test {k}", R, lambda o: o[key][0][k], lambda o: o[key][1][k], b, proj=proj(range(n)))
    return Case(f"{label}/{events}", fn, on_concrete=on_concrete, tier=tier, limit=limit, functions=FN)


def kept(events, limit=300):
    """use_unique_names=False: equally named components stay so, and their common name asks for all of them"""
    def fn(C):
        specs = [L("a", name="K"), L("b", name="K"), L("c")]
        B = len(events)
        V = Rat(11)
        W = World(C, B, 3, "unused", t0="pos")
        W.events, W.data, W.tests = events, [b for b in range(B) if events[b] == "d"], [b for b in range(B) if events[b] == "t"]
        worlds, args = [], []
        comps = [Comp(C, V, s, W, worlds, args, False) for s in specs]
        for e in range(B - 1):
            W.fill(e, blk([c.A[e] for c in comps]), blk([c.Q[e] for c in comps]))
        W.Pinf, W.H = blk([c.P for c in comps]), np.concatenate([c.H for c in comps], axis=1)
        W.prior(W.Pinf)
        W.Rn = [C.var(f"R{k}", True, 0.2, 2.0) for k in range(len(W.data))]
        W.y = [C.var(f"y{k}", False, -2.0, 2.0) for k in range(len(W.data))]
        C.worlds = worlds
        finish(C, W)
        if not C.st.fixed:
            for k in range(1, len(W.data)):
                C.assume(det_sym(obs_cov(W, range(k + 1))), "gt")
        t, ts = arr([W.T[b] for b in W.data]), arr([W.T[b] for b in W.tests])

        def f(t, R, y, ts, *a):
            g = GaussianProcess(tree(((0, 1), 2), comps, a), t, diag=R, use_unique_names=False)
            c, x = g.condition(y).gp, g.condition(y, ts).gp
            for q in (g, c, x, c.condition(y).gp):
                assert [k.name for k in KB.extract_leaf_kernels(q.kernel)] == ["K", "K", "Kc"]
            return [c.get_component_mean("K", return_var=True), c.get_component_mean("Kc", return_var=True), c.predict(ts, kernel="K", return_var=True),
                    c.predict(ts, return_full_state=True).get_component("K", return_var=True), x.get_component_mean("K", return_var=True)]
        R = C.run("components", f, t, arr(W.Rn), arr(W.y), ts, *args)
        both, last = W.H.copy(), W.H.copy()
        both[0, 2], last[0, :2] = ZERO, ZERO
        for k, b in enumerate(W.data):
            for i, p in ((0, both), (1, last)):
                check_posterior(C, W, f"component {i} at datum {k}", R, lambda o: o[i][0][k], lambda o: o[i][1][k], b, proj=p)
        for k, b in enumerate(W.tests):
            for i in (2, 3, 4):
                check_posterior(C, W, f"component K at test {k} ({i})", R, lambda o: o[i][0][k], lambda o: o[i][1][k], b, proj=both)
    return Case(f"names kept/{events}", fn, on_concrete=on_concrete, limit=limit, functions=FN)


def L(tag, d=1, name=None):
    return ("L", tag, d, name or "K" + tag)


def cases(tier):
    a, b, c = L("a"), L("b"), L("c")
    r = [mk("a+b", [a, b], (0, 1), ev) for ev in ("d", "dd", "dt", "dtd")]
    r += [mk("a+b", [a, b], (0, 1), "ddt", conc=1), mk("a+b", [a, b], (0, 1), "tdd", conc=2, stationary=True)]
    r += [mk("a+b*c", [a, ("*", b, c)], (0, 1), "dd"), mk("b*c+a", [("*", b, c), a], (0, 1), "dtd", conc=3),
          mk("a+s*b", [a, ("s", b)], (0, 1), "dd"), mk("s*a+b", [("s", a), b], (0, 1), "dtd", conc=4),
          mk("a+s*(b*c)", [a, ("s", ("*", b, c))], (0, 1), "dd", conc=4)]
    r += [mk("(a+b)+c", [a, b, c], ((0, 1), 2), "dd", conc=5), mk("a+(b+c)", [a, b, c], (0, (1, 2)), "dtd", conc=6)]
    r += [mk("(a2+b)+c", [L("a", 2), b, c], ((0, 1), 2), "dd", conc=5), mk("a+(b2+c)", [a, L("b", 2), c], (0, (1, 2)), "dtd", conc=6)]
    x = [L("a", name="K"), L("b", name="K"), L("c", name="K")]
    r += [mk("equal names K+K", x[:2], (0, 1), "dd"), mk("equal names K+K", x[:2], (0, 1), "dtd", conc=7),
          mk("equal names K+(K+K)", x, (0, (1, 2)), "dd", conc=7), mk("equal names K+c+K", [x[0], c, x[1]], ((0, 1), 2), "dtd", conc=8),
          mk("equal names K*c+K*c", [("*", x[0], c), ("*", x[1], L("e", name="Kc"))], (0, 1), "dtd", conc=8),
          mk("equal names s*K+K", [("s", x[0]), x[1]], (0, 1), "dtd", conc=9),
          kept("dtd"), kept("ddt"), mk("a alone", [a], 0, "dtd"), mk("a*b alone", [("*", a, b)], 0, "dd")]
    return r
