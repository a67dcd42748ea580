"""C22: long gaps and other units never overflow.

Reals have no overflow, so equality in the reals (C02, C03, C06) says nothing
here.  What is decided instead: the graph of operations the code executes is
walked, and every operation's result is bounded by exp(g) times an algebraic
factor, with g a symbolic expression of the inputs (a list of candidates for a
sum).  The solver shows that no g exceeds 570 anywhere in the box, on each path;
double precision ends at exp(709), so the algebraic factors have 60 orders of
magnitude left, more than products of powers of the inputs in the box can fill."""
import z3
from engine import smt
from engine.harness import CaseTimeout, Violation, flat, flatf, to_frac
from engine.alg import Inconclusive, TooBig, Undef
from engine.path import Dead
from .integ import *
from .c19 import sho, DAMP, KD, make as make_dense

LIM = con(570)
BOX = dict(default=("1/1000", "1000"), dt=("1/1000000", "1000000"), dt1=("1/1000000", "1000000"), dt2=("1/1000000", "1000000"), y=("-1000", "1000"), gam=("1/1000", "50"), quality=("1/100", "50"))
EXPM_NORM = Q_(350000)        # jax.scipy.linalg.expm returns NaN beyond a 1-norm of 5.37 * 2^16
BOUNDS = ("every lengthscale, period, frequency and amplitude in [1e-3, 1e3] (Gamma in [1e-3, 50], quality in [1/100, 50]), every gap in [1e-6, 1e6]; integrated kernels with 1 or 2 instruments")
OUTSIDE = "overflow of algebraic factors (powers of the inputs), absorption and cancellation in rounding; inputs outside the box"


class Growth:
    """an upper bound on the growth exponent of every value computed on one path
    (a number; infinite when the solver cannot bound it)"""
    LADDER = (0, Q_(21, 2), 25, 60, 200, 570)

    def __init__(self, st, ms):
        self.st, self.ms = st, ms
        self.memo, self.keep = {}, []
        self.bad = []        # (exponent, what computes it, verdict)
        self.seen = {}
        self.checked = []
        self.norms = {}

    def unsat(self, g, lim):
        if g.is_const():
            return "unsat" if g.const_val() <= lim else "sat"
        if lim == 0 and alg.quick_sign(g) in (-1, 0):
            return "unsat"
        return smt.check(self.st.cons_with(self.st.relz(g - con(lim), "gt"), *logs(self.st, g)), ms=self.ms)

    def site(self, g, what):
        """the least bound of the ladder on the exponent g"""
        k = g.key()
        if k not in self.seen:
            self.checked.append(g)
            v = "unsat" if self.unsat(g, 0) == "unsat" else self.unsat(g, 570)
            self.seen[k] = 570
            if v == "unsat":
                self.seen[k] = next(l for l in self.LADDER if l == 570 or self.unsat(g, l) == "unsat")
            else:
                self.bad.append((g, what, v))
        return self.seen[k]

    def total(self, b, what):
        if b > 570 and not self.bad:
            raise Inconclusive(f"bounds of {what} add up to {float(b)}")
        return b

    def of(self, n):
        stack = [n]
        while stack:
            x = stack[-1]
            if id(x) in self.memo:
                stack.pop()
                continue
            kids = self.kids(x)
            todo = [k for k in kids if id(k) not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[id(x)] = self.rule(x, [self.memo[id(k)] for k in kids])
            self.keep.append(x)          # (ids stay unique)
            stack.pop()
        return self.memo[id(n)]

    def kids(self, x):
        if x.op == "sel":
            p, cases = x.args
            return [cases[int(p.force() if isinstance(p, nd.LazyBool) else int(p))]]
        if x.op == "solve":
            o = x.args[0]
            if isinstance(o, interp.Residual) or isinstance(o, ex.LazyExpm):
                return []
            if isinstance(o, nd.Mat):
                return [v for r in o.B for v in r] + [v for r in o.A for v in r]
            return [v for r in o.A for v in r]
        return [a for a in x.args if isinstance(a, nd.Node)]

    def rule(self, x, g):
        op = x.op
        if op in ("c", "v", "sin", "cos", "tan", "tanh", "sign", "logistic", "log", "log1p", "lgamma"):
            return 0
        if op in ("+", "-", "sum", "max", "min", "sel", "neg", "abs", "real", "imag", "conj", "sqrt"):
            return max(g, default=0)
        if op == "*":
            return self.total(g[0] + g[1], "a product")
        if op in ("/", "rsqrt"):
            low = self.low(x.args[-1])
            n = g[0] if op == "/" else 0
            return n if low.is_zero() else self.total(n + self.site(-low, "the inverse of a vanishing divisor"), "a quotient")
        if op == "ipow":
            if x.c < 0:
                return self.site(self.low(x.args[0]) * F(x.c), "a power")
            return self.total(g[0] * x.c, "a power")
        if op in ("exp", "expm1"):
            return self.site(nd.force(x.args[0]), op)
        if op in ("sinh", "cosh"):
            a = nd.force(x.args[0])
            return max(self.site(a, op), self.site(-a, op))
        if op == "pow":
            if g[0] or g[1]:
                raise Inconclusive("growth of pow")
            return 0
        if op == "solve":
            o = x.args[0]
            if isinstance(o, ex.LazyExpm):
                if id(o) not in self.norms:
                    A = [[nd.force(v) for v in r] for r in o.A]
                    m = o.norm_block
                    for r in A[:m]:
                        for v in r[:m]:
                            if not v.is_zero():
                                for w in (v, -v):
                                    self.site(w * F(570 * m / EXPM_NORM), "the norm in expm")
                    ls = [alg.re_im(l)[0] if ("imag",) in alg.CTX.by_key else l for l in ex.eigenvalues(A)]
                    self.norms[id(o)] = (max([self.site(l, "expm") for l in ls]), o)
                return self.norms[id(o)][0]
            if isinstance(o, nd.Mat):
                return max(g[:len(o.B) * len(o.B[0])], default=0)
            if isinstance(o, (interp._LU, interp._Chol)):
                return max(g, default=0)
        raise Inconclusive(f"growth of {op}")

    def low(self, x):
        """exponent of the smallest size: exact for products and powers of
        exponentials; a sum is taken not to vanish unless all its terms do"""
        op = x.op
        if op == "exp":
            return nd.force(x.args[0])
        if op == "*":
            return self.low(x.args[0]) + self.low(x.args[1])
        if op == "/":
            return self.low(x.args[0]) - self.low(x.args[1])
        if op in ("neg", "abs"):
            return self.low(x.args[0])
        if op == "ipow":
            return self.low(x.args[0]) * F(x.c)
        if op in ("sqrt", "rsqrt"):
            return self.low(x.args[0]) * (HALF if op == "sqrt" else -HALF)
        if op == "sel":
            return self.low(self.kids(x)[0])
        if op in ("+", "-", "sum"):
            ls = [self.low(a) for a in x.args]
            return ls[0] if len({l.key() for l in ls}) == 1 else ZERO
        return ZERO


def box(C, args):
    """assume every input in the box; oscillators: their frequency and quality (which are functions of k and u)"""
    def inside(x, n):
        lo, hi = BOX.get(n, BOX["default"])
        C.assume(x - con(lo), "ge")
        C.assume(x - con(hi), "le")
    for n in list(C.st.vars):
        b = n.rstrip("0123456789")
        if n not in ("t1",) and b not in ("k", "u"):
            inside(C.st.var(n), n if n in BOX else b)
    for a in args:
        vs = {alg.CTX.syms[i].name.rstrip("0123456789") for i in alg.psyms(a.num)}
        if "k" in vs:
            inside(a, "default" if "u" in vs else "quality")


def logs(st, g):
    """true facts about the logarithms in g: bounds of constants, tangents of the rest"""
    out = []
    for i in alg.psyms(g.num):
        s = alg.CTX.syms[i]
        if s.kind != "log":
            continue
        x, l = s.info, alg.from_sym(s)
        if x.is_const():
            v = math.log(x.const_val())
            out += [st.relz(l - con(v - 1e-9), "ge"), st.relz(l - con(v + 1e-9), "le")]
        else:
            for c in (1, 8, 64):        # log x <= x/c + log c - 1
                out.append(st.relz(x * con(Q_(1, c)) + con(math.log(c) - 1 + 1e-9) - l, "ge"))
    return out


def decide(C, name, R, pick):
    st = C.st
    C.res["obligations"] += 1
    G = st.memo.setdefault("growth", Growth(st, C.case.query_ms))
    k0 = len(G.checked)
    try:
        for o in flat(pick(R.out)):
            if isinstance(o, nd.Node):
                G.of(o)
    except Undef as e:
        return replay(C, name, R, pick, [], f"undefined: {e}")
    except (Inconclusive, TooBig) as e:
        return replay(C, name, R, pick, [], f"{type(e).__name__}: {e}")
    bad = G.bad      # (those met in earlier outputs of the path too: the outputs share operations)
    if not bad:
        C.res["discharged"] += 1
        C.res["by_solver"] += 1
        if len(C.res["samples"]) < 4 and len(G.checked) > k0:
            C.res["samples"].append({"obligation": name, "code": "largest exponents: " + "; ".join(alg.show(g, 4) for g in G.checked[k0:k0 + 4]),
                                     "spec": "<= 570 in the box"})
        return
    g, what, v = bad[0]
    replay(C, name, R, pick, bad, f"{what} grows like exp({alg.show(g, 6)}): {v}")


def replay(C, name, R, pick, bad, why):
    st = C.st
    for g, what, _ in bad[:6]:
        for lim in (2000, 800, 570):
            if g.is_const():
                break
            try:
                _, m = smt.check(st.cons_with(st.relz(g - con(lim), "gt")), ms=4000, model=True)
            except Inconclusive:
                m = None
            if m is not None and st.add_model(m):
                break
    pts = list(reversed(st.points()))[:10]
    try:
        pts += st.enrich()
    except (Undef, Inconclusive, TooBig):
        pass
    for env, _ in pts:
        try:
            got = flatf(pick(C.concrete(R, env)))
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation({"what": f"{name}: the code raises {type(e).__name__}: {str(e)[:200]}", "case": C.case.name,
                             "inputs": C.env_dict(env)})
        C.res["probes"] += 1
        if not all(np.isfinite(got)):
            raise Violation({"what": f"{name}: the code returns {[float(x) for x in got][:9]}", "case": C.case.name,
                             "inputs": C.env_dict(env), "why": why, "path": st.desc[-8:]})
    C.res["undecided"].append(f"{name}: {why[:200]} (finite at {len(pts)} points)")


def entry0(spec, integrated):
    return integrated and spec == "SHO-underdamped"


def mk(spec, grad=False, integrated=False, entry=None, insts=1):
    nm = spec if isinstance(spec, str) else spec_name(spec)

    def fn(C):
        if C.st.fixed:
            raise Dead()
        if integrated:
            e = ENTRIES[spec]
            p = e.params(C)
            args, make = p["args"], (lambda a: e.integrated(*a, insts))
        else:
            args, make, _ = build(C, spec)
        dt = C.var("dt", True)
        box(C, args)

        def vals(d, *a):
            k = make(a)
            out = [k.transition_matrix(0.0, d), k.process_noise(0.0, d)]
            if not integrated:
                out.append(jnp.reshape(k.evaluate(0.0, d), (1, 1)))
            return out

        def f(d, *a):
            v = vals(d, *a)
            if not grad:
                return v
            h = lambda *b: jnp.concatenate([jnp.ravel(x) * 1.0 for x in vals(*b)])
            n = 1 + len(a)
            fw = [jax.jvp(h, (d,) + a, tuple(1.0 * (i == j) + 0 * d for j in range(n)))[1] for i in range(n)]
            y, pull = jax.vjp(h, d, *a)
            rv = [jnp.stack(pull(jnp.eye(len(y))[i])) for i in range(len(y))]
            return v + [jnp.stack(fw), jnp.stack(rv)]
        R = C.run("values", f, dt, *args)
        if entry is not None:       # (the code zeroes tiny entries one by one: keeps their conditions apart)
            decide(C, "process noise", R, lambda o: o[1][entry])
            return
        for i, what in enumerate(["transition"] + ([] if entry0(spec, integrated) else ["process noise"]) + ([] if integrated else ["covariance"]) + (["forward derivatives", "reverse derivatives"] if grad else [])):
            decide(C, what, R, lambda o, i=i: o[i])
        C.validate(R, lambda o: o[1 if not integrated else 0], "values")
    fns = ["kernels.integrated.Integrated" + nm.split("-")[0]] if integrated else ALL[spec].fn if isinstance(spec, str) else ["kernels.base.Sum", "kernels.base.Product", "kernels.base.Scale"]
    return Case(("integrated-" if integrated else "") + nm + (f"/insts={insts}" if insts > 1 else "") + ("/derivatives" if grad else "") + (f"/Q[{entry[0]},{entry[1]}]" if entry else ""), fn, functions=fns, feas_ms=300, reach_ms=300)


LAG = {"apart": (1, Q_(1, 2)), "abutting": (1, 1), "overlapping": (1, Q_(3, 2)), "same": (0, 1), "nested": (0, (1, Q_(1, 3))),
       "instant-apart": (1, (Q_(1, 2), 0)), "instant-inside": (Q_(1, 4), (1, 0))}


def dense(damp, rel=None):
    def fn(C):
        if C.st.fixed:
            raise Dead()
        _, w, q, s = sho(C, damp)
        dt = C.var("dt", True)
        box(C, [w, q])
        args, mk_ = make_dense(KD.IntegratedSHOKernel if rel else KD.SHOKernel, "SwQ", w, q, s)
        if rel:         # midpoints 0 and l*dt, lengths in units of dt
            C.assume(dt * w - con("1/1000"), "gt")
            l, x = LAG[rel]
            x1, x2 = x if isinstance(x, tuple) else (x, x)

            def f(d, *a):
                k = mk_(*a)
                A, B = (0.0 * d, float(x1) * d, 0), (float(l) * d, float(x2) * d, 0)
                return jnp.stack([k.evaluate(A, B), k.evaluate(B, A)])
        else:
            def f(d, *a):
                k = mk_(*a)
                return jnp.stack([k.evaluate(0.0, d), k.evaluate(d, 0.0)])
        R = C.run("dense", f, dt, *args)
        decide(C, "covariance", R, lambda o: o)
    return Case(f"dense-{'exposures-' + rel if rel else 'SHO'}-{DAMP[damp].strip()}", fn, functions=["kernels.dense." + ("IntegratedSHOKernel" if rel else "SHOKernel")],
                feas_ms=300, reach_ms=300)


def pipeline(name, par):
    """likelihood and posterior of three data, the second gap long"""
    def fn(C):
        if C.st.fixed:
            raise Dead()
        e = ENTRIES[name]
        p = e.params(C)
        d1, d2, R_ = C.var("dt1", True), C.var("dt2", True), C.var("noise", True)
        y = arr([C.var(f"y{i}") for i in range(3)])
        box(C, p["args"])

        def f(y, d1, d2, r, *a):
            X = jnp.stack([0.0 * d1, d1, d1 + d2])
            gp = GaussianProcess(e.make(*a), X, diag=r, solver=ParallelStateSpaceSolver if par else StateSpaceSolver)
            ll, c = gp.condition(y)
            m, v = c.predict(jnp.stack([d1 + d2 / 2, d1 + 2 * d2]), return_var=True)
            return ll, c.loc, c.variance, gp.log_probability(y), m, v
        R = C.run("pipeline", f, y, d1, d2, R_, *p["args"])
        for i, what in enumerate(["likelihood", "mean", "variance", "log_probability", "predicted mean", "predicted variance"]):
            decide(C, what, R, lambda o, i=i: o[i])
    return Case(f"GP-{name}-" + ("parallel" if par else "sequential"), fn, functions=["gp.GaussianProcess", "solvers"], jit=True, feas_ms=300, reach_ms=300)


def exposures(name, par, what):
    """the same for two exposures, a long gap apart (the likelihood or the posterior: fewer paths each)"""
    def fn(C):
        if C.st.fixed:
            raise Dead()
        e = ENTRIES[name]
        p = e.params(C)
        d1, d2, R_ = con("1/1000"), C.var("dt2", True), C.var("noise", True)      # (short exposures, any gap)
        y = arr([C.var(f"y{i}") for i in range(2)])
        box(C, p["args"])

        def f(y, d1, d2, r, *a):
            X = (jnp.stack([0.0 * d1, d1 + d2]), jnp.stack([d1, d1]), jnp.zeros(2, int))
            gp = GaussianProcess(e.integrated(*a, 1), X, diag=r, solver=ParallelIntegratedStateSpaceSolver if par else IntegratedStateSpaceSolver)
            ll, c = gp.condition(y)
            return dict(likelihood=ll, mean=c.loc, variance=c.variance)
        R = C.run("exposures", f, y, d1, d2, R_, *p["args"])
        decide(C, what, R, lambda o: o[what])
    return Case(f"GP-exposures-{name}-" + ("parallel" if par else "sequential") + f"/{what}", fn, functions=["gp.GaussianProcess", "solvers.integrated"], jit=True, feas_ms=300, reach_ms=300)


def cases(tier):
    r = [mk(n) for n in ALL] + [mk(n, integrated=True) for n, e in ENTRIES.items() if e.integrated]
    r += [mk(n, grad=True) for n in ALL]
    r += [mk(n, grad=True, integrated=True) for n, e in ENTRIES.items() if e.integrated and (not n.startswith("SHO") or tier == "thorough")]
    r += [mk("SHO-underdamped", integrated=True, entry=(i, j)) for i in range(3) for j in range(3)]
    r += [mk(("*", "Matern32", "Cosine")), mk(("+", "Exp", "SHO-underdamped")), mk(("s", "Matern52")), mk(("*", "SHO-overdamped", "Matern32"))]
    r += [mk(n, integrated=True, insts=2) for n in ("Exp", "Matern32", "Cosine")]
    r += [dense(d) for d in "uoc"] + [dense("u", x) for x in LAG]
    r += [exposures(n, par, what) for n in ("Exp", "Matern32") for par in (False, True) for what in ("likelihood", "mean", "variance")
          if n == "Exp" or what == "likelihood" or tier == "thorough"]
    r += [pipeline(n, par) for n in ("Exp", "Matern32", "SHO-overdamped", "SHO-critical") for par in (False, True)]
    if tier == "thorough":
        r += [pipeline("Matern52", par) for par in (False, True)] + [pipeline(n, False) for n in ("Cosine",)]
    return r
