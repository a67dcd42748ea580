"""Solver-level checks: an arbitrary Gauss-Markov model whose transition and
process noise are uninterpreted functions of the time difference, given by
symbolic matrices on the elementary intervals between the events of a case.
The specification is the dense Gaussian posterior of that model."""
from .common import *
from engine import harness, interp, node as nd, path, smt
from engine.harness import numval, flat, flatf, to_frac, Violation
from engine.path import Dead
import jax
import equinox as eqx
from smolgp import GaussianProcess
from smolgp.solvers import StateSpaceSolver, ParallelStateSpaceSolver

MODE = interp.CONCRETE


class TableKernel(KB.StateSpaceModel):
    """transition_matrix / process_noise looked up by time difference"""
    Hm: jnp.ndarray
    Pm: jnp.ndarray
    tag: str = eqx.field(static=True)
    conc: bool = eqx.field(static=True)
    dim: int = eqx.field(static=True)
    timed: str = eqx.field(static=True)

    def __init__(self, Hm, Pm, tag="", name=None, conc=None, dim=None, timed=""):
        """timed: "timed": the observation matrix is an uninterpreted function of time;
        "labelled": coordinates are pairs (time, label), the observation matrix is label * Hm"""
        self.Hm, self.Pm = Hm, Pm
        self.timed = timed
        self.tag = tag
        self.conc = MODE[0]
        self.dim = Hm.shape[-1]
        self.name = name or ("Table" + tag)

    @property
    def dimension(self):
        return self.dim

    def design_matrix(self):
        return jnp.zeros((self.dim, self.dim))

    def stationary_covariance(self):
        return self.Pm

    def observation_matrix(self, X):
        if self.timed == "labelled":
            return self.Hm * X[1]
        if self.timed == "timed":
            t = jnp.asarray(self.coord_to_sortable(X), dtype=jnp.float64)
            return interp.table(t, "H" + self.tag, (1, self.dim))
        return self.Hm

    def noise(self):
        return jnp.zeros((self.dim, self.dim))

    def noise_effect_matrix(self):
        return jnp.eye(self.dim)

    def _dt(self, X1, X2):
        return jnp.asarray(self.coord_to_sortable(X2) - self.coord_to_sortable(X1), dtype=jnp.float64)

    def transition_matrix(self, X1, X2):
        return interp.table(self._dt(X1, X2), "A" + self.tag, (self.dim, self.dim))

    def process_noise(self, X1, X2, use_van_loan=False):
        return interp.table(self._dt(X1, X2), "Q" + self.tag, (self.dim, self.dim))


def symm(A):
    return A


def row(H):
    return arr([list(H)])


def num(M, env):
    M = np.asarray(M, dtype=object)
    out = np.empty(M.shape)
    for i in np.ndindex(*M.shape):
        out[i] = numval(to_frac(M[i]), env)
    return out


def pairs(t):
    """coordinates as the user passes them (a tuple for labelled data)"""
    return t if t.ndim == 1 else (t[0], t[1])


class Tab:
    """one matrix-valued table"""

    def __init__(self, W, which):
        self.W, self.which = W, which

    def lookup(self, dt):
        return self.W.lookup(dt, self.which)

    def concrete(self, dt):
        return self.W.concrete(dt, self.which)


class TabH:
    """the observation matrix, a function of absolute time"""

    def __init__(self, W):
        self.W = W

    def lookup(self, t):
        W = self.W
        for b in range(W.B):
            if W.T[b].key() == t.key():
                return W.Hb(b)
        if t.key() not in W.extraH:
            W.extraH[t.key()] = (t, arr([[W.C.var(f"unH{len(W.extraH)}_{i}{W.tag}", False, -1.0, 1.0) for i in range(W.d)]]))
        return W.extraH[t.key()][1]

    def concrete(self, t):
        t = np.asarray(t)
        out = np.empty(t.shape + (1, self.W.d))
        _, tab = self.W.envH
        for i in np.ndindex(*t.shape):
            x = float(t[i])
            e, M = min(((abs(v - x), M) for v, M in tab), key=lambda p: p[0])
            out[i] = M if e <= 1e-9 * (1 + abs(x)) else np.sin(np.arange(1, self.W.d + 1) * (1.7 + x))
        return out


class World:
    """breakpoints 0..B-1 with symbolic spacings; `A[e]`, `Q[e]` of the elementary
    intervals.  data: list of (breakpoint) per datum, in data order."""

    def __init__(self, C, B, d, tag="", t0=True, zero=(), share=None):
        self.C, self.B, self.d, self.tag = C, B, d, tag
        self.zero = set(zero)            # elementary intervals of length 0
        self.delta = share.delta if share else [ZERO if e in self.zero else C.var(f"dt{e}", True, 0.2, 3.0) for e in range(B - 1)]
        t = share.T[0] if share else C.var("t0", False, -2.0, 2.0) if t0 is True else C.var("t0", True, 0.1, 2.0) if t0 else ZERO
        self.T = [t]
        for x in self.delta:
            t = t + x
            self.T.append(t)
        self.A = [None] * (B - 1)
        self.Q = [None] * (B - 1)
        for e in self.zero:
            self.A[e], self.Q[e] = eye(d), zeros(d, d)
        self.extra = {}
        self.runs = {}
        for i in range(B):
            s = ZERO
            for j in range(i + 1, B):
                s = s + self.delta[j - 1]
                if not s.is_zero():
                    if s.key() in self.runs and C.st.fixed:
                        raise Dead()
                    self.runs.setdefault(s.key(), (s, i, j))
        self.memo = {}
        self.env = None
        self.Hs, self.extraH, self.lab = None, {}, None
        interp.TABLES["H" + tag] = TabH(self)
        interp.TABLES["A" + tag] = Tab(self, "A")
        interp.TABLES["Q" + tag] = Tab(self, "Q")

    def coords(self, bs):
        """coordinates of breakpoints as given to the code"""
        t = arr([self.T[b] for b in bs])
        return t if self.lab is None else np.stack([t, arr([self.lab[b] for b in bs])])

    def Hb(self, b):
        """observation matrix at breakpoint b"""
        return self.H if self.Hs is None else self.Hs[b]

    # -- matrices of a run of intervals
    def comp(self, i, j):
        k = (i, j)
        if k not in self.memo:
            if i == j:
                self.memo[k] = (eye(self.d), zeros(self.d, self.d))
            else:
                A, Q = self.comp(i, j - 1)
                Ae, Qe = self.A[j - 1], self.Q[j - 1]
                self.memo[k] = (mm(Ae, A), ma(mm(mm(Ae, Q), Ae.T), Qe))
        return self.memo[k]

    def lookup(self, dt, which):
        if dt.is_zero():
            return eye(self.d) if which == "A" else zeros(self.d, self.d)
        r = self.runs.get(dt.key())
        if r is not None:
            return self.comp(r[1], r[2])[0 if which == "A" else 1]
        k = (which, dt.key())
        if k not in self.extra:
            n = len(self.extra)
            self.extra[k] = (dt, sym_matrix(self.C, f"un{which}{n}{self.tag}", self.d, self.d, which == "Q"))
        return self.extra[k][1]

    # -- concrete runs
    def set_env(self, env):
        if self.env is not None and self.env[0] is env:
            return
        tab = []
        for s, i, j in self.runs.values():
            A, Q = self.comp(i, j)
            tab.append((numval(s, env), num(A, env), num(Q, env)))
        ex = []
        for (which, _), (dt, M) in self.extra.items():
            ex.append((which, numval(dt, env), num(M, env)))
        self.env = (env, tab, ex)
        if self.Hs is not None:
            self.envH = (env, [(numval(self.T[b], env), num(self.Hs[b], env)) for b in range(self.B)] +
                         [(numval(t, env), num(M, env)) for t, M in self.extraH.values()])

    def concrete(self, dt, which):
        dt = np.asarray(dt)
        out = np.empty(dt.shape + (self.d, self.d))
        for i in np.ndindex(*dt.shape):
            out[i] = self._conc(float(dt[i]), which)
        return out

    def _conc(self, x, which):
        _, tab, ex = self.env
        if x == 0.0:
            return np.eye(self.d) if which == "A" else np.zeros((self.d, self.d))
        best = None
        for v, A, Q in tab:
            e = abs(v - x)
            if e <= 1e-9 * (1 + abs(v)) and (best is None or e < best[0]):
                best = (e, A if which == "A" else Q)
        for w, v, M in ex:
            e = abs(v - x)
            if w == which and e <= 1e-9 * (1 + abs(v)) and (best is None or e < best[0]):
                best = (e, M)
        if best is None:
            if abs(x) < 1e-12:
                return np.eye(self.d) if which == "A" else np.zeros((self.d, self.d))
            h = np.sin(np.arange(1, self.d * self.d + 1) * (1.3 + x) * (1 if which == "A" else 2)).reshape(self.d, self.d)
            return h if which == "A" else h + h.T
        return best[1]

    def distinct(self, env):
        """float times of this point tell all runs apart"""
        v = sorted(numval(s, env) for s, _, _ in self.runs.values())
        return all(b - a > 1e-5 * (1 + abs(a)) for a, b in zip(v, v[1:]))

    def fill(self, e, A=None, Q=None):
        self.A[e], self.Q[e] = A, Q

    # -- prior
    def prior(self, P0, cov=None):
        """joint prior covariances Cov(x_a, x_b) of the breakpoints"""
        P = [P0]
        for e in range(self.B - 1):
            P.append(ma(mm(mm(self.A[e], P[-1]), self.A[e].T), self.Q[e]))
        self.P = P

    def cxx(self, a, b):
        if a <= b:
            return mm(self.P[a], self.comp(a, b)[0].T)
        return mm(self.comp(b, a)[0], self.P[b])


    def var(self, b):
        return self.cxx(b, b)


def lin(C, name, n, lo=0.3, hi=0.9, mk=None):
    return [C.var(f"{name}{i}", True, lo, hi) for i in range(n)]


def sq(x):
    return x * x


def ldl(C, name, d, lo=0.8, hi=1.6):
    """positive definite matrix L D L' with D = e^2"""
    e = [C.var(f"{name}e{i}", True, lo, hi) for i in range(d)]
    L = eye(d)
    for i in range(d):
        for j in range(i):
            L[i, j] = C.var(f"{name}l{i}{j}", False, -0.4, 0.4)
    D = zeros(d, d)
    for i in range(d):
        D[i, i] = sq(e[i])
    return mm(mm(L, D), L.T)


def smat(C, name, d, lo=-0.5, hi=0.5, diag=(0.3, 0.8)):
    out = zeros(d, d)
    for i in range(d):
        for j in range(d):
            out[i, j] = C.var(f"{name}{i}{j}", False, *(diag if i == j else (lo, hi)))
    return out


def qmat(C, name, d):
    out = zeros(d, d)
    for i in range(d):
        for j in range(i, d):
            out[i, j] = out[j, i] = C.var(f"{name}{i}{j}", False, *((0.3, 1.0) if i == j else (-0.1, 0.1)))
    return out


class Rat:
    """same interface as the context, but every `var` is a fixed rational number
    (drawn once per case) - used to keep some ingredients concrete"""

    def __init__(self, seed=0):
        import random
        self.r = random.Random(seed)
        self.m = {}

    def var(self, name, pos=False, lo=None, hi=None, param=False):
        if name not in self.m:
            if lo is None:
                lo, hi = (0.3, 2.0) if pos else (-1.5, 1.5)
            self.m[name] = Q_(self.r.uniform(lo, hi)).limit_denominator(16) or Q_(1, 16)
        return F(self.m[name])


def instant(C, events, d, H="sym", conc=None, zero=(), t0=True):
    """World for instantaneous data.  events: string over 'd' (datum) and 't'
    (test point), in time order.  Parametrised by the innovation variances
    S_k = r_k^2 and the predicted covariances (L D L'), so that everything the
    filter computes is a Laurent polynomial; the measurement variances R_k and
    the last process noise of each interval are derived from them (a bijective
    change of variables).  `conc`: source of the concrete ingredients or None."""
    V = conc or C
    B = len(events)
    W = World(C, B, d, zero=zero, t0=t0)
    W.events = events
    W.data = [b for b in range(B) if events[b] == "d"]
    W.tests = [b for b in range(B) if events[b] == "t"]
    if H == "sym":
        Hm = row([V.var(f"h{i}", False, 0.5, 1.5) for i in range(d)])
    elif H == "e0":
        Hm = row([ONE] + [ZERO] * (d - 1))
    elif H == "timed":
        W.Hs = []
        for b in range(B):
            W.Hs.append(W.Hs[-1] if b - 1 in W.zero else row([V.var(f"h{b}_{i}", False, 0.5, 1.5) for i in range(d)]))
        Hm = W.Hs[0]
    elif H == "labelled":
        Hm = row([V.var(f"h{i}", False, 0.5, 1.5) for i in range(d)])
        W.lab = [C.var(f"lab{b}", True, 0.5, 1.5) for b in range(B)]
        W.Hs = [Hm * x for x in W.lab]
    else:
        Hm = row(H)
    W.H = Hm
    first = W.data[0]
    Pinf = ldl(V, "P", d)
    W.Pinf = Pinf
    W.r, W.Rn = [], []
    # before the first datum: stationary propagation
    for e in range(first):
        if e in W.zero:
            continue
        A = smat(V, f"A{e}_", d)
        W.fill(e, A, ma(Pinf, mm(mm(A, Pinf), A.T), -1))
    Pp = Pinf
    for k, b in enumerate(W.data):
        r = C.var(f"r{k}", True, 1.6, 2.6)
        S = sq(r)
        W.r.append(r)
        Hk = W.Hb(b)
        HP = mm(Hk, Pp)
        W.Rn.append(S - mm(HP, Hk.T)[0, 0])
        Kg = arr([[HP[0, i] / S] for i in range(d)])
        Pf = ma(Pp, mm(Kg, arr([[S]]) * Kg.T), -1)
        nxt = W.data[k + 1] if k + 1 < len(W.data) else B - 1
        P = Pf
        for e in range(b, nxt):
            if e in W.zero:
                continue
            A = smat(V, f"A{e}_", d)
            if e == nxt - 1 and k + 1 < len(W.data):
                Pn = ldl(V, f"P{e}_", d)
                Qe = ma(Pn, mm(mm(A, P), A.T), -1)
            else:
                Qe = qmat(V, f"Q{e}_", d)
                Pn = ma(mm(mm(A, P), A.T), Qe)
            W.fill(e, A, Qe)
            P = Pn
        Pp = P
    W.prior(Pinf)
    W.y = [C.var(f"y{k}", False, -2.0, 2.0) for k in range(len(W.data))]
    finish(C, W)
    return W


def finish(C, W, floor=1e-3):
    """admissible points: proper noise variances and process noises"""
    C.world = W
    n = len(W.Rn)

    def ok(pt):
        env = pt[0]
        try:
            if any(numval(x, env) <= floor for x in W.Rn):
                return False
            for e in range(W.B - 1):
                if e not in W.zero and np.linalg.eigvalsh(num(W.Q[e], env))[0] < floor:
                    return False
            return W.distinct(env)
        except (ZeroDivisionError, OverflowError, alg.Undef, KeyError):
            return False
    if C.st.fixed:
        if not ok(({}, {})):
            raise Dead()
    else:
        C.st._filt(ok)


def on_concrete(C, env):
    for w in getattr(C, "worlds", [C.world]):
        w.set_env(env)


def obs_cov(W, use=None):
    """Cov(y,y) of the dense model (of the data listed in `use`)"""
    if hasattr(W, "obs_cov"):
        return W.obs_cov(list(range(len(W.y))) if use is None else list(use))
    use = range(len(W.data)) if use is None else use
    S = zeros(len(use), len(use))
    for a, i in enumerate(use):
        for b, j in enumerate(use):
            S[a, b] = mm(mm(W.Hb(W.data[i]), W.cxx(W.data[i], W.data[j])), W.Hb(W.data[j]).T)[0, 0]
        S[a, a] = S[a, a] + W.Rn[i]
    return S


def cross(W, b, use=None):
    """Cov(x_b, y)"""
    if hasattr(W, "cross"):
        return W.cross(b, list(range(len(W.y))) if use is None else list(use))
    use = range(len(W.data)) if use is None else use
    return np.concatenate([mm(W.cxx(b, W.data[j]), W.Hb(W.data[j]).T) for j in use], axis=1)


def dense(W, env, b=None, proj=None, use=None):
    """numeric reference: posterior of proj @ x_b"""
    use = list(range(len(W.y))) if use is None else use
    P = num(W.var(b), env)
    if not len(use):
        m = np.zeros(len(P))
        if proj is not None:
            p = num(proj, env)
            m, P = p @ m, p @ P @ p.T
        return m, P
    S = num(obs_cov(W, use), env)
    y = num([W.y[i] for i in use], env)
    C = num(cross(W, b, use), env)
    if proj is not None:
        p = num(proj, env)
        C, P = p @ C, p @ P @ p.T
    w = np.linalg.solve(S, C.T).T
    return w @ y, P - w @ C.T


def loglike(W, env):
    S = num(obs_cov(W), env)
    y = num(W.y, env)
    s, ld = np.linalg.slogdet(S)
    return -0.5 * (y @ np.linalg.solve(S, y) + ld + len(y) * np.log(2 * np.pi))


def sens(C, y):
    return [alg.CTX.by_key[("var", f"y{k}")] for k in range(len(y))]


def check_posterior(C, W, name, R, pick_m, pick_P, b, proj=None, use=None):
    """mean = Cov(x,y) Sigma^-1 y and cov = Cov(x,x) - Cov(x,y) Sigma^-1 Cov(y,x),
    decided without inverting: the mean is W y with W Sigma = Cov(x,y)"""
    use = list(range(len(W.y))) if use is None else use
    want = lambda env: dense(W, env, b, proj, use)
    fl = lambda env, k: np.asarray(want(env)[k]).reshape(-1)
    if C.st.fixed:
        C.ident(name + " mean", R, pick_m, None, lambda env: fl(env, 0))
        C.ident(name + " cov", R, pick_P, None, lambda env: fl(env, 1))
        return

    def weights():
        m = [to_frac(v) for v in flat(pick_m(R.out))]
        sy = sens(C, W.y)
        return m, [[alg.diff(x, sy[j]) for j in use] for x in m]
    n = len(use)
    P = W.var(b)
    S, Cx = (obs_cov(W, use), cross(W, b, use)) if n else (None, None)
    if proj is not None:
        Cx, P = mm(proj, Cx) if n else None, mm(mm(proj, P), proj.T)
    st = {}

    def g():
        if not st:
            st["m"], st["w"] = weights()
        return st

    def lin_items():
        g()
        out = []
        for i, x in enumerate(st["m"]):
            s = ZERO
            for j in range(n):
                s = s + st["w"][i][j] * W.y[use[j]]
            out.append((f"linear[{i}]", x, s))
        return out

    def w_items():
        g()
        if not n:
            return []
        L = mm(arr(st["w"]), S)
        return [(f"weights[{i},{j}]", L[i, j], Cx[i, j]) for i in range(len(st["m"])) for j in range(n)]

    def c_items():
        g()
        V = [to_frac(v) for v in flat(pick_P(R.out))]
        k = len(st["m"])
        E = ma(P, mm(arr(st["w"]), Cx.T), -1) if n else P
        if len(V) != k * k:
            return [("size", F(len(V)), F(k * k))]
        return [(f"cov[{i},{j}]", V[i * k + j], E[i, j]) for i in range(k) for j in range(k)]
    C.ident(name + " mean", R, pick_m, lambda: lin_items() + w_items(), lambda env: fl(env, 0))
    C.ident(name + " cov", R, pick_P, c_items, lambda env: fl(env, 1))
    C.validate(R, pick_m, name)


def check_loglike(C, W, name, R, pick, logs=None):
    want = lambda env: [loglike(W, env)]
    if C.st.fixed:
        C.ident(name, R, pick, None, want)
        return

    def items():
        x = to_frac(flat(pick(R.out))[0])
        n = len(W.y)
        ys = sens(C, W.y)
        q = x + alg.log(alg.PI() * F(2)) * con(Q_(n, 2))
        for r in W.r:
            q = q + alg.log(r)
        g = [alg.diff(q, s) for s in ys]
        M = [[-alg.diff(a, s) for s in ys] for a in g]
        S = obs_cov(W)
        L = mm(arr(M), S)
        s = ZERO
        for i in range(n):
            s = s + g[i] * W.y[i]
        p = ONE
        for r in W.r:
            p = p * r * r
        return ([("quadratic", q, s * HALF)] + [(f"inverse[{i},{j}]", L[i, j], ONE if i == j else ZERO)
                for i in range(n) for j in range(n)] + [("determinant", det_sym(S), p)])
    C.ident(name, R, pick, items, want)
    C.validate(R, pick, name)
