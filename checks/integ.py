"""Integrated (exposure-averaged) data: an arbitrary Gauss-Markov base process
x together with its running integral, as uninterpreted functions of the time
difference.  The code runs the real augmentation (IntegratedStateSpaceModel)
on top of them; the specification is the dense Gaussian model in which datum n
is the average of x[0] over its exposure plus noise."""
from .tab import *
from smolgp.kernels import integrated as KI
from smolgp.solvers.integrated import IntegratedStateSpaceSolver, ParallelIntegratedStateSpaceSolver


class TableIntegrated(KI.IntegratedStateSpaceModel):
    """the base matrices and the integral blocks come from one table of
    dimension d+1 (the process and its integral)"""
    tag: str = eqx.field(static=True)
    conc: bool = eqx.field(static=True)

    def __init__(self, H, P, num_insts=1, tag="", name=None, base_model=None, conc=None):
        self.base_model = TableBase(H, P, tag) if base_model is None else base_model
        self.num_insts = num_insts
        self.tag = tag
        self.conc = MODE[0]
        self.name = name or "Table" + tag

    def _tab(self, which, X1, X2):
        D = self.d + 1
        dt = jnp.asarray(self.coord_to_sortable(X2) - self.coord_to_sortable(X1), dtype=jnp.float64)
        return interp.table(dt, which + self.tag, (D, D))

    def integrated_transition_matrix(self, X1, X2):
        return self._tab("A", X1, X2)[self.d:, :self.d]

    def integrated_process_noise(self, X1, X2):
        Q, d = self._tab("Q", X1, X2), self.d
        return Q[:d, d:], Q[d:, :d], Q[d:, d:]


class TableBase(TableKernel):
    """top left block of the table of dimension d+1"""

    def transition_matrix(self, X1, X2):
        return interp.table(self._dt(X1, X2), "A" + self.tag, (self.dim + 1, self.dim + 1))[:self.dim, :self.dim]

    def process_noise(self, X1, X2, use_van_loan=False):
        return interp.table(self._dt(X1, X2), "Q" + self.tag, (self.dim + 1, self.dim + 1))[:self.dim, :self.dim]


class IntWorld(World):
    """targets of `check_posterior` are functionals: ({breakpoint: rows}, extra
    covariance or None) of the un-reset joint process (x, integral of x[0])"""
    scale = None

    def cov(self, f, g):
        S = None
        for a, Ma in f[0].items():
            for b, Mb in g[0].items():
                t = mm(mm(Ma, self.cxx(a, b)), Mb.T)
                S = t if S is None else ma(S, t)
        return S if self.scale is None else S * self.scale

    def var(self, f):
        P = self.cov(f, f)
        return P if f[1] is None else ma(P, f[1])

    def obs_cov(self, use):
        n = len(use)
        S = zeros(n, n)
        for a, i in enumerate(use):
            for b, j in enumerate(use):
                S[a, b] = self.cov(self.obs[i], self.obs[j])[0, 0]
            S[a, a] = S[a, a] + self.Rn[i]
        return S

    def cross(self, f, use):
        return np.concatenate([self.cov(f, self.obs[j]) for j in use], axis=1)


def parse(events):
    """'[a [b ]a t ]b' -> list of (kind, datum); data are numbered by their letter.
    'a!' is a point datum (zero exposure time)"""
    out = []
    for w in events.split():
        if w[0] == "t":
            out.append(("t", None))
        elif w[0] in "[]":
            out.append(("s" if w[0] == "[" else "e", ord(w[1]) - 97))
        else:
            out.append(("p", ord(w[0]) - 97))
    return out


def build_int(C, events, d, insts, m=1, conc=None, zero=(), t0="pos", stationary=None, tag="", share=None):
    """insts: instrument of each datum.  zero: elementary intervals of length 0.
    With one instrument (conc None) the predicted covariances and innovation variances are the
    free parameters; otherwise the state matrices are rationals (conc: seed) and the noises free"""
    ev = parse(events)
    B = len(ev)
    D = d + 1
    W = IntWorld(C, B, D, tag=tag, t0=t0, zero=zero, share=share)
    W.base, W.m, W.insts, W.events = d, m, insts, events
    N = len(insts)
    W.N = N
    W.start, W.end = [None] * N, [None] * N
    W.tests, W.states = [], []     # states: (breakpoint, kind, datum) in order
    for b, (k, n) in enumerate(ev):
        if k == "t":
            W.tests.append(b)
        elif k == "p":             # the code orders the end before the start
            W.start[n] = W.end[n] = b
            W.states += [(b, "e", n), (b, "s", n)]
        else:
            (W.start if k == "s" else W.end)[n] = b
            W.states.append((b, k, n))
    first = W.states[0][0]
    W.first = first
    V = Rat(conc) if conc is not None else C
    Hm = row([ONE] + [ZERO] * d)
    W.H = row([ONE] + [ZERO] * (d - 1))
    P = ldl(V, "P", d)
    W.Pinf = P
    P0 = zeros(D, D)
    P0[:d, :d] = P
    W.delta_n = []
    for n in range(N):
        x = ZERO
        for e in range(W.start[n], W.end[n]):
            x = x + W.delta[e]
        W.delta_n.append(x)

    def Amat(e):
        A = eye(D)
        A[:d, :d] = smat(V, f"A{e}_", d)
        for j in range(d):
            A[d, j] = V.var(f"B{e}_{j}", False, 0.2, 0.8)
        return A
    W.Rn = [None] * N
    W.r = []
    if conc is not None:
        W.free = False
        for e in range(B - 1):
            if e in W.zero:
                continue
            A = Amat(e)
            if e < first or stationary:
                Q = qmat(V, f"Q{e}_", D)
                for i in range(d):
                    for j in range(d):
                        Q[i, j] = (ma(P, mm(mm(A[:d, :d], P), A[:d, :d].T), -1))[i, j]
            else:
                Q = qmat(V, f"Q{e}_", D)
            W.fill(e, A, Q)
        for n in range(N):
            W.Rn[n] = share.Rn[n] if share else C.var(f"R{n}", True, 0.2, 2.0)
    else:
        W.free = True
        for e in range(first):
            if e in W.zero:
                continue
            A = Amat(e)
            Q = qmat(V, f"Q{e}_", D)
            Q[:d, :d] = ma(P, mm(mm(A[:d, :d], P), A[:d, :d].T), -1)
            W.fill(e, A, Q)
        Pc = zeros(D, D)           # filter covariance of (x, z of the one instrument)
        Pc[:d, :d] = P
        Pc[d, d] = ONE
        sb = [s[0] for s in W.states]
        for i, (b, k, n) in enumerate(W.states):
            if k == "s":
                Pc = Pc.copy()
                for j in range(D):
                    Pc[d, j] = Pc[j, d] = ZERO
            else:
                h = zeros(1, D)
                if W.delta_n[n].is_zero():
                    h[0, 0] = ONE
                else:
                    h[0, d] = ONE / W.delta_n[n]
                r = C.var(f"r{n}", True, 1.6, 2.6)
                S = sq(r)
                W.r.append(r)
                HP = mm(h, Pc)
                W.Rn[n] = S - mm(HP, h.T)[0, 0]
                Kg = arr([[HP[0, j] / S] for j in range(D)])
                Pc = ma(Pc, mm(Kg, arr([[S]]) * Kg.T), -1)
            nxt = sb[i + 1] if i + 1 < len(sb) else B - 1
            for e in range(b, nxt):
                if e in W.zero:
                    continue
                A = Amat(e)
                if e == nxt - 1 and i + 1 < len(sb):
                    Pn = ldl(V, f"P{e}_", D)
                    Q = ma(Pn, mm(mm(A, Pc), A.T), -1)
                else:
                    Q = qmat(V, f"Q{e}_", D)
                    Pn = ma(mm(mm(A, Pc), A.T), Q)
                W.fill(e, A, Q)
                Pc = Pn
    W.prior(P0)
    ez = row([ZERO] * d + [ONE])
    W.obs = []
    for n in range(N):
        if W.delta_n[n].is_zero():
            W.obs.append(({W.end[n]: Hm}, None))
        else:
            c = arr([[ONE / W.delta_n[n]]])
            W.obs.append(({W.end[n]: ez * c, W.start[n]: -ez * c}, None))
    W.latent = {b: ({b: Hm}, None) for b in range(B)}
    t = [(W.T[W.start[n]] + W.T[W.end[n]]) * HALF for n in range(N)]
    W.coords = (arr(t), arr(W.delta_n))
    if share:
        W.y = share.y
        return W
    W.y = [C.var(f"y{k}", False, -2.0, 2.0) for k in range(N)]
    finish(C, W)
    if W.free and (W.zero or any(k == "p" for k, _ in ev)) and not C.st.fixed:
        for x in W.Rn:
            C.assume(x, "gt")
    if not W.free and not C.st.fixed:
        order = [n for _, k, n in W.states if k == "e"]
        for k in range(len(order)):
            C.assume(det_sym(W.obs_cov(order[:k + 1])), "gt")
    return W


class SumInt(IntWorld):
    """independent components observed together"""

    def __init__(self, C, parts, inst=()):
        W = parts[0]
        self.parts, self.C = parts, C
        for a in ("B", "T", "delta", "zero", "y", "Rn", "N", "insts", "start", "end", "tests", "states", "delta_n", "coords", "m"):
            setattr(self, a, getattr(W, a))
        self.free = False
        self.off = [sum(p.d for p in parts[:i]) for i in range(len(parts) + 1)]
        self.comp_obs = [[self.lift(i, p.latent[p.end[n]] if i in inst else f) for n, f in enumerate(p.obs)] for i, p in enumerate(parts)]
        self.comp_latent = [{b: self.lift(i, f) for b, f in p.latent.items()} for i, p in enumerate(parts)]
        self.obs = [self.total([c[n] for c in self.comp_obs]) for n in range(self.N)]
        self.latent = {b: self.total([c[b] for c in self.comp_latent]) for b in range(self.B)}
        C.worlds = parts

    def lift(self, i, f):
        out = {}
        for b, M in f[0].items():
            Z = zeros(len(M), self.off[-1])
            Z[:, self.off[i]:self.off[i + 1]] = M
            out[b] = Z
        return (out, f[1])

    def total(self, fs):
        out = {}
        for f in fs:
            for b, M in f[0].items():
                out[b] = ma(out[b], M) if b in out else M
        return (out, None)

    def cxx(self, a, b):
        M = zeros(self.off[-1], self.off[-1])
        for i, p in enumerate(self.parts):
            M[self.off[i]:self.off[i + 1], self.off[i]:self.off[i + 1]] = p.cxx(a, b)
        return M


def state_target(W, i, post=False):
    """functional giving the full augmented state (x, z_1..z_m) at state i; post: after its reset"""
    b, k, n = W.states[i]
    d, m = W.base, W.m
    rows = {}
    ex = zeros(d + m, d + m)

    def put(bp, r, c, v):
        rows.setdefault(bp, zeros(d + m, d + 1))
        rows[bp][r, c] = rows[bp][r, c] + v
    for r in range(d):
        put(b, r, r, ONE)
    for q in range(m):
        prev = [x for j, (x, kk, nn) in enumerate(W.states) if (j < i or (post and j == i)) and kk == "s" and W.insts[nn] == q]
        if prev:
            put(b, d + q, d, ONE)
            put(prev[-1], d + q, d, -ONE)
        else:
            put(b, d + q, d, ONE)
            put(W.first, d + q, d, -ONE)
            ex[d + q, d + q] = ONE
    return (rows, ex)


def before(W, i, inclusive):
    """data whose exposure end is at or before state i"""
    return [n for j, (_, k, n) in enumerate(W.states) if k == "e" and (j < i or (inclusive and j == i))]


def check_loglike_int(C, W, name, R, pick):
    if W.free or C.st.fixed:
        return check_loglike(C, W, name, R, pick)
    want = lambda env: [loglike(W, env)]
    ex = loglike_sym_int(W)
    C.ident(name, R, pick, lambda: [("", to_frac(flat(pick(R.out))[0]), ex)], want)


def loglike_sym_int(W):
    S = obs_cov(W)
    n = len(W.y)
    D, Si, q = det_sym(S), inv_sym(S), ZERO
    for i in range(n):
        for j in range(n):
            q = q + W.y[i] * Si[i, j] * W.y[j]
    return -HALF * (q + alg.log(D) + F(n) * alg.log(F(2) * alg.PI()))
