"""Obligations, solver verdicts, replay, evidence."""
from __future__ import annotations
import json
import itertools
import math
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import alg, node as nd, smt, interp, path
from .alg import Inconclusive, TooBig, Undef
from .path import Dead, PathLimit


class CaseTimeout(Exception):
    pass


class RealCodeError(Exception):
    """the code under test raised while being executed on admissible inputs"""


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info.get("what", ""))
        self.info = info


class Run:
    """one symbolic execution of real code (evaluated when first looked at)"""

    def __init__(self, label, fun, args, c):
        self.label, self.fun, self.args, self._c = label, fun, args, c
        self._out = None

    @property
    def out(self):
        if self._out is None:
            t = self._c(self)
            self._out = (interp.run_traced(t[0], t[1], self.args),)
        return self._out[0]


def flat(x):
    """pytree leaf -> list of Node/Frac"""
    if isinstance(x, interp.SA):
        return list(x.a.reshape(-1))
    if isinstance(x, (alg.Frac, nd.Node)):
        return [x]
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flat(y)
        return r
    a = np.asarray(x)
    if a.dtype == object:
        return [v for v in a.reshape(-1)]
    return [nd.const(v.item()) for v in a.reshape(-1)]


def flatf(x):
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flatf(y)
        return r
    return [float(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def to_frac(v):
    if isinstance(v, alg.Frac):
        return v
    if isinstance(v, nd.Node):
        return nd.force(v)
    return alg.F(v) if isinstance(v, (int, Fraction)) else alg.from_float(float(v))


def shape_of(x):
    if isinstance(x, interp.SA):
        return tuple(x.a.shape)
    return tuple(np.shape(x))


class C:
    """context handed to a case function; one per case"""

    def __init__(self, case, seed):
        self.case = case
        self.seed = seed
        self.st = None
        self.res = {
            "name": case.name, "paths": 0, "dead": 0, "reached": 0, "obligations": 0, "discharged": 0,
            "by_normal_form": 0, "by_solver": 0, "undecided": [], "probes": 0, "validated": 0, "controls": 0,
            "controls_ok": 0, "violations": [], "samples": [], "truncated": False, "functions": [], "divisors": 0,
            "div_undecided": 0,
        }
        self.tcache = {}
        self.first = True
        self.n_ctrl = 0
        self.n_val = 0

    # ---- symbols
    def var(self, *a, **k):
        return self.st.var(*a, **k)

    def assume(self, x, kind):
        self.st.assume(x, kind)

    # ---- executing the real code
    def run(self, label, fun, *args):
        """trace `fun` (which calls the real code) to compiler IR and execute it
        symbolically.  args: Frac / arrays of Frac / numpy"""
        vals, protos = [], []
        for a in args:
            if isinstance(a, alg.Frac) or isinstance(a, nd.Node):
                z = np.empty((), dtype=object)
                z[()] = a
                a = z
            if isinstance(a, interp.SA):
                vals.append(a)
                protos.append(np.zeros(a.shape))
            elif isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.dtype == object):
                v = interp.sa(a)
                vals.append(v)
                protos.append(np.zeros(v.shape))
            else:
                vals.append(interp.from_const(a))
                protos.append(np.asarray(a))
        key = (label, tuple(p.shape for p in protos))

        def tr(R):
            c = self.tcache.get(key)
            if c is None:
                interp.CONCRETE[0] = False
                try:
                    with quiet():
                        c = interp.trace(fun, *protos)
                except (alg.Inconclusive, CaseTimeout):
                    raise
                except Exception as e:
                    self._crash(R, e)
                self.tcache[key] = c
            return c
        R = Run(label, fun, vals, tr)
        if not self.st.fixed:
            tr(R)
        return R

    def numeric_args(self, R, env):
        out = []
        for v in R.args:
            if isinstance(v, interp.SA):
                a = np.empty(v.a.shape)
                for i in np.ndindex(*v.a.shape):
                    a[i] = numval(nd.force(v.a[i]), env)
                out.append(a)
            else:
                out.append(v)
        return out

    def concrete(self, R, env):
        import jax.numpy as jnp
        memo = self.st.__dict__.setdefault("conc_memo", [])
        for r, e, out in memo:
            if r is R and e is env:
                self.cenv = env
                return out
        out = self._concrete(R, env)
        memo.append((R, env, out))
        del memo[:-4]
        return out

    def _concrete(self, R, env):
        import jax.numpy as jnp
        interp.CONCRETE[0] = True
        self.cenv = env
        if self.case.on_concrete is not None:
            self.case.on_concrete(self, env)
        try:
            with quiet():
                fun = R.fun
                if self.case.jit:        # (several points: compile once)
                    if not hasattr(R, "jitted"):
                        import jax
                        R.jitted = jax.jit(R.fun)
                    fun = R.jitted
                return fun(*[jnp.asarray(a) for a in self.numeric_args(R, env)])
        finally:
            interp.CONCRETE[0] = False

    def cenv_val(self, v):
        """value of a symbolic input in the concrete run under way"""
        return numval(to_frac(v), self.cenv)

    def env_dict(self, env):
        return {n: float(env[s.idx]) for n, s in self.st.vars.items() if s.idx in env}

    def _crash(self, R, e):
        """the real code raised while tracing: confirm on concrete inputs"""
        for pt in self.st.points()[:6]:
            try:
                self.concrete(R, pt[0])
            except CaseTimeout:
                raise
            except Exception as e2:
                raise Violation({"what": f"{R.label}: the code raises {type(e2).__name__}: {str(e2)[:300]}",
                                 "case": self.case.name, "inputs": self.env_dict(pt[0]),
                                 "trace": traceback.format_exc()[-1500:]})
        raise alg.Inconclusive(f"tracing failed but concrete runs succeed: {type(e).__name__}: {str(e)[:300]}")

    # ---- obligations
    def shape(self, name, R, pick, shape):
        """the shape of an output is part of the interface"""
        if self.st.fixed:
            got = tuple(np.shape(pick(self.concrete(R, {}))))
            if got != tuple(shape):
                raise Violation({"what": f"{name}: shape {got}, expected {tuple(shape)}", "case": self.case.name,
                                 "inputs": self.fixed_inputs()})
            return
        self.res["obligations"] += 1
        got = shape_of(pick(R.out))
        if tuple(got) == tuple(shape):
            self.res["discharged"] += 1
            return
        for pt in self.st.points()[:3]:
            g2 = tuple(np.shape(pick(self.concrete(R, pt[0]))))
            if g2 != tuple(shape):
                raise Violation({"what": f"{name}: shape {g2}, expected {tuple(shape)}", "case": self.case.name,
                                 "inputs": self.env_dict(pt[0])})
        self.res["undecided"].append(name)

    def eq(self, name, R, pick, oracle, tol=None, rtol=1e-6, atol=1e-9):
        """the selected output equals `oracle` (array of Frac) for every value on
        this path"""
        if self.st.fixed:
            return self._eq_fixed(name, R, pick, oracle, rtol, atol)
        real = flat(pick(R.out))
        orc = [to_frac(o) for o in flat(oracle)]
        if len(real) != len(orc):
            self.shape(name, R, pick, shape_of(oracle))
            raise Inconclusive(f"{name}: size mismatch {len(real)} vs {len(orc)}")
        for i, (a, b) in enumerate(zip(real, orc)):
            self._eq1(f"{name}[{i}]" if len(real) > 1 else name, R, pick, i, a, b, orc, tol, rtol, atol)

    def fixed_inputs(self):
        return {k: float(v) for k, v in self.st.fixvals.items()}

    def _eq_fixed(self, name, R, pick, oracle, rtol, atol):
        """concretised fallback: run the real code on rational constants"""
        try:
            want = [numval(to_frac(o), {}) for o in flat(oracle)]
        except (Undef, Inconclusive, TooBig, ZeroDivisionError, OverflowError):
            return
        try:
            got = flatf(pick(self.concrete(R, {})))
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation({"what": f"{name}: the code raises {type(e).__name__}: {str(e)[:200]}",
                             "case": self.case.name, "inputs": self.fixed_inputs()})
        self.res["probes"] += 1
        if len(got) != len(want):
            raise Violation({"what": f"{name}: {len(got)} values, expected {len(want)}", "case": self.case.name,
                             "inputs": self.fixed_inputs()})
        sc = max([abs(x) for x in want] + [0.0])
        for i, (g, w) in enumerate(zip(got, want)):
            if not math.isfinite(g) or abs(g - w) > rtol * max(abs(w), self.case.scale_mix * sc) + atol:
                raise Violation({"what": f"{name}[{i}]: the code returns {g!r}, the specification gives {w!r}",
                                 "case": self.case.name, "inputs": self.fixed_inputs()})

    def _eq1(self, name, R, pick, i, a, b, orc, tol, rtol, atol):
        st = self.st
        self.res["obligations"] += 1
        try:
            fa = to_frac(a)
        except Undef as e:
            self._probe(name, R, pick, i, orc, rtol, atol, f"undefined: {e}", must=True)
            return
        except (Inconclusive, TooBig) as e:
            self._probe(name, R, pick, i, orc, rtol, atol, f"{type(e).__name__}: {e}")
            return
        self._div_check(name, R, pick, i, orc, rtol, atol)
        try:
            d = fa - b
        except (TooBig, Inconclusive) as e:
            self._probe(name, R, pick, i, orc, rtol, atol, f"{type(e).__name__}: {e}")
            return
        ms = self.case.query_ms
        if d.is_zero():
            verdict = self._q_eq(fa, b, ms)
            if verdict == "unsat":
                self.res["discharged"] += 1
                self.res["by_normal_form"] += 1
                self._control(fa, b, name)
                self._sample(name, fa, b)
                return
            self.res["undecided"].append(f"{name}: solver {verdict} on a normal-form identity")
            return
        if tol is not None:
            v = self._q_tol(d, tol, ms)
        else:
            # look for a concrete point first: a nonzero value there is already a model
            v = None
            if self._witness_nonzero(d):
                v = "sat"
            if v is None:
                v = self._q_eq(fa, b, ms)
        if v == "unsat":
            self.res["discharged"] += 1
            self.res["by_solver"] += 1
            self._sample(name, fa, b)
            return
        self._probe(name, R, pick, i, orc, rtol, atol, f"solver verdict {v}: difference {alg.show(d, 4)[:300]}",
                    first=d)

    def _q_eq(self, a, b, ms):
        st = self.st
        try:
            l, r = st.enc.eq_terms(a, b)
        except Inconclusive:
            # complex-looking: compare via the difference
            t = st.enc.ratio_sign(a - b) if (a - b).num else None
            if t is None:
                import z3
                l = r = z3.RealVal(0)
            else:
                return smt.check(st.all() + [t != 0], ms=ms)
        if len(a.num) > 3000 and a.key() == b.key():
            return smt.check([l != r], ms=ms)
        return smt.check(st.all() + [l != r], ms=ms)

    def _q_tol(self, d, tol, ms):
        """|d| <= tol under the path constraints?"""
        import z3
        st = self.st
        tf = tol if isinstance(tol, alg.Frac) else alg.F(Fraction(tol))
        if not tf.is_const() and alg.quick_sign(tf) == 1:
            d, tf = d / tf, alg.ONE
        for x, c, b in st.absfacts:
            if b:       # the path says |x| < c: enough when d is a multiple of x
                r = self._multiple(d, x)
                if r is not None:
                    v = z3.Real("absval")
                    if smt.check([v < smt.qv(c), v > -smt.qv(c),
                                  z3.Or(smt.qv(r) * v > smt.qv(tf.const_val()), smt.qv(r) * v < -smt.qv(tf.const_val()))]
                                 if tf.is_const() else [z3.BoolVal(True)], ms=ms) == "unsat":
                        return "unsat"
        up, lo = d - tf, d + tf
        tu, tl = st.enc.ratio_sign(up), st.enc.ratio_sign(lo)
        res = smt.check(smt.lin_abstract(st.all() + [z3.Or(tu > 0, tl < 0)]), ms=ms, nl=False)
        if res == "unsat":
            return res
        return smt.check(st.all() + [z3.Or(tu > 0, tl < 0)], ms=ms)

    def _multiple(self, d, x):
        """rational r with d = r x (by normal form), or None"""
        import mpmath
        env = {s.idx: Fraction(7 + 3 * i, 11 + 2 * i) for i, s in enumerate(self.st.vars.values())}
        try:
            with mpmath.workdps(40):
                a, b = alg.evalf(d, env), alg.evalf(x, env)
                q = mpmath.re(a / b)
                r = Fraction(int(mpmath.nint(q * 10 ** 30)), 10 ** 30).limit_denominator(10 ** 9)
                if abs(q - mpmath.mpf(r.numerator) / r.denominator) > 1e-20 * abs(q):
                    return None
        except (ZeroDivisionError, Undef, ValueError, OverflowError):
            return None
        return r if (d - alg.F(r) * x).is_zero() else None

    def _witness_nonzero(self, d):
        for pt in self.st.points()[:8]:
            s = alg.rsign(d, *pt)
            if s not in (0, None):
                return True
        return False

    def ident(self, name, R, pick, items, want, rtol=1e-5, atol=1e-8):
        """`items()` gives (label, lhs, rhs) identities that together say the
        selected outputs are the specified ones; `want(env)` is the same
        specification evaluated numerically, for replay"""
        st = self.st
        if st.fixed:
            self._cmp(name, R, pick, want, {}, rtol, atol, self.fixed_inputs())
            return
        try:
            its = items()
        except (Undef, Inconclusive, TooBig) as e:
            self.res["obligations"] += 1
            self._probe_ident(name, R, pick, want, rtol, atol, f"{type(e).__name__}: {e}")
            return
        self._div_check_ident(name, R, pick, want)
        bad = None
        for lab, a, b in its:
            self.res["obligations"] += 1
            try:
                d = a - b
            except (TooBig, Inconclusive) as e:
                bad = bad or (lab, f"{type(e).__name__}: {e}", None)
                continue
            if d.is_zero():
                v = self._q_eq(a, b, self.case.query_ms)
                if v == "unsat":
                    self.res["discharged"] += 1
                    self.res["by_normal_form"] += 1
                    self._control(a, b, name)
                    self._sample(f"{name} {lab}", a, b)
                else:
                    self.res["undecided"].append(f"{name} {lab}: solver {v} on a normal-form identity")
                continue
            v = "sat" if self._witness_nonzero(d) else self._q_eq(a, b, self.case.query_ms)
            if v == "unsat":
                self.res["discharged"] += 1
                self.res["by_solver"] += 1
                continue
            bad = bad or (lab, f"solver verdict {v}: {alg.show(d, 4)[:200]}", d)
        if bad:
            self._probe_ident(f"{name} {bad[0]}", R, pick, want, rtol, atol, bad[1], bad[2])

    def _cmp(self, name, R, pick, want, env, rtol, atol, inputs, why=""):
        try:
            w = [float(v) for v in np.asarray(want(env)).reshape(-1)]
        except (Undef, Inconclusive, TooBig, ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
            return False
        try:
            got = flatf(pick(self.concrete(R, env)))
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation({"what": f"{name}: the code raises {type(e).__name__}: {str(e)[:200]}",
                             "case": self.case.name, "inputs": inputs})
        self.res["probes"] += 1
        if len(got) != len(w):
            raise Violation({"what": f"{name}: {len(got)} values, expected {len(w)}", "case": self.case.name,
                             "inputs": inputs})
        sc = max([abs(x) for x in w] + [0.0])
        for i, (g, x) in enumerate(zip(got, w)):
            if not math.isfinite(g) or abs(g - x) > rtol * max(abs(x), sc * 0.1) + atol:
                raise Violation({"what": f"{name}[{i}]: the code returns {g!r}, the specification gives {x!r}",
                                 "case": self.case.name, "inputs": inputs, "why": why, "path": self.st.desc[-8:]})
        return True

    def _probe_ident(self, name, R, pick, want, rtol, atol, why, first=None):
        pts = self.st.points()
        if not pts:
            _, m = smt.check(self.st.all(), ms=5000, model=True)
            if m is not None:
                self.st.add_model(m)
            pts = self.st.points()
        if first is not None:
            pts = sorted(pts, key=lambda pt: -_mag(first, pt))
        n = 0
        for pt in list(pts[:6]):
            n += bool(self._cmp(name, R, pick, want, pt[0], rtol, atol, self.env_dict(pt[0]), why))
        for pt in self._more(first):
            n += bool(self._cmp(name, R, pick, want, pt[0], rtol, atol, self.env_dict(pt[0]), why))
        self.res["undecided"].append(f"{name}: {why[:200]} (agrees at {n} concrete points)")

    def _div_check_ident(self, name, R, pick, want):
        """divisors executed by the real code are non-zero"""
        st = self.st
        ds = nd.DIVISORS[:]
        nd.DIVISORS.clear()
        for d in ds:
            k = ("div", d.key())
            if k in st.memo:
                continue
            st.memo[k] = True
            self.res["divisors"] += 1
            kn = st.known.get(d.key())
            if kn is not None and 0 not in kn:
                continue
            if len(d.num) > 60:
                self.res["div_undecided"] += 1
                continue
            try:
                v = smt.check(st.cons_with(st.relz(d, "eq")), ms=min(2000, self.case.query_ms))
            except Inconclusive:
                v = "unknown"
            if v != "unsat":
                self.res["div_undecided"] += 1

    def rel(self, name, R, x, kind, pick=None, tol=1e-9, oracle=None, expect=None):
        """solver obligation:  x kind 0 for every value on the path (x: Frac
        computed from the run's outputs).  `pick` computes the same quantity from
        concrete outputs for replay."""
        import z3
        st = self.st
        if st.fixed:
            if alg.rsign(x, {}) not in path.ALLOWED[kind] and pick is not None:
                val = float(pick(self.concrete(R, {})))
                if not math.isfinite(val) or {"gt": val <= -tol, "ge": val < -tol, "lt": val >= tol, "le": val > tol,
                                              "eq": abs(val) > tol, "ne": val == 0}[kind]:
                    raise Violation({"what": f"{name}: got {val}, must be {kind} 0", "case": self.case.name,
                                     "inputs": self.fixed_inputs()})
            return
        self.res["obligations"] += 1
        q = alg.quick_sign(x)
        al = path.ALLOWED[kind]
        if q is not None and q in al:
            v = smt.check(st.cons_with(z3.Not(smt.rel(st.enc.ratio_sign(x), kind))), ms=self.case.query_ms)
            if v == "unsat":
                self.res["discharged"] += 1
                self.res["by_solver"] += 1
                self._sample(name, x, alg.ZERO, kind)
                return
        neg = path.OPP[kind]
        v, m = smt.check(st.cons_with(st.relz(x, neg)), ms=self.case.query_ms, model=True)
        if v == "unsat":
            self.res["discharged"] += 1
            self.res["by_solver"] += 1
            self._sample(name, x, alg.ZERO, kind)
            return
        if m is not None:
            st.add_model(m)
        for pt in list(reversed(st.points())):
            s = alg.rsign(x, *pt)
            if s is not None and s not in al:
                if pick is None or R is None:
                    raise Violation({"what": f"{name}: not ({kind} 0)", "case": self.case.name,
                                     "inputs": self.env_dict(pt[0])})
                val = float(pick(self.concrete(R, pt[0])))
                bad = not math.isfinite(val) or {"gt": val <= -tol, "ge": val < -tol, "lt": val >= tol, "le": val > tol,
                                                 "eq": abs(val) > tol, "ne": val == 0}[kind]
                self.res["probes"] += 1
                if bad:
                    raise Violation({"what": f"{name}: got {val}, must be {kind} 0", "case": self.case.name,
                                     "inputs": self.env_dict(pt[0])})
        self.res["undecided"].append(f"{name}: solver {v}")

    def fact(self, name, ok, what, inputs=None):
        """structural obligation decided on this path (solver decided the path)"""
        self.res["obligations"] += 1
        if ok:
            self.res["discharged"] += 1
            return
        raise Violation({"what": f"{name}: {what}", "case": self.case.name, "inputs": inputs or {}})

    # ---- helpers
    def _div_check(self, name, R, pick, i, orc, rtol, atol):
        """every division executed by the real code on this path has a non-zero
        divisor"""
        st = self.st
        ds = nd.DIVISORS[:]
        nd.DIVISORS.clear()
        for d in ds:
            k = ("div", d.key())
            if k in st.memo:
                continue
            st.memo[k] = True
            kn = st.known.get(d.key())
            self.res["divisors"] += 1
            if kn is not None and 0 not in kn:
                continue
            try:
                v, m = smt.check(st.cons_with(st.relz(d, "eq")), ms=min(3000, self.case.query_ms), model=True)
            except Inconclusive:
                self.res["div_undecided"] += 1
                continue
            if v == "unsat":
                continue
            if m is not None and st.add_model(m):
                pt = st.points()[-1]
                got = flatf(pick(self.concrete(R, pt[0])))[i]
                self.res["probes"] += 1
                if not math.isfinite(got):
                    raise Violation({"what": f"{name}: division by zero, the code returns {got}",
                                     "case": self.case.name, "inputs": self.env_dict(pt[0])})
                st.points().pop()
            self.res["div_undecided"] += 1

    def _more(self, d):
        """more points of this path, sought at most a few times per path"""
        k = self.st.memo.get(("enrich",), 0)
        if d is None or k >= 4:
            return
        self.st.memo[("enrich",)] = k + 1
        try:
            new = self.st.enrich(d)
        except (Undef, Inconclusive, TooBig):
            return
        yield from sorted(new, key=lambda pt: -_mag(d, pt))

    def _probe(self, name, R, pick, i, orc, rtol, atol, why, must=False, first=None):
        """replay on the real code at concrete points of this path"""
        st = self.st
        self.res["probes"] += 1
        pts = st.points()
        if not pts:
            r, m = smt.check(st.all(), ms=5000, model=True)
            if m is not None:
                st.add_model(m)
            pts = st.points()
        if first is not None:
            pts = sorted(pts, key=lambda pt: -_mag(first, pt))
        n = 0
        for pt in itertools.chain(list(pts[:6]), self._more(first)):
            try:
                out = self.concrete(R, pt[0])
                got = flatf(pick(out))
            except CaseTimeout:
                raise
            except Exception as e:
                raise Violation({"what": f"{name}: the code raises {type(e).__name__}: {str(e)[:200]}",
                                 "case": self.case.name, "inputs": self.env_dict(pt[0])})
            try:
                want = [numval(o, pt[0]) for o in orc]
            except (Undef, ZeroDivisionError, OverflowError):
                continue
            n += 1
            g, w = got[i], want[i]
            sc = max([abs(x) for x in want if math.isfinite(x)] + [0.0])
            if not math.isfinite(g) or abs(g - w) > rtol * max(abs(w), self.case.scale_mix * sc) + atol:
                raise Violation({"what": f"{name}: the code returns {g!r}, the specification gives {w!r}",
                                 "case": self.case.name, "inputs": self.env_dict(pt[0]), "why": why,
                                 "path": self.st.desc[-8:]})
        self.res["undecided"].append(f"{name}: {why[:200]} (agrees at {n} concrete points)")

    def _control(self, a, b, name):
        """negative control: a perturbed specification must be refuted"""
        if self.n_ctrl >= self.case.controls:
            return
        self.n_ctrl += 1
        self.res["controls"] += 1
        b2 = b * alg.F(Fraction(1001, 1000)) + alg.F(Fraction(1, 1000))
        d = a - b2
        if d.is_zero():
            return
        if self._witness_nonzero(d) or self._q_eq(a, b2, 4000) == "sat":
            self.res["controls_ok"] += 1

    def validate(self, R, pick, name="", rtol=1e-6, atol=1e-8):
        """translation validation: the symbolic output evaluated at a concrete
        point of the path agrees with the real code run there"""
        if self.n_val >= self.case.validations or self.st.fixed:
            return
        vals = flat(pick(R.out))
        bad = None
        for pt in self.st.points()[:6]:
            got = flatf(pick(self.concrete(R, pt[0])))
            err = None
            for g, v in zip(got, vals):
                try:
                    w = numval(to_frac(v), pt[0])
                except (Undef, Inconclusive, TooBig):
                    continue
                if not (abs(g - w) <= rtol * max(1e-3, abs(w)) + atol):
                    err = f"encoding validation {name}: real {g} vs symbolic {w} at {self.env_dict(pt[0])}"
                    break
            if err is None:
                self.n_val += 1
                self.res["validated"] += 1
                return
            bad = err       # (far-out points lose everything to rounding: try another one)
        if bad:
            self.res["undecided"].append(bad)

    def finite(self, name, R, pick):
        """the real code returns finite numbers wherever the exact value is defined
        (a 0 * inf that the exact arithmetic simplifies away)"""
        if self.st.fixed:
            return
        for pt in self.st.points()[:8]:
            if any(v and not 1e-2 < abs(v) < 1e2 for v in self.env_dict(pt[0]).values()):
                continue
            out = self.concrete(R, pt[0])
            got = flatf(pick(out))
            vals = flat(pick(R.out))
            for g, v in zip(got, vals):
                if not math.isfinite(g):
                    try:
                        w = numval(to_frac(v), pt[0])
                    except (Undef, Inconclusive, TooBig, ZeroDivisionError, OverflowError):
                        continue
                    if math.isfinite(w):
                        raise Violation({"what": f"{name}: the code returns {g!r}, the exact value is {w!r}",
                                         "case": self.case.name, "inputs": self.env_dict(pt[0]), "path": self.st.desc[-8:]})
            self.res["validated"] += 1
            return

    def _sample(self, name, a, b, kind="=="):
        if len(self.res["samples"]) < 2:
            self.res["samples"].append({"obligation": f"{self.case.name}/{name}", "value": alg.show(a, 4)[:220],
                                        "relation": kind, "path": [d[:120] for d in self.st.desc[-4:]]})

    # ---- driver
    def go(self, deadline):
        case = self.case
        ex = path.Explorer(max_paths=case.max_paths, deadline=deadline, seed=self.seed,
                           feas_ms=case.feas_ms, pool_tries=case.pool_tries)
        t0 = time.time()

        def one(st):
            self.st = st
            n0 = self.res["obligations"]
            try:
                case.fn(self)
            except PathLimit as e:
                self.res["undecided"].append(f"path limit: {e}")
            except Undef as e:
                if smt.check(st.all(), ms=4000) == "unsat":
                    raise Dead()
                self.res["undecided"].append(f"undefined value while executing: {e} [{'; '.join(st.desc[-3:])[:200]}]")
            except (Inconclusive, TooBig) as e:
                if smt.check(st.all(), ms=4000) == "unsat":
                    raise Dead()
                self.res["undecided"].append(f"{type(e).__name__}: {str(e)[:300]}")
            # reachability of the path
            if st.points():
                self.res["reached"] += 1
            elif case.reach_ms and smt.check(st.all(), ms=case.reach_ms, nl=False) == "sat":
                self.res["reached"] += 1
        try:
            ex.explore(one)
        except Violation as v:
            self.res["violations"].append(v.info)
        self.res["paths"] = ex.stats["paths"]
        self.res["dead"] = ex.stats["dead"]
        self.res["feas"] = ex.stats["feas"]
        self.res["truncated"] = ex.truncated
        self.res["wall"] = time.time() - t0
        return self.res


    def fallback(self, n=6):
        """something was undecided: run the case with the symbols replaced by
        rational constants, against the same specification"""
        ok = 0
        for k in range(4 * n):
            alg.reset()
            st = path.State(path.Explorer(seed=self.seed * 1000 + k), [])
            st.fixed = True
            st.activate()
            self.st = st
            try:
                self.case.fn(self)
                ok += 1
            except Dead:
                continue
            except (Undef, Inconclusive, TooBig, PathLimit):
                continue
            except Violation as v:
                self.res["violations"].append(v.info)
                break
            if ok >= n:
                break
        self.res["fallback_runs"] = ok


def _mag(d, pt):
    try:
        v = abs(alg.fsign(d, pt[0], {})[0])
        return v if math.isfinite(v) else 0.0
    except Exception:
        return 0.0


def numval(x, env):
    import mpmath
    with mpmath.workdps(60):
        v = alg.evalf(x, env)
        return float(mpmath.re(v))


class quiet:
    """the code under test prints; keep stdout for verdict lines"""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


class Case:
    def __init__(self, name, fn, tier="quick", max_paths=400, query_ms=10000, feas_ms=1500, reach_ms=2000, limit=240, controls=2,
                 validations=2, pool_tries=300, scale_mix=1e-3, on_concrete=None, weight=1, functions=(), jit=False):
        self.jit = jit
        self.name, self.fn, self.tier = name, fn, tier
        self.max_paths, self.query_ms, self.feas_ms, self.limit = max_paths, query_ms, feas_ms, limit
        self.controls, self.validations, self.pool_tries = controls, validations, pool_tries
        self.reach_ms = reach_ms
        self.scale_mix, self.on_concrete, self.weight = scale_mix, on_concrete, weight
        self.functions = list(functions)


def run_case(case, seed):
    """executed in a worker process"""
    smt.STATS.update({"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max_time": 0.0})
    interp.STATS.update({"eqns": 0, "prims": {}, "traced": 0})
    c = C(case, seed)

    def alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(case.limit))
    status = "ok"
    try:
        if hasattr(case, "explore"):
            case.explore(c, time.time() + case.limit * 0.9)
        else:
            c.go(time.time() + case.limit * 0.9)
    except CaseTimeout:
        c.res["undecided"].append("case time limit")
        c.res["truncated"] = True
    except Exception as e:
        c.res["undecided"].append(f"engine error {type(e).__name__}: {str(e)[:400]}")
        c.res["error"] = traceback.format_exc()[-3000:]
        status = "error"
    finally:
        signal.alarm(0)
    if (c.res["undecided"] or c.res["truncated"]) and not c.res["violations"]:
        signal.alarm(60)
        try:
            case.probe(c) if hasattr(case, "probe") else c.fallback()
        except CaseTimeout:
            pass
        except Exception as e:
            c.res["undecided"].append(f"fallback error {type(e).__name__}: {str(e)[:300]}")
            c.res.setdefault("error", traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)
    c.res["status"] = "violation" if c.res["violations"] else status
    c.res["smt"] = dict(smt.STATS)
    c.res["eqns"] = interp.STATS["eqns"]
    c.res["prims"] = len(interp.STATS["prims"])
    c.res["functions"] = case.functions
    return c.res
