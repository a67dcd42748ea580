"""Symbolic execution of jaxprs (the compiler IR of the real code).

floating-point / complex arrays  -> SA (object array of lazy Nodes)
boolean arrays                   -> numpy bool, or object array of bool|LazyBool
integer arrays                   -> concrete numpy arrays
"""
from __future__ import annotations
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jex_core
from jax.extend.core import Primitive, ClosedJaxpr, Jaxpr, Literal
from jax._src import core as _core
from jax.interpreters import batching

from . import alg, node as nd
from .node import Node, LazyBool


class SA:
    """symbolic float/complex array"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    def __getitem__(self, k):
        r = self.a[k]
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            r = o
        return SA(r)

    def __len__(self):
        return self.a.shape[0]

    @property
    def T(self):
        return SA(self.a.T)

    def reshape(self, *s):
        return SA(self.a.reshape(*s))


STATS = {"eqns": 0, "prims": {}, "traced": 0}


def objarr(shape):
    return np.empty(shape, dtype=object)


def lift(x):
    """concrete numeric array -> SA"""
    if isinstance(x, SA):
        return x
    x = np.asarray(x)
    out = objarr(x.shape)
    of, xf = out.reshape(-1), x.reshape(-1)
    for i in range(xf.size):
        of[i] = nd.const(xf[i].item())
    return SA(of.reshape(x.shape))


def from_const(x):
    if isinstance(x, SA):
        return x
    x = np.asarray(x)
    if np.issubdtype(x.dtype, np.floating) or np.issubdtype(x.dtype, np.complexfloating):
        return lift(x)
    return x


def raw(x):
    return x.a if isinstance(x, SA) else np.asarray(x)


def rewrap(a, like):
    return SA(a) if isinstance(like, SA) else a


def is_float(aval):
    return np.issubdtype(aval.dtype, np.floating) or np.issubdtype(aval.dtype, np.complexfloating)


def conc_bool(x):
    """force a boolean array to concrete numpy bool"""
    x = np.asarray(x)
    if x.dtype == object:
        out = np.empty(x.shape, dtype=bool)
        of, xf = out.reshape(-1), x.reshape(-1)
        for i in range(xf.size):
            of[i] = nd.fb(xf[i])
        return of.reshape(x.shape)
    return x


def pack_bool(a):
    """object array of bool/LazyBool -> numpy bool array when fully concrete"""
    f = a.reshape(-1)
    if all(not isinstance(v, LazyBool) for v in f):
        return a.astype(bool)
    return a


# --------------------------------------------------------------------------
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def eval_closed(cj, args):
    return eval_jaxpr(cj.jaxpr, cj.consts, args)


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, Literal):
            return from_const(np.asarray(v.val, dtype=v.aval.dtype) if hasattr(v.aval, "dtype") else v.val)
        return env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = from_const(c)
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def eval_eqn(eqn, ins):
    p = eqn.primitive.name
    STATS["eqns"] += 1
    STATS["prims"][p] = STATS["prims"].get(p, 0) + 1
    h = HANDLERS.get(p)
    if h is None:
        if all(not isinstance(x, SA) and np.asarray(x).dtype != object for x in ins) and \
           all(not is_float(v.aval) for v in eqn.outvars if hasattr(v.aval, "dtype")):
            return bind_concrete(eqn, ins)
        raise alg.Inconclusive(f"unsupported primitive {p}")
    r = h(eqn, *ins)
    if not isinstance(r, list):
        r = [r]
    return r


def bind_concrete(eqn, ins):
    subfuns, params = eqn.primitive.get_bind_params(eqn.params)
    out = eqn.primitive.bind(*subfuns, *[jnp.asarray(x) for x in ins], **params)
    if not eqn.primitive.multiple_results:
        out = [out]
    return [np.asarray(o) for o in out]


# ---- elementwise ----------------------------------------------------------

def ew(f, *xs):
    shape = np.broadcast_shapes(*[x.shape for x in xs])
    out = objarr(shape)
    xs = [np.broadcast_to(x, shape).reshape(-1) if x.shape != shape else x.reshape(-1) for x in xs]
    of = out.reshape(-1)
    for i in range(of.size):
        of[i] = f(*[x[i] for x in xs])
    return of.reshape(shape)


def _bin(fsym, fint):
    def h(eqn, a, b):
        if isinstance(a, SA) or isinstance(b, SA):
            return SA(ew(fsym, lift(a).a, lift(b).a))
        return _int_cast(fint(np.asarray(a), np.asarray(b)), eqn)
    return h


def _int_cast(r, eqn):
    return np.asarray(r).astype(eqn.outvars[0].aval.dtype)


def _trunc_div(a, b):
    q = np.abs(a) // np.maximum(np.abs(b), 1)
    return np.where((a < 0) != (b < 0), -q, q)


def _trunc_rem(a, b):
    return a - _trunc_div(a, b) * b


HANDLERS["add"] = _bin(nd.add, np.add)
HANDLERS["add_any"] = HANDLERS["add"]
HANDLERS["sub"] = _bin(nd.sub, np.subtract)
HANDLERS["mul"] = _bin(nd.mul, np.multiply)
HANDLERS["div"] = _bin(nd.div, _trunc_div)


def _minmax(op):
    def f(a, b):
        if a is b:
            return a
        if nd.exactc(a) and nd.exactc(b):
            return (a if a.c >= b.c else b) if op == "max" else (a if a.c <= b.c else b)
        return Node(op, (a, b))
    return f


def h_minmax(op):
    s, i = _minmax(op), (np.maximum if op == "max" else np.minimum)

    def h(eqn, a, b):
        if isinstance(a, SA) or isinstance(b, SA):
            return SA(ew(s, lift(a).a, lift(b).a))
        a, b = conc_or(a), conc_or(b)
        return _int_cast(i(a, b), eqn)
    return h


def conc_or(a):
    a = np.asarray(a)
    return conc_bool(a) if a.dtype == object else a


HANDLERS["max"] = h_minmax("max")
HANDLERS["min"] = h_minmax("min")


@handler("rem")
def _rem(eqn, a, b):
    if isinstance(a, SA) or isinstance(b, SA):
        A, B = lift(a).a, lift(b).a

        def f(x, y):
            if nd.exactc(x) and nd.exactc(y):
                q = Fraction(x.c) / Fraction(y.c)
                t = int(q) if q >= 0 else -int(-q)
                return nd.const(Fraction(x.c) - t * Fraction(y.c))
            raise alg.Inconclusive("rem on symbolic value")
        return SA(ew(f, A, B))
    return _int_cast(_trunc_rem(np.asarray(a), np.asarray(b)), eqn)


def _unary(name):
    def mk(x):
        if name in ("exp", "sin", "cos", "sinh", "cosh", "expm1", "log1p", "tan", "tanh") and nd.is0(x):
            return nd.ONE if name in ("exp", "cos", "cosh") else nd.ZERO
        if name == "log" and nd.is1(x):
            return nd.ZERO
        return Node(name, (x,))

    def h(eqn, a):
        return SA(ew(mk, lift(a).a))
    return h


for _n in ("exp", "sin", "cos", "sinh", "cosh", "expm1", "log", "log1p", "tan", "tanh", "sqrt", "rsqrt",
           "logistic", "lgamma"):
    HANDLERS[_n] = _unary(_n)


@handler("neg")
def _neg(eqn, a):
    if isinstance(a, SA):
        return SA(ew(nd.neg, a.a))
    return -np.asarray(a)


@handler("abs")
def _abs(eqn, a):
    if isinstance(a, SA):
        return SA(ew(lambda x: nd.const(abs(x.c)) if nd.exactc(x) else Node("abs", (x,)), a.a))
    return np.abs(a)


@handler("sign")
def _sign(eqn, a):
    if isinstance(a, SA):
        return SA(ew(lambda x: Node("sign", (x,)), a.a))
    return np.sign(a)


@handler("square")
def _square(eqn, a):
    if isinstance(a, SA):
        return SA(ew(lambda x: nd.ipow(x, 2), a.a))
    return np.asarray(a) ** 2


@handler("integer_pow")
def _ipow(eqn, a):
    y = eqn.params["y"]
    if isinstance(a, SA):
        if y == 0:
            return SA(ew(lambda x: nd.ONE, a.a))
        return SA(ew(lambda x: nd.ipow(x, y), a.a))
    return np.asarray(a) ** y


@handler("pow")
def _pow(eqn, a, b):
    if isinstance(a, SA) or isinstance(b, SA):
        def f(x, y):
            if nd.exactc(y) and Fraction(y.c).denominator == 1:
                n = int(y.c)
                return nd.ONE if n == 0 else nd.ipow(x, n)
            return Node("pow", (x, y))
        return SA(ew(f, lift(a).a, lift(b).a))
    return np.power(a, b)


@handler("floor", "ceil", "round")
def _floor(eqn, a):
    if isinstance(a, SA):
        def f(x):
            if nd.exactc(x):
                c = Fraction(x.c)
                n = eqn.primitive.name
                return nd.const(math.floor(c) if n == "floor" else math.ceil(c) if n == "ceil" else
                                (round(c)))
            raise alg.Inconclusive("floor/ceil/round of symbolic value")
        return SA(ew(f, a.a))
    return np.asarray(a)


@handler("real", "imag", "conj")
def _cplx(eqn, a):
    n = eqn.primitive.name
    return SA(ew(lambda x: x if (nd.exactc(x) and n != "imag") else Node(n, (x,)), lift(a).a))


@handler("complex")
def _mkc(eqn, a, b):
    I = nd.wrap(alg.imag())
    return SA(ew(lambda x, y: nd.add(x, nd.mul(y, I)), lift(a).a, lift(b).a))


def _cmp(kind, fint):
    def mk(x, y):
        if nd.exactc(x) and nd.exactc(y):
            return bool(fint(x.c, y.c))
        return nd.lb(kind, x, y)

    def h(eqn, a, b):
        if isinstance(a, SA) or isinstance(b, SA):
            return pack_bool(ew(mk, lift(a).a, lift(b).a))
        return fint(conc_or(a), conc_or(b))
    return h


for _n, _f in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal),
               ("eq", np.equal), ("ne", np.not_equal)):
    HANDLERS[_n] = _cmp(_n, _f)
HANDLERS["lt_to"] = HANDLERS["lt"]
HANDLERS["le_to"] = HANDLERS["le"]
HANDLERS["eq_to"] = HANDLERS["eq"]


def _logic(kind, fnp):
    def mk(x, y):
        lx, ly = isinstance(x, LazyBool), isinstance(y, LazyBool)
        if not lx and not ly:
            return bool(fnp(x, y))
        if not lx or not ly:
            c, l = (y, x) if lx else (x, y)
            if kind == "and":
                return l if c else False
            if kind == "or":
                return True if c else l
        return nd.lb(kind, x, y)

    def h(eqn, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return pack_bool(ew(mk, a.astype(object), b.astype(object)))
        return fnp(a, b)
    return h


HANDLERS["and"] = _logic("and", np.bitwise_and)
HANDLERS["or"] = _logic("or", np.bitwise_or)
HANDLERS["xor"] = _logic("xor", np.bitwise_xor)


@handler("not")
def _not(eqn, a):
    a = np.asarray(a)
    if a.dtype == object:
        return pack_bool(ew(lambda x: nd.lb("not", x) if isinstance(x, LazyBool) else not x, a))
    return np.invert(a)


@handler("is_finite")
def _isfin(eqn, a):
    return pack_bool(ew(lambda x: (not (x.op == "c" and x.val is None)) if x.op == "c" else nd.lb("finite", x), lift(a).a))


@handler("shift_left", "shift_right_logical", "shift_right_arithmetic", "population_count", "clz")
def _shift(eqn, *a):
    return bind_concrete(eqn, a)


@handler("convert_element_type")
def _convert(eqn, a):
    new = np.dtype(eqn.params["new_dtype"])
    fl = np.issubdtype(new, np.floating) or np.issubdtype(new, np.complexfloating)
    if isinstance(a, SA):
        if fl:
            return a
        if new == bool:
            return pack_bool(ew(lambda x: bool(x.c != 0) if nd.exactc(x) else nd.lb("ne", x, nd.ZERO), a.a))

        def toint(x):
            if nd.exactc(x):
                c = Fraction(x.c)
                return int(c) if c >= 0 else -int(-c)
            v = nd.force(x)
            if v.is_const():
                c = Fraction(v.const_val())
                return int(c) if c >= 0 else -int(-c)
            raise alg.Inconclusive("float->int conversion of a symbolic value")
        return ew(toint, a.a).astype(new)
    a = np.asarray(a)
    if a.dtype == object:
        if new == bool:
            return a
        if fl:
            return SA(ew(lambda x: Node("sel", (x, (nd.ZERO, nd.ONE))) if isinstance(x, LazyBool) else nd.const(int(x)), a))
        return conc_bool(a).astype(new)
    if fl:
        return lift(a)
    return a.astype(new)


HANDLERS["copy"] = lambda eqn, a: a
HANDLERS["copy_p"] = HANDLERS["copy"]
HANDLERS["stop_gradient"] = HANDLERS["copy"]
HANDLERS["optimization_barrier"] = lambda eqn, *a: list(a)
HANDLERS["reduce_precision"] = HANDLERS["copy"]
HANDLERS["sharding_constraint"] = HANDLERS["copy"]
HANDLERS["name"] = HANDLERS["copy"]
HANDLERS["device_put"] = lambda eqn, *a: list(a)
HANDLERS["pvary"] = lambda eqn, *a: list(a)


@handler("nextafter")
def _nextafter(eqn, a, b):
    return a


@handler("select_n")
def _select(eqn, which, *cases):
    which = np.asarray(which)
    anysym = any(isinstance(c, SA) for c in cases)
    cs = [lift(c).a for c in cases] if anysym else [np.asarray(c) for c in cases]
    shape = cs[0].shape
    if which.dtype != object:
        w = np.broadcast_to(which, shape)
        out = np.empty(shape, dtype=object if anysym or any(c.dtype == object for c in cs) else cs[0].dtype)
        of = out.reshape(-1)
        wf = w.reshape(-1)
        fl = [c.reshape(-1) for c in cs]
        for i in range(of.size):
            of[i] = fl[int(wf[i])][i]
        out = of.reshape(shape)
        return SA(out) if anysym else (pack_bool(out) if out.dtype == object else out)
    w = np.broadcast_to(which, shape)
    if anysym:
        def f(p, *c):
            if not isinstance(p, LazyBool):
                return c[int(p)]
            if all(x is c[0] for x in c) or all(nd.exactc(x) and nd.exactc(c[0]) and x.c == c[0].c for x in c):
                return c[0]
            return Node("sel", (p, c))
        return SA(ew(f, w, *cs))
    if eqn.outvars[0].aval.dtype == bool:
        def g(p, *c):
            if not isinstance(p, LazyBool):
                return c[int(p)]
            return LazyBool("sel", (p, c))
        return pack_bool(ew(g, w, *[c.astype(object) for c in cs]))
    w = conc_bool(w)
    return np.where(w, cs[1], cs[0])


@handler("clamp")
def _clamp(eqn, lo, x, hi):
    if isinstance(x, SA):
        mx, mn = _minmax("max"), _minmax("min")
        return SA(ew(lambda l, v, h: mn(mx(v, l), h), lift(lo).a, x.a, lift(hi).a))
    return np.minimum(np.maximum(np.asarray(x), lo), hi)


# ---- structural -------------------------------------------------------------

@handler("broadcast_in_dim")
def _bid(eqn, a, *dyn):
    shape, bd = eqn.params["shape"], eqn.params["broadcast_dimensions"]
    r = raw(a)
    tmp = [1] * len(shape)
    for i, d in enumerate(bd):
        tmp[d] = r.shape[i]
    return rewrap(np.broadcast_to(r.reshape(tmp), shape).copy(), a)


@handler("reshape")
def _reshape(eqn, a, *dyn):
    return rewrap(raw(a).reshape(eqn.params["new_sizes"]), a)


@handler("squeeze")
def _squeeze(eqn, a):
    return rewrap(np.squeeze(raw(a), axis=tuple(eqn.params["dimensions"])), a)


@handler("expand_dims")
def _expand(eqn, a):
    return rewrap(np.expand_dims(raw(a), eqn.params["dimensions"]), a)


@handler("transpose")
def _transpose(eqn, a):
    return rewrap(np.transpose(raw(a), eqn.params["permutation"]), a)


@handler("rev")
def _rev(eqn, a):
    return rewrap(np.flip(raw(a), axis=tuple(eqn.params["dimensions"])), a)


@handler("slice")
def _slice(eqn, a):
    p = eqn.params
    st = p["strides"] or [1] * len(p["start_indices"])
    return rewrap(raw(a)[tuple(slice(s, l, t) for s, l, t in zip(p["start_indices"], p["limit_indices"], st))], a)


@handler("concatenate")
def _concat(eqn, *xs):
    if any(isinstance(x, SA) for x in xs):
        return SA(np.concatenate([lift(x).a for x in xs], axis=eqn.params["dimension"]))
    return np.concatenate([np.asarray(x) for x in xs], axis=eqn.params["dimension"])


@handler("split")
def _split(eqn, a):
    sizes = np.cumsum(eqn.params["sizes"])[:-1]
    return [rewrap(x, a) for x in np.split(raw(a), sizes, axis=eqn.params["axis"])]


@handler("pad")
def _pad(eqn, a, v):
    r = raw(lift(a) if isinstance(v, SA) else a)
    val = raw(v)[()]
    cfg = eqn.params["padding_config"]
    oshape = [lo + hi + n + max(n - 1, 0) * it for n, (lo, hi, it) in zip(r.shape, cfg)]
    # build on an enlarged canvas, then crop
    out = np.empty(oshape, dtype=r.dtype)
    of = out.reshape(-1)
    for i in range(of.size):
        of[i] = val
    out = of.reshape(oshape)
    for idx in np.ndindex(*r.shape):
        t = tuple(lo + i * (it + 1) for i, (lo, hi, it) in zip(idx, cfg))
        if all(0 <= k < n for k, n in zip(t, oshape)):
            out[t] = r[idx]
    return SA(out) if isinstance(a, SA) or isinstance(v, SA) else out


def _int(x):
    return int(np.asarray(conc_or(raw(x))).reshape(()))


@handler("dynamic_slice")
def _dslice(eqn, a, *idx):
    r = raw(a)
    sizes = eqn.params["slice_sizes"]
    st = [min(max(_int(i), 0), n - s) for i, n, s in zip(idx, r.shape, sizes)]
    return rewrap(r[tuple(slice(s, s + z) for s, z in zip(st, sizes))], a)


@handler("dynamic_update_slice")
def _dus(eqn, a, u, *idx):
    sym = isinstance(a, SA) or isinstance(u, SA)
    r = (lift(a).a if sym else np.asarray(a)).copy()
    ur = lift(u).a if sym else np.asarray(u)
    st = [min(max(_int(i), 0), n - s) for i, n, s in zip(idx, r.shape, ur.shape)]
    r[tuple(slice(s, s + z) for s, z in zip(st, ur.shape))] = ur
    return SA(r) if sym else r


@handler("iota")
def _iota(eqn, *dyn):
    p = eqn.params
    shape, dim = p["shape"], p["dimension"]
    sh = [1] * len(shape)
    sh[dim] = shape[dim]
    return from_const(np.broadcast_to(np.arange(shape[dim]).reshape(sh), shape).astype(p["dtype"]).copy())


@handler("gather")
def _gather(eqn, a, ind):
    p = eqn.params
    dn = p["dimension_numbers"]
    r, ind = raw(a), np.asarray(conc_or(ind))
    sizes = p["slice_sizes"]
    mode = str(p["mode"])
    out_shape = eqn.outvars[0].aval.shape
    offset = list(dn.offset_dims)
    batch_out = [i for i in range(len(out_shape)) if i not in offset]
    ob, sb = list(dn.operand_batching_dims), list(dn.start_indices_batching_dims)
    kept = [d for d in range(r.ndim) if d not in dn.collapsed_slice_dims and d not in ob]
    fill = "fill" in mode.lower()
    fv = p.get("fill_value")
    out = np.empty(out_shape, dtype=r.dtype)
    ind_batch_axes = list(range(ind.ndim - 1))
    for o in np.ndindex(*out_shape):
        b = [o[i] for i in batch_out]
        start = [0] * r.ndim
        iv = ind[tuple(b)]
        for k, d in enumerate(dn.start_index_map):
            start[d] = int(iv[k])
        oob = any(not (0 <= start[d] <= r.shape[d] - sizes[d]) for d in dn.start_index_map)
        if oob and fill:
            if isinstance(a, SA):
                out[o] = nd.const(float("nan") if fv is None else fv)
            else:
                out[o] = np.iinfo(r.dtype).min if fv is None and r.dtype != bool and r.dtype != object else (fv or 0)
            continue
        for d in dn.start_index_map:
            start[d] = min(max(start[d], 0), r.shape[d] - sizes[d])
        for d, s in zip(ob, sb):
            start[d] = b[s]
        t = list(start)
        for i, d in zip(offset, kept):
            t[d] += o[i]
        out[o] = r[tuple(t)]
    return rewrap(out, a)


def _scatter(combine):
    def h(eqn, a, ind, upd):
        p = eqn.params
        dn = p["dimension_numbers"]
        sym = isinstance(a, SA) or isinstance(upd, SA)
        r = (lift(a).a if sym else np.asarray(a)).copy()
        u = lift(upd).a if sym else np.asarray(upd)
        if not sym and (r.dtype == object or u.dtype == object):
            r = r.astype(object)
            u = u.astype(object)
        ind = np.asarray(conc_or(ind))
        win = list(dn.update_window_dims)
        scat = [i for i in range(u.ndim) if i not in win]
        ob, sb = list(dn.operand_batching_dims), list(dn.scatter_indices_batching_dims)
        kept = [d for d in range(r.ndim) if d not in dn.inserted_window_dims and d not in ob]
        clip = "clip" in str(p["mode"]).lower()
        wsize = {d: u.shape[i] for i, d in zip(win, kept)}
        for o in np.ndindex(*u.shape):
            b = [o[i] for i in scat]
            start = [0] * r.ndim
            iv = ind[tuple(b)]
            for k, d in enumerate(dn.scatter_dims_to_operand_dims):
                start[d] = int(iv[k])
            ok = True
            for d in dn.scatter_dims_to_operand_dims:
                hi = r.shape[d] - wsize.get(d, 1)
                if not (0 <= start[d] <= hi):
                    if clip:
                        start[d] = min(max(start[d], 0), hi)
                    else:
                        ok = False
            if not ok:
                continue
            for d, s in zip(ob, sb):
                start[d] = b[s]
            for i, d in zip(win, kept):
                start[d] += o[i]
            t = tuple(start)
            r[t] = combine(r[t], u[o])
        return SA(r) if sym else r
    return h


def _nadd(x, y):
    return nd.add(x, y) if isinstance(x, Node) else x + y


def _nmul(x, y):
    return nd.mul(x, y) if isinstance(x, Node) else x * y


HANDLERS["scatter"] = _scatter(lambda x, y: y)
HANDLERS["scatter-add"] = _scatter(_nadd)
HANDLERS["scatter_add"] = HANDLERS["scatter-add"]
HANDLERS["scatter-sub"] = _scatter(lambda x, y: nd.sub(x, y) if isinstance(x, Node) or isinstance(y, Node) else x - y)
HANDLERS["scatter-mul"] = _scatter(_nmul)
HANDLERS["scatter_mul"] = HANDLERS["scatter-mul"]
HANDLERS["scatter-max"] = _scatter(lambda x, y: _minmax("max")(x, y) if isinstance(x, Node) else max(x, y))
HANDLERS["scatter-min"] = _scatter(lambda x, y: _minmax("min")(x, y) if isinstance(x, Node) else min(x, y))


# ---- reductions ---------------------------------------------------------------

def nsum(xs):
    xs = [x for x in xs if not nd.is0(x)]
    if not xs:
        return nd.ZERO
    if len(xs) == 1:
        return xs[0]
    if len(xs) == 2:
        return nd.add(*xs)
    return Node("sum", tuple(xs))


def _reduce(fsym, fnp):
    def h(eqn, a):
        axes = tuple(eqn.params["axes"])
        if isinstance(a, SA) or np.asarray(a).dtype == object:
            r = raw(a)
            keep = [i for i in range(r.ndim) if i not in axes]
            t = np.transpose(r, keep + list(axes)).reshape([r.shape[i] for i in keep] + [int(np.prod([r.shape[i] for i in axes]))])
            out = objarr(t.shape[:-1])
            for idx in np.ndindex(*out.shape):
                out[idx] = fsym(list(t[idx]))
            return SA(out) if isinstance(a, SA) else pack_bool(out)
        return _int_cast(fnp(np.asarray(a), axis=axes), eqn)
    return h


def _foldr(f):
    def g(xs):
        return functools.reduce(f, xs)
    return g


def _prod(xs):
    r = nd.ONE
    for x in xs:
        r = nd.mul(r, x)
    return r


def _land(xs):
    if any((not isinstance(x, LazyBool)) and not x for x in xs):
        return False
    xs = [x for x in xs if isinstance(x, LazyBool)]
    if not xs:
        return True
    return nd.lb("and", *xs)


def _lor(xs):
    if any((not isinstance(x, LazyBool)) and x for x in xs):
        return True
    xs = [x for x in xs if isinstance(x, LazyBool)]
    if not xs:
        return False
    return nd.lb("or", *xs)


HANDLERS["reduce_sum"] = _reduce(nsum, np.sum)
HANDLERS["reduce_prod"] = _reduce(_prod, np.prod)
HANDLERS["reduce_max"] = _reduce(_foldr(_minmax("max")), np.max)
HANDLERS["reduce_min"] = _reduce(_foldr(_minmax("min")), np.min)
HANDLERS["reduce_and"] = _reduce(_land, np.all)
HANDLERS["reduce_or"] = _reduce(_lor, np.any)
HANDLERS["reduce_xor"] = _reduce(lambda xs: functools.reduce(lambda p, q: nd.fb(p) ^ nd.fb(q), xs), np.bitwise_xor.reduce)


def _cum(fsym, fnp):
    def h(eqn, a):
        ax, rv = eqn.params["axis"], eqn.params["reverse"]
        if not isinstance(a, SA):
            x = np.asarray(a)
            x = np.flip(x, ax) if rv else x
            r = fnp(x, axis=ax)
            r = np.flip(r, ax) if rv else r
            return _int_cast(r, eqn)
        x = np.moveaxis(a.a, ax, -1)
        x = x[..., ::-1] if rv else x
        out = objarr(x.shape)
        for idx in np.ndindex(*x.shape[:-1]):
            acc = None
            for k in range(x.shape[-1]):
                acc = x[idx + (k,)] if acc is None else fsym(acc, x[idx + (k,)])
                out[idx + (k,)] = acc
        out = out[..., ::-1] if rv else out
        return SA(np.moveaxis(out, -1, ax))
    return h


HANDLERS["cumsum"] = _cum(nd.add, np.cumsum)
HANDLERS["cumprod"] = _cum(nd.mul, np.cumprod)
HANDLERS["cummax"] = _cum(_minmax("max"), np.maximum.accumulate)
HANDLERS["cummin"] = _cum(_minmax("min"), np.minimum.accumulate)


def _argmm(kind):
    def h(eqn, a):
        ax, = eqn.params["axes"]
        if not isinstance(a, SA):
            a = conc_or(a)
            return _int_cast((np.argmax if kind == "max" else np.argmin)(a, axis=ax), eqn)
        x = np.moveaxis(a.a, ax, -1)
        out = np.zeros(x.shape[:-1], dtype=eqn.outvars[0].aval.dtype)
        for idx in np.ndindex(*out.shape):
            b = 0
            for k in range(1, x.shape[-1]):
                if nd.fb(nd.lb("gt" if kind == "max" else "lt", x[idx + (k,)], x[idx + (b,)])):
                    b = k
            out[idx] = b
        return out
    return h


HANDLERS["argmax"] = _argmm("max")
HANDLERS["argmin"] = _argmm("min")


@handler("sort")
def _sort(eqn, *ops):
    dim, nk = eqn.params["dimension"], eqn.params["num_keys"]
    rs = [raw(o) for o in ops]
    mv = [np.moveaxis(r, dim, -1) for r in rs]
    outs = [np.empty(m.shape, dtype=m.dtype) for m in mv]

    def less(x, y):
        if isinstance(x, Node):
            if nd.exactc(x) and nd.exactc(y):
                return x.c < y.c
            return nd.fb(nd.lb("lt", x, y))
        if isinstance(x, LazyBool) or isinstance(y, LazyBool):
            return nd.fb(x) < nd.fb(y)
        return bool(x < y)
    for idx in np.ndindex(*mv[0].shape[:-1]):
        cols = [m[idx] for m in mv]
        n = len(cols[0])

        def cmp(i, j):
            for c in cols[:nk]:
                if less(c[i], c[j]):
                    return -1
                if less(c[j], c[i]):
                    return 1
            return 0
        order = sorted(range(n), key=functools.cmp_to_key(cmp))
        for o, c in zip(outs, cols):
            for k, i in enumerate(order):
                o[idx + (k,)] = c[i]
    return [rewrap(np.moveaxis(o, -1, dim), x) for o, x in zip(outs, ops)]


# ---- linear algebra -------------------------------------------------------------

@handler("dot_general")
def _dot(eqn, a, b):
    (lc, rc), (lb_, rb_) = eqn.params["dimension_numbers"]
    if not (isinstance(a, SA) or isinstance(b, SA)):
        return bind_concrete(eqn, [a, b])[0]
    A, B = lift(a).a, lift(b).a
    lf = [i for i in range(A.ndim) if i not in lc and i not in lb_]
    rf = [i for i in range(B.ndim) if i not in rc and i not in rb_]
    At = np.transpose(A, list(lb_) + lf + list(lc))
    Bt = np.transpose(B, list(rb_) + rf + list(rc))
    nb = len(lb_)
    bs = At.shape[:nb]
    ls = [A.shape[i] for i in lf]
    rsz = [B.shape[i] for i in rf]
    K = int(np.prod([A.shape[i] for i in lc])) if lc else 1
    nbat = int(np.prod(bs)) if bs else 1
    M = int(np.prod(ls)) if ls else 1
    N = int(np.prod(rsz)) if rsz else 1
    Af, Bf = At.reshape(nbat, M, K), Bt.reshape(nbat, N, K)
    out = objarr((nbat, M, N))
    for q in range(nbat):
        for i in range(M):
            for j in range(N):
                out[q, i, j] = nsum([nd.mul(Af[q, i, k], Bf[q, j, k]) for k in range(K)])
    return SA(out.reshape(tuple(bs) + tuple(ls) + tuple(rsz)))


@handler("custom_linear_solve")
def _cls(eqn, *args):
    cl = eqn.params["const_lengths"]
    mv = eqn.params["jaxprs"].matvec
    consts = list(args[: cl.matvec])
    b = [lift(x) for x in args[sum(cl):]]
    sizes = [int(np.prod(x.shape)) for x in b]
    S = sum(sizes)

    def unit(k):
        out = []
        o = 0
        for x, s in zip(b, sizes):
            u = objarr(s)
            for i in range(s):
                u[i] = nd.ONE if o + i == k else nd.ZERO
            out.append(SA(u.reshape(x.shape)))
            o += s
        return out
    A = [[None] * S for _ in range(S)]
    for k in range(S):
        r = eval_jaxpr(mv.jaxpr, mv.consts, consts + unit(k))
        col = np.concatenate([lift(x).a.reshape(-1) for x in r])
        for i in range(S):
            A[i][k] = col[i]
    B = np.concatenate([x.a.reshape(-1) for x in b])
    X = solve_nodes(A, B)
    out = []
    o = 0
    for x, s in zip(b, sizes):
        out.append(SA(X[o:o + s].reshape(x.shape)))
        o += s
    return out


def _comps(A):
    n = len(A)
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for i in range(n):
        for j in range(n):
            if i != j and not nd.is0(A[i][j]):
                a, b = find(i), find(j)
                if a != b:
                    comp[a] = b
    d = {}
    for i in range(n):
        d.setdefault(find(i), []).append(i)
    return list(d.values())


def solve_nodes(A, B):
    X = objarr(len(A))
    for blk in _comps(A):
        m = nd.Mat([[A[i][j] for j in blk] for i in blk], [[B[i]] for i in blk])
        for k, i in enumerate(blk):
            X[i] = Node("solve", (m, k, 0))
    return X


class _LU:
    def __init__(self, A):
        self.A = A
        self.r = None

    def get(self, i, j):
        if self.r is None:
            A = [[nd.force(x) for x in r] for r in self.A]
            n = len(A)
            for k in range(n):
                if k < n - 1 and A[k][k].is_zero():
                    if all(A[i][k].is_zero() for i in range(k + 1, n)):
                        continue
                    raise alg.Inconclusive("LU needs pivoting")
                for i in range(k + 1, n):
                    if A[i][k].is_zero():
                        continue
                    A[i][k] = A[i][k] / A[k][k]
                    for j2 in range(k + 1, n):
                        A[i][j2] = A[i][j2] - A[i][k] * A[k][j2]
            self.r = A
        return self.r[i][j]


class _Chol:
    def __init__(self, A):
        self.A = A
        self.r = None

    def get(self, i, j):
        if self.r is None:
            A = [[nd.force(x) for x in r] for r in self.A]
            n = len(A)
            L = [[alg.ZERO] * n for _ in range(n)]
            for i_ in range(n):
                for j_ in range(i_ + 1):
                    s = A[i_][j_]
                    for k in range(j_):
                        s = s - L[i_][k] * L[j_][k]
                    if i_ == j_:
                        L[i_][i_] = alg.sqrt(s)
                    else:
                        L[i_][j_] = s / L[j_][j_]
            self.r = L
        return self.r[i][j]


def _batched(A, fn):
    out = objarr(A.shape)
    for idx in np.ndindex(*A.shape[:-2]):
        obj = fn(A[idx].tolist())
        for i in range(A.shape[-2]):
            for j in range(A.shape[-1]):
                out[idx + (i, j)] = Node("solve", (obj, i, j))
    return out


@handler("lu")
def _lu(eqn, a):
    A = lift(a).a
    n = A.shape[-2]
    out = _batched(A, _LU)
    piv = np.broadcast_to(np.arange(min(A.shape[-2:]), dtype=np.int32), A.shape[:-2] + (min(A.shape[-2:]),)).copy()
    perm = np.broadcast_to(np.arange(n, dtype=np.int32), A.shape[:-2] + (n,)).copy()
    return [SA(out), piv, perm]


@handler("lu_pivots_to_permutation")
def _lup(eqn, p):
    n = eqn.params["permutation_size"]
    p = np.asarray(p)
    return np.broadcast_to(np.arange(n, dtype=np.int32), p.shape[:-1] + (n,)).copy()


@handler("cholesky")
def _chol(eqn, a):
    A = lift(a).a
    out = _batched(A, _Chol)
    for i in range(A.shape[-1]):
        for j in range(i + 1, A.shape[-1]):
            for idx in np.ndindex(*A.shape[:-2]):
                out[idx + (i, j)] = nd.ZERO
    return SA(out)


@handler("triangular_solve")
def _tri(eqn, a, b):
    p = eqn.params
    A, B = lift(a).a, lift(b).a
    lower, left, tr, conj, unit = p["lower"], p["left_side"], p["transpose_a"], p["conjugate_a"], p["unit_diagonal"]
    n = A.shape[-1]
    out = objarr(B.shape)
    for idx in np.ndindex(*A.shape[:-2]):
        M = [[nd.ZERO] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if (j <= i) if lower else (j >= i):
                    M[i][j] = nd.ONE if (unit and i == j) else A[idx][i, j]
        if tr:
            M = [list(r) for r in zip(*M)]
        Bi = B[idx]
        if not left:
            M = [list(r) for r in zip(*M)]
            Bi = Bi.T
        X = objarr(Bi.shape)
        for c in range(Bi.shape[1]):
            X[:, c] = solve_nodes(M, Bi[:, c])
        out[idx] = X if left else X.T
    return SA(out)


# ---- control flow -----------------------------------------------------------------

def _call(jx, args):
    if isinstance(jx, ClosedJaxpr) or hasattr(jx, "consts"):
        return eval_jaxpr(jx.jaxpr, jx.consts, args)
    return eval_jaxpr(jx, [], args)


@handler("pjit", "jit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call", "custom_vjp_call",
         "custom_vjp_call_jaxpr", "core_closed_call", "run_state", "remat2")
def _pjit(eqn, *args):
    p = eqn.params
    jx = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
    if p.get("name") == "expm":
        r = expm_call(eqn, args)
        if r is not None:
            return r
    return _call(jx, list(args))


class Residual:
    """what reverse mode keeps of an expm; only its transposed call may look at it"""

    def __init__(self, A):
        self.A = A

    def get(self, i, j):
        raise alg.Inconclusive("a residual of expm is used outside its transposed call")


def _res_nodes(a):
    if not isinstance(a, SA):
        return None
    f = a.a.ravel()
    return f if f.size and all(isinstance(x, Node) and x.op == "solve" and isinstance(x.args[0], Residual) for x in f) else None


def expm_call(eqn, args):
    """expm, its forward derivative and its reverse mode, as traced by JAX"""
    from . import expm as ex
    outs = [v.aval.shape for v in eqn.outvars]
    sq = lambda a: len(np.shape(a.a if isinstance(a, SA) else a)) >= 2
    n_res = [_res_nodes(a) for a in args]
    if any(r is not None for r in n_res):
        if len(outs) != 1 or n_res[-1] is not None:
            return None
        G = lift(args[-1]).a
        n = G.shape[-1]
        out = objarr(outs[0])
        nb = len(outs[0]) - 2
        for b in np.ndindex(*outs[0][:nb]):
            A = None
            for a, r in zip(args, n_res):
                if r is None:
                    continue
                x = a.a
                x = x[b] if x.shape[:nb] == outs[0][:nb] else x
                x = np.asarray(x, dtype=object).ravel()
                if x.size and x[0].args[0].A is not None:
                    A = x[0].args[0].A
                    break
            if A is None:
                return None
            g = G[b] if G.ndim > 2 else G
            L = frechet(A.T, g)
            for i in range(n):
                for j in range(n):
                    out[b + (i, j)] = Node("solve", (L, i, n + j))
        return [SA(out)]
    if len(args) == 1 and len(outs) == 1:
        return expm_hook(args[0])
    if len(args) == 1:
        A = lift(args[0]).a
        prim = expm_hook(args[0])[0]
        nb = A.ndim - 2
        r = [prim]
        for shp in outs[1:]:
            o = objarr(shp)
            for idx in np.ndindex(*shp):
                own = shp[:nb] == A.shape[:nb]
                o[idx] = Node("solve", (Residual(A[idx[:nb]] if own else None), 0, 0))
            r.append(SA(o))
        return r
    if len(args) == 2 and len(outs) == 2 and all(sq(a) for a in args):
        A, D = lift(args[0]).a, lift(args[1]).a
        bs = np.broadcast_shapes(A.shape[:-2], D.shape[:-2])
        n = A.shape[-1]
        A, D = np.broadcast_to(A, bs + (n, n)), np.broadcast_to(D, bs + (n, n))
        E, L = objarr(bs + (n, n)), objarr(bs + (n, n))
        for b in np.ndindex(*bs):
            o = frechet(A[b], D[b])
            for i in range(n):
                for j in range(n):
                    E[b + (i, j)] = Node("solve", (o, i, j))
                    L[b + (i, j)] = Node("solve", (o, i, n + j))
        fit = lambda X, shp: SA(X[(0,) * (X.ndim - len(shp))]) if X.shape != tuple(shp) else SA(X)
        return [fit(E, outs[0]), fit(L, outs[1])]
    return None


def frechet(A, D):
    """expm([[A, D], [0, A]]) has the derivative of expm at A in direction D in its corner"""
    from . import expm as ex
    n = len(A)
    Z = objarr((2 * n, 2 * n))
    for i in np.ndindex(2 * n, 2 * n):
        Z[i] = nd.ZERO
    Z[:n, :n] = Z[n:, n:] = A
    Z[:n, n:] = D
    o = ex.LazyExpm(Z.tolist())
    o.norm_block = n        # (expm's norm test looks at A alone)
    return o


def expm_hook(a):
    from . import expm as ex
    A = lift(a).a
    out = objarr(A.shape)
    for idx in np.ndindex(*A.shape[:-2]):
        obj = ex.LazyExpm(A[idx].tolist())
        n = A.shape[-1]
        for i in range(n):
            for j in range(n):
                out[idx + (i, j)] = Node("solve", (obj, i, j))
    return [SA(out)]


@handler("cond")
def _cond(eqn, idx, *args):
    i = _int(conc_or(idx)) if not isinstance(idx, SA) else None
    br = eqn.params["branches"]
    i = min(max(i, 0), len(br) - 1)
    return _call(br[i], list(args))


@handler("scan")
def _scan(eqn, *args):
    p = eqn.params
    nc, ncar, L = p["num_consts"], p["num_carry"], p["length"]
    consts, carry, xs = list(args[:nc]), list(args[nc:nc + ncar]), list(args[nc + ncar:])
    nys = len(eqn.outvars) - ncar
    ys = [[None] * L for _ in range(nys)]
    rng = range(L - 1, -1, -1) if p["reverse"] else range(L)
    jx = p["jaxpr"]
    for t in rng:
        xt = [rewrap(raw(x)[t] if isinstance(raw(x)[t], np.ndarray) else _zero_d(raw(x)[t], raw(x).dtype), x) for x in xs]
        out = _call(jx, consts + carry + xt)
        carry = out[:ncar]
        for k, y in enumerate(out[ncar:]):
            ys[k][t] = y
    res = list(carry)
    for k in range(nys):
        av = eqn.outvars[ncar + k].aval
        if L == 0:
            if is_float(av):
                res.append(SA(objarr(av.shape)))
            else:
                res.append(np.zeros(av.shape, av.dtype))
            continue
        if any(isinstance(y, SA) for y in ys[k]):
            res.append(SA(np.stack([lift(y).a for y in ys[k]])))
        else:
            res.append(np.stack([np.asarray(y) for y in ys[k]]))
    return res


def _zero_d(v, dtype):
    o = np.empty((), dtype=dtype)
    o[()] = v
    return o


@handler("while")
def _while(eqn, *args):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = list(args[:cn]), list(args[cn:cn + bn]), list(args[cn + bn:])
    n = 0
    while True:
        c, = _call(p["cond_jaxpr"], cc + carry)
        if not bool(conc_bool(np.asarray(c)).all()):
            return carry
        carry = _call(p["body_jaxpr"], bc + carry)
        n += 1
        if n > 2000:
            raise alg.Inconclusive("while loop bound exceeded")


# ---- stubs --------------------------------------------------------------------------

TABLES = {}

vp_table_p = Primitive("vp_table")


@vp_table_p.def_abstract_eval
def _tab_abs(dt, *, table, shape):
    return _core.ShapedArray(dt.shape + tuple(shape), dt.dtype)


def _tab_batch(args, dims, *, table, shape):
    x, = args
    d, = dims
    x = jnp.moveaxis(x, d, 0)
    return vp_table_p.bind(x, table=table, shape=shape), 0


batching.primitive_batchers[vp_table_p] = _tab_batch


@vp_table_p.def_impl
def _tab_impl(dt, *, table, shape):
    return TABLES[table].concrete(np.asarray(dt))


CONCRETE = [False]


def _conc_table(name, shape, dt):
    return np.asarray(TABLES[name].concrete(np.asarray(dt)), dtype=np.float64)


def table(dt, name, shape):
    """matrix-valued function of a (possibly symbolic) time difference"""
    if CONCRETE[0]:
        return jax.pure_callback(functools.partial(_conc_table, name, tuple(shape)),
                                 jax.ShapeDtypeStruct(tuple(shape), jnp.float64),
                                 jnp.asarray(dt, dtype=jnp.float64), vmap_method="sequential")
    return vp_table_p.bind(jnp.asarray(dt, dtype=jnp.float64), table=name, shape=tuple(shape))


class _TabObj:
    __slots__ = ("tab", "dt", "v")

    def __init__(self, tab, dt):
        self.tab, self.dt, self.v = tab, dt, None

    def get(self, i, j):
        if self.v is None:
            self.v = self.tab.lookup(nd.force(self.dt))
        return self.v[i][j]


@handler("vp_table")
def _tab(eqn, dt):
    tb = TABLES[eqn.params["table"]]
    shape = eqn.params["shape"]
    D = lift(dt).a
    out = objarr(D.shape + tuple(shape))
    for idx in np.ndindex(*D.shape):
        o = _TabObj(tb, D[idx])
        for i in range(shape[0]):
            for j in range(shape[1]):
                out[idx + (i, j)] = Node("solve", (o, i, j))
    return SA(out)


vp_lyap_p = Primitive("vp_lyap")


@vp_lyap_p.def_abstract_eval
def _ly_abs(F, Q):
    return _core.ShapedArray(F.shape, F.dtype)


class _Lyap:
    def __init__(self, Fm, Q):
        self.F, self.Q, self.r = Fm, Q, None

    def get(self, i, j):
        if self.r is None:
            Fm = [[nd.force(x) for x in r] for r in self.F]
            Q = [[nd.force(x) for x in r] for r in self.Q]
            n = len(Fm)
            A = [[alg.ZERO] * (n * n) for _ in range(n * n)]
            for a in range(n):
                for b in range(n):
                    for k in range(n):
                        A[a * n + b][k * n + b] = A[a * n + b][k * n + b] + Fm[a][k]
                        A[a * n + b][a * n + k] = A[a * n + b][a * n + k] + Fm[b][k]
            X = nd.solve_frac(A, [[Q[a][b]] for a in range(n) for b in range(n)])
            self.r = [[X[a * n + b][0] for b in range(n)] for a in range(n)]
        return self.r[i][j]


@handler("vp_lyap")
def _ly(eqn, Fm, Q):
    A, B = lift(Fm).a, lift(Q).a
    o = _Lyap(A.tolist(), B.tolist())
    n = A.shape[0]
    out = objarr((n, n))
    for i in range(n):
        for j in range(n):
            out[i, j] = Node("solve", (o, i, j))
    return SA(out)


def install_scipy_stub():
    import scipy.linalg as sl
    orig = sl.solve_continuous_lyapunov
    if getattr(orig, "_vp", False):
        return

    def solve_continuous_lyapunov(a, q):
        if isinstance(a, jax.core.Tracer) or isinstance(q, jax.core.Tracer):
            return vp_lyap_p.bind(jnp.asarray(a), jnp.asarray(q))
        return orig(a, q)
    solve_continuous_lyapunov._vp = True
    sl.solve_continuous_lyapunov = solve_continuous_lyapunov


# --------------------------------------------------------------------------------------

def trace(fun, *avals):
    """make_jaxpr + output tree.  avals: arrays giving shapes/dtypes"""
    STATS["traced"] += 1
    cj, shape = jax.make_jaxpr(fun, return_shape=True)(*avals)
    return cj, jax.tree_util.tree_structure(shape)


def run(fun, *args, avals=None):
    """symbolically execute the real function `fun` on (possibly symbolic) args;
    args: SA / Frac / Node / numpy"""
    vals, protos = [], []
    for a in args:
        if isinstance(a, alg.Frac):
            a = nd.wrap(a)
        if isinstance(a, Node):
            z = objarr(())
            z[()] = a
            a = SA(z)
        if isinstance(a, SA):
            vals.append(a)
            protos.append(jnp.zeros(a.shape))
        else:
            vals.append(from_const(a))
            protos.append(jnp.asarray(a))
    key = None
    cj, tree = trace(fun, *protos)
    return run_traced(cj, tree, vals)


def run_traced(cj, tree, vals):
    out = eval_closed(cj, vals)
    return jax.tree_util.tree_unflatten(tree, out)


def sa(x):
    """nested lists of Frac/Node/numbers -> SA"""
    arr = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
    out = objarr(arr.shape)
    for i in np.ndindex(*arr.shape):
        v = arr[i]
        out[i] = nd.wrap(v) if isinstance(v, alg.Frac) else v if isinstance(v, Node) else nd.const(v)
    return SA(out)


def fr(x):
    """SA -> numpy object array of Frac (forces evaluation)"""
    a = lift(x).a
    out = objarr(a.shape)
    for i in np.ndindex(*a.shape):
        out[i] = nd.force(a[i])
    return out
