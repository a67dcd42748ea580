"""C17: component names are unique and keep what the user chose.

The real code is executed with SMT string terms as kernel names (any strings of
any length); every comparison of names forks."""
import sys
import time

from engine import strexec as sx

sx.install("smolgp")
import jax.numpy as jnp
import numpy as np
import z3

import smolgp
import smolgp.kernels as K
import smolgp.kernels.base as KB
import smolgp.kernels.integrated as KI
from engine import smt
from engine.harness import Case
from smolgp import GaussianProcess

EXPLANATION = ("symbolic execution of the real Python code over SMT string terms (the f-strings of the package are routed through the string algebra when the "
               "module is loaded); every comparison of names forks and z3 decides each claim for all names on the path")
BOUNDS = "every way of giving names (any strings) to the components of sums of up to four components, in every bracketing; products and scaled kernels as components"
OUTSIDE = "more than four components; names that are not strings"
FN = ["gp.GaussianProcess.__init__", "gp.assign_unique_kernel_names", "kernels.base.extract_leaf_kernels", "kernels.base.Sum", "kernels.base.Product", "kernels.base.Scale",
      "kernels.base.StateSpaceModel.observation_model"]

LEAVES = {
    "Exp": (lambda n: K.Exp(scale=1.5, sigma=0.7, name=n), ("scale", "sigma")),
    "Matern32": (lambda n: K.Matern32(scale=2.5, sigma=1.7, name=n), ("scale", "sigma")),
    "Matern52": (lambda n: K.Matern52(scale=2.25, sigma=1.25, name=n), ("scale", "sigma")),
    "Matern": (lambda n: KB.Matern(nu=2.5, scale=1.25, sigma=0.5, name=n), ("nu", "scale", "sigma")),
    "Cosine": (lambda n: K.Cosine(scale=3.5, sigma=2.7, name=n), ("scale", "sigma")),
    "SHO": (lambda n: K.SHO(omega=1.1, quality=2.2, sigma=0.3, name=n), ("omega", "quality", "sigma")),
    "Constant": (lambda n: K.Constant(sigma=1.3, name=n), ("sigma",)),
    "ExpSineSquared": (lambda n: K.ExpSineSquared(period=2.1, gamma=0.6, sigma=1.2, order=3, name=n), ("period", "gamma", "sigma", "order")),
    "IntegratedExp": (lambda n: KI.IntegratedExp(scale=1.5, sigma=0.7, num_insts=2, name=n), ("scale", "sigma", "num_insts")),
    "IntegratedSHO": (lambda n: KI.IntegratedSHO(omega=1.1, quality=2.2, sigma=0.3, num_insts=2, name=n), ("omega", "quality", "sigma", "num_insts")),
    "IntegratedMatern52": (lambda n: KI.IntegratedMatern52(scale=1.5, sigma=0.7, num_insts=2, name=n), ("scale", "sigma", "num_insts")),
    "IntegratedCosine": (lambda n: KI.IntegratedCosine(scale=1.5, sigma=0.7, num_insts=2, name=n), ("scale", "sigma", "num_insts")),
    "IntegratedMatern32": (lambda n: KI.IntegratedMatern32(scale=1.5, sigma=0.7, num_insts=2, name=n), ("scale", "sigma", "num_insts")),
}


def leaf_make(spec, n):
    if spec.startswith("s*"):
        return KB.Scale(kernel=leaf_make(spec[2:], "in"), scale=2.5, name=n)
    if spec.startswith("P*"):
        return KB.Product(leaf_make(spec[2:], "in1"), leaf_make("Exp", "in2"), name=n)
    if spec.startswith("Q*"):         # default name from its parts: name of the first part symbolic
        return leaf_make(spec[2:], n) * leaf_make("Exp", "in2")
    if spec.startswith("t*"):         # default name of a scaled kernel
        return 2.5 * leaf_make(spec[2:], n)
    return LEAVES[spec][0](n)


def params(k):
    """everything of a kernel but its own name (and the one derived from it)"""
    if isinstance(k, KB.Scale):
        return ("Scale", float(k.scale), params(k.kernel))
    if isinstance(k, KB.Product):
        return ("Product", params(k.kernel1), params(k.kernel2))
    t = type(k).__name__
    if t in LEAVES:
        return (t,) + tuple(np.round(np.asarray(getattr(k, p), float), 12).tolist() for p in LEAVES[t][1])
    return (type(k).__name__,)


def tree(shape, ks):
    return ks[shape] if isinstance(shape, int) else tree(shape[0], ks) + tree(shape[1], ks)


def leaves(k):
    return leaves(k.kernel1) + leaves(k.kernel2) if isinstance(k, KB.Sum) else [k]


def shape_of(k):
    return (shape_of(k.kernel1), shape_of(k.kernel2)) if isinstance(k, KB.Sum) else 0


def run_code(specs, shape, names, unique=True):
    ks = [leaf_make(s, n) for s, n in zip(specs, names)]
    k = tree(shape, ks)
    t = jnp.array([0.0, 1.0])
    X = (t, jnp.array([0.1, 0.1]), jnp.array([0, 1])) if any("Integrated" in s for s in specs) else t
    g = GaussianProcess(k, X, diag=jnp.ones(2), use_unique_names=unique)
    return ks, g.kernel


class StrCase(Case):
    def __init__(self, name, specs, shape, unique=True, tier="quick", limit=300):
        super().__init__(name, None, tier=tier, limit=limit, functions=FN)
        self.specs, self.shape, self.unique = specs, shape, unique

    # claims about one outcome: (label, z3 claim) ; plain python values on concrete runs
    def claims(self, ks, out):
        old = [k.name for k in ks]
        new = [k.name for k in leaves(out)]
        T = sx.term
        n = len(old)
        c = []
        if len(new) != n:
            return [("number of components", z3.BoolVal(False))], old, new
        c.append(("bracketing", z3.BoolVal(shape_of(out) == shape_of(tree(self.shape, ks)))))
        for i in range(n):
            c.append((f"parameters of component {i}", z3.BoolVal(params(leaves(out)[i]) == params(ks[i]))))
            if not self.unique:
                c.append((f"name {i} untouched", T(new[i]) == T(old[i])))
                continue
            c.append((f"name {i} starts with the given name", z3.PrefixOf(T(old[i]), T(new[i]))))
            if n > 1:
                c.append((f"unique name {i} kept", z3.Implies(z3.And([T(old[i]) != T(old[j]) for j in range(n) if j != i]), T(new[i]) == T(old[i]))))
            for j in range(i):
                c.append((f"names {j} and {i} differ", T(new[i]) != T(new[j])))
        return c, old, new

    def concrete(self, strs):
        """claims that fail on the real code with these names"""
        try:
            ks, out = run_code(self.specs, self.shape, strs, self.unique)
        except Exception as e:
            return [f"raises {type(e).__name__}: {str(e)[:200]}"], None
        c, old, new = self.claims(ks, out)
        bad = [l for l, e in c if not z3.is_true(z3.simplify(e))]
        if self.unique and not bad:
            ls = leaves(out)
            H = [np.asarray(k.observation_matrix((0.0, 0.1, 0) if any("Integrated" in s for s in self.specs) else 0.0)) for k in ls]
            for i, k in enumerate(ls):
                h = np.asarray(out.observation_model((0.0, 0.1, 0) if any("Integrated" in s for s in self.specs) else 0.0, component=k.name))
                w = np.concatenate([x * (i == j) for j, x in enumerate(H)], axis=-1)
                if h.shape != w.shape or not np.allclose(h, w):
                    bad.append(f"component {i} is not extracted by its name")
        return bad, new

    def explore(self, c, deadline):
        res = c.res
        n = len(self.specs)
        ex = sx.Exec(deadline=deadline)
        xs = [sx.mkstr(z3.String(f"x{i}")) for i in range(n)]
        raw = [z3.String(f"x{i}") for i in range(n)]
        ctrl = 0

        def strings(m):
            return [sx.plain(m.eval(x, model_completion=True)) for x in raw]

        def violation(what, m):
            s = strings(m)
            bad, new = self.concrete(s)
            res["probes"] += 1
            if bad:
                res["violations"].append({"what": f"{bad[0]}: the names {s} become {new}", "case": self.name, "inputs": dict(zip("abcd", s)), "why": what})
                return True
            return False
        try:
            for _ in ex.paths():
                try:
                    ks, out = run_code(self.specs, self.shape, xs, self.unique)
                    cl, old, new = self.claims(ks, out)
                except sx.Dead:
                    res["dead"] += 1
                    continue
                except sx.Unsupported:
                    raise
                except Exception as e:
                    r, m = ex.check()
                    if r == "sat" and violation(f"raised {type(e).__name__}", m):
                        return
                    res["undecided"].append(f"raised {type(e).__name__}: {str(e)[:200]}")
                    continue
                res["paths"] += 1
                r, m = ex.check()
                if r == "sat":
                    res["reached"] += 1
                    bad, cn = self.concrete(strings(m))      # the same outcome on the real code
                    pred = [sx.plain(m.eval(sx.term(z), model_completion=True)) if isinstance(z, sx.SymStr) else z for z in new]
                    if bad:
                        res["violations"].append({"what": f"{bad[0]}: the names {strings(m)} become {cn}", "case": self.name,
                                                  "inputs": dict(zip("abcd", strings(m))), "why": "a reachable outcome"})
                        return
                    if list(cn) != pred:
                        res["undecided"].append(f"symbolic run gives {pred}, the real code {cn}")
                    else:
                        res["validated"] += 1
                for l, e in cl:
                    res["obligations"] += 1
                    r, m = ex.check(z3.Not(e))
                    if r == "unsat":
                        res["discharged"] += 1
                        res["by_solver"] += 1
                        if len(res["samples"]) < 2 and res["paths"] > 3 and not z3.is_true(z3.simplify(e)):
                            res["samples"].append({"case": self.name, "path": [str(p)[:120] for p in ex.pc][:8], "claim": l, "verdict": "unsat (negation)"})
                    elif r == "sat":
                        if violation(f"solver verdict sat: {l}", m):
                            return
                        res["undecided"].append(f"{l}: not reproduced on the real code")
                    else:
                        res["undecided"].append(f"{l}: solver {r}")
                if ctrl < 2:
                    ctrl += 1
                    res["controls"] += 1
                    if ex.check(z3.Length(raw[0]) <= 400)[0] == "sat":       # the negation of a false claim
                        res["controls_ok"] += 1
        except sx.Unsupported as e:
            res["undecided"].append(f"{e}")
            res["truncated"] = True

    def probe(self, c):
        """fallback when undecided: adversarial concrete names"""
        pool = ["a", "a_1", "a_2", "a_1_1", "b", "", "a_1_2"]
        import itertools
        for s in itertools.product(pool, repeat=len(self.specs)):
            c.res["probes"] += 1
            bad, new = self.concrete(list(s))
            if bad:
                c.res["violations"].append({"what": f"{bad[0]}: the names {list(s)} become {new}", "case": self.name, "inputs": dict(zip("abcd", s)), "why": "replay"})
                return


def cases(tier):
    E4 = ["Exp"] * 4
    r = [StrCase("one", ["Exp"], 0), StrCase("two", E4[:2], (0, 1)),
         StrCase("three (ab)c", E4[:3], ((0, 1), 2)), StrCase("three a(bc)", E4[:3], (0, (1, 2))),
         StrCase("four ((ab)c)d", E4, (((0, 1), 2), 3)), StrCase("four (ab)(cd)", E4, ((0, 1), (2, 3))), StrCase("four a(b(cd))", E4, (0, (1, (2, 3)))),
         StrCase("names kept on request", E4[:3], ((0, 1), 2), unique=False),
         StrCase("product with its own name", ["Exp", "P*Exp", "Matern32"], ((0, 1), 2)), StrCase("scaled with its own name", ["s*Exp", "Exp", "s*Matern52"], ((0, 1), 2)),
         StrCase("default names of products", ["Q*Exp", "Q*Matern32", "Exp"], ((0, 1), 2)), StrCase("default names of scaled kernels", ["t*Exp", "t*SHO", "Exp"], ((0, 1), 2))]
    if tier == "thorough":
        r.append(StrCase("five", ["Exp"] * 5, ((((0, 1), 2), 3), 4), tier="thorough", limit=1500))
    names = list(LEAVES)
    for a in names:
        if "Integrated" in a:
            r.append(StrCase(f"kinds {a}", [a, a], (0, 1)))
        else:
            r.append(StrCase(f"kinds {a}", [a, "Exp", a], (0, (1, 2))))
    return r
