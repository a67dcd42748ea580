"""Symbolic execution of Python code over strings: the modules of the package
are loaded with their f-strings (and literal .format / join / %) routed through
`fstr`, so that strings can be SMT string terms.  Comparisons fork."""
from __future__ import annotations
import ast
import importlib.abc
import importlib.machinery
import sys
import time
import z3
from . import smt


class Unsupported(Exception):
    pass


class Hook(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(ast.Tuple([v.value, ast.Constant(conv), v.format_spec or ast.Constant("")], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name("__fstr__", ast.Load()), parts, []), n)

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec is not None:
            n.format_spec = self.visit(n.format_spec)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and f.attr in ("format", "join"):
            return ast.copy_location(ast.Call(ast.Name("__fstr_" + f.attr, ast.Load()), [f.value] + n.args, n.keywords), n)
        if isinstance(f, ast.Name) and f.id == "str" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("__fstr__", ast.Load()), [ast.Tuple([n.args[0], ast.Constant("s"), ast.Constant("")], ast.Load())], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__fstr_mod", ast.Load()), [n.left, n.right], []), n)
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.fix_missing_locations(Hook().visit(ast.parse(data)))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update(__fstr__=fstr, __fstr_format=fstr_format, __fstr_join=fstr_join, __fstr_mod=fstr_mod)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, pkg):
        self.pkg = pkg

    def find_spec(self, name, path, target=None):
        if name != self.pkg and not name.startswith(self.pkg + "."):
            return None
        s = importlib.machinery.PathFinder.find_spec(name, path)
        if s and isinstance(s.loader, importlib.machinery.SourceFileLoader):
            s.loader = Loader(s.loader.name, s.loader.path)
        return s


def install(pkg):
    assert pkg not in sys.modules
    sys.meta_path.insert(0, Finder(pkg))


# --------------------------------------------------------------------------
EX = None       # running executor


def term(x):
    if isinstance(x, SymStr):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported(f"string operation with {type(x).__name__}")


def mkstr(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return plain(t)
    s = str.__new__(SymStr, f"\u00a7{t.hash()}")
    s.t = t
    return s


def plain(t):
    return t.py_value() if hasattr(t, "py_value") else t.as_string()


def concat(ts):
    ts = [t for t in ts]
    return mkstr(z3.Concat(*ts) if len(ts) > 1 else ts[0])


def piece(v, conv="", spec=""):
    if isinstance(v, SymStr):
        if conv in ("r", "a"):
            raise Unsupported("repr of a symbolic string")
        if spec not in ("", "s"):
            raise Unsupported("format spec")
        return v.t
    return z3.StringVal(format(CONV[conv](v), spec))


CONV = {"": lambda v: v, "s": str, "r": repr, "a": ascii}


def fstr(*parts):
    vs = [p if isinstance(p, tuple) else (p, "", "") for p in parts]
    if not any(isinstance(x, SymStr) for v in vs for x in v):
        return "".join(format(CONV[c](v), s) for v, c, s in vs)
    return concat([piece(*v) for v in vs])


def fstr_format(s, *a, **k):
    if not any(isinstance(v, SymStr) for v in list(a) + list(k.values())):
        return s.format(*a, **k)
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(z3.StringVal(lit))
        if field is None:
            continue
        if field == "":
            v, auto = a[auto], auto + 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("format field")
        out.append(piece(v, conv or "", spec or ""))
    return concat(out)


def fstr_join(s, it):
    it = list(it)
    if not any(isinstance(v, SymStr) for v in it):
        return s.join(it)
    out = []
    for i, v in enumerate(it):
        if i and s:
            out.append(z3.StringVal(s))
        out.append(term(v))
    return concat(out)


def fstr_mod(s, a):
    a = a if isinstance(a, tuple) else (a,)
    if not any(isinstance(v, SymStr) for v in a):
        return s % a
    import re
    bits = re.split(r"(%[sd])", s)
    out, k = [], 0
    for b in bits:
        if b in ("%s", "%d"):
            out.append(piece(a[k], "s"))
            k += 1
        elif b:
            if "%" in b:
                raise Unsupported("% format")
            out.append(z3.StringVal(b))
    return concat(out)


class SymStr(str):
    """a string known only as an SMT term"""

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return EX.decide(self.t == term(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __add__(self, o):
        return concat([self.t, term(o)])

    def __radd__(self, o):
        return concat([term(o), self.t])

    def __lt__(self, o):
        return EX.decide(self.t < term(o))

    def __gt__(self, o):
        return EX.decide(term(o) < self.t)

    def __le__(self, o):
        return EX.decide(self.t <= term(o))

    def __ge__(self, o):
        return EX.decide(term(o) <= self.t)

    def __contains__(self, o):
        return EX.decide(z3.Contains(self.t, term(o)))

    def __bool__(self):
        return EX.decide(self.t != z3.StringVal(""))

    def __format__(self, spec):
        if spec:
            raise Unsupported("format spec")
        return self

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def startswith(self, p):
        return EX.decide(z3.PrefixOf(term(p), self.t))

    def endswith(self, p):
        return EX.decide(z3.SuffixOf(term(p), self.t))


for _m in ("__len__", "__getitem__", "__iter__", "__mod__", "__mul__", "capitalize", "casefold", "count", "encode", "find", "format", "index", "isalnum",
           "isalpha", "isdigit", "isdecimal", "isidentifier", "islower", "isnumeric", "isspace", "isupper", "join", "ljust", "lower", "lstrip",
           "partition", "removeprefix", "removesuffix", "replace", "rfind", "rindex", "rjust", "rpartition", "rsplit", "rstrip", "split",
           "splitlines", "strip", "swapcase", "title", "translate", "upper", "zfill", "__repr__"):
    def _bad(self, *a, _m=_m, **k):
        raise Unsupported(f"str.{_m} of a symbolic string")
    if _m != "__repr__":
        setattr(SymStr, _m, _bad)


class Dead(Exception):
    pass


class Exec:
    """depth-first exploration of the decisions, by replay"""

    def __init__(self, ms=5000, deadline=None, max_paths=3000):
        self.ms, self.deadline, self.max_paths = ms, deadline, max_paths
        self.stack = []      # [choice, alternative still open]
        self.pc = []

    def check(self, *cs):
        s = z3.Solver()
        s.set("timeout", self.ms)
        s.add(*self.pc, *cs)
        t = time.time()
        r = str(s.check())
        t = time.time() - t
        smt.STATS["queries"] += 1
        smt.STATS[r] = smt.STATS.get(r, 0) + 1
        smt.STATS["time"] += t
        smt.STATS["max_time"] = max(smt.STATS["max_time"], t)
        return r, (s.model() if r == "sat" else None)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.stack):
            b = self.stack[self.pos][0]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
            a, _ = self.check(c)
            n, _ = self.check(z3.Not(c))
            if a == "unsat" and n == "unsat":
                raise Dead()
            if a == "unsat":
                b, alt = False, False
            elif n == "unsat":
                b, alt = True, False
            else:
                b, alt = True, True
            self.stack.append([b, alt])
        self.pos += 1
        self.pc.append(c if b else z3.Not(c))
        return b

    def paths(self):
        """yield once per path; the body runs the code under `decide`"""
        global EX
        n = 0
        while True:
            self.pos, self.pc = 0, []
            EX = self
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            yield n
            del self.stack[self.pos:]
            while self.stack and not self.stack[-1][1]:
                self.stack.pop()
            if not self.stack:
                return
            self.stack[-1] = [not self.stack[-1][0], False]
