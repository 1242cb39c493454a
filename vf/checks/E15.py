"""Failures inside the algebra engine never change a verdict to equal."""
import json
import os
import signal
import sys
from hypothesis import strategies as st
from vf.repo import *
from vf.pairs import pair, kind, ALL
import math_evaluation.core.evaluations, math_evaluation.core.latex_parser, math_evaluation.core.latex_normalize  # noqa
import math_evaluation.core.type_evaluations                                                                     # noqa
import timeout_decorator

PROPERTY = "E15"
RULE = ("Answer pairs with known verdicts (generators of the other comparison properties, mostly different answers), compared while the algebra "
        "engine fails: api: one of its entry points (simplify, expand, evalf, subs, re, im, Abs, the parsers, comparisons, arithmetic, free "
        "symbols, intervals, matrices, ...) raises from its k-th call on, for the next 1, 2 or all calls; point: an exception "
        "surfaces at a chosen function call anywhere inside sympy / mpmath / the parser runtime (position drawn as a fraction of the calls "
        "the comparison makes, counted in a run before), as a time limit or an engine bug would; kinds: the time-limit exceptions, ValueError, "
        "TypeError, AttributeError, ZeroDivisionError, RecursionError, NotImplementedError, MemoryError. Different answers must never become "
        "equal, nothing may be raised, and after the failure different answers are still different. Each pair runs in its own fork. Non-trivial: "
        "the answers differ and the failure was hit.")

EXC = {"timeout": lambda: timeout_decorator.TimeoutError("Timed Out"), "builtin timeout": lambda: TimeoutError("late"), "value": lambda: ValueError("injected"),
       "type": lambda: TypeError("injected"), "attribute": lambda: AttributeError("injected"), "zero": lambda: ZeroDivisionError("injected"),
       "recursion": lambda: RecursionError("injected"), "notimpl": lambda: NotImplementedError("injected"), "memory": lambda: MemoryError("injected"),
       "key": lambda: KeyError("injected"), "runtime": lambda: RuntimeError("injected")}
API = ["simplify", "Basic.subs", "EvalfMixin.evalf", "Expr.expand", "re.eval", "im.eval", "Abs.eval", "latex2sympy", "parse_latex", "parse_expr", "Expr.__sub__", "Expr.__abs__",
       "Basic.free_symbols", "Basic.__eq__", "Expr.__lt__", "Expr.__ge__", "Basic.compare", "Interval.__new__", "Union.__new__", "FiniteSet.__new__", "Expr.__neg__",
       "Expr.__truediv__", "MatrixBase.__getitem__", "Expr.is_number", "Expr.__mul__", "Expr.__pow__", "Expr.__add__", "Float.__new__", "Rational.__new__", "EvalfMixin._evalf"]


class Injector:
    def __init__(self, first, count, exc):
        self.n = 0
        self.first, self.count, self.exc = first, count, exc
        self.hit = 0

    def tick(self):
        self.n += 1
        if self.n >= self.first and self.n < self.first + self.count:
            self.hit += 1
            raise EXC[self.exc]()


def wrap(f, inj):
    def inner(*a, **k):
        inj.tick()
        return f(*a, **k)
    return inner


def install(target, inj):
    """Make the entry point fail as inj says; works for module functions, methods, class methods and properties."""
    import sympy.core.evalf
    import sympy.parsing.sympy_parser as sp
    import sympy.parsing.latex as sl
    if "." in target:
        cname, meth = target.split(".")
        cls = getattr(sympy, cname, None) or {"EvalfMixin": sympy.core.evalf.EvalfMixin, "MatrixBase": sympy.matrices.MatrixBase}[cname]
        owner = next((c for c in cls.__mro__ if meth in vars(c)), None)
        if owner is None:
            return
        raw = vars(owner)[meth]
        if isinstance(raw, property):
            new = property(wrap(raw.fget, inj))
        elif isinstance(raw, classmethod):
            new = classmethod(wrap(raw.__func__, inj))
        elif isinstance(raw, staticmethod):
            new = staticmethod(wrap(raw.__func__, inj))
        else:
            new = wrap(raw, inj)
        try:
            setattr(owner, meth, new)
        except TypeError:
            return
        for c in [sympy.Integer, sympy.Rational, sympy.Float, sympy.Add, sympy.Mul, sympy.Pow, sympy.Symbol]:        # overriding methods
            if meth in vars(c) and c is not owner and not isinstance(vars(c)[meth], (classmethod, staticmethod, property)) and callable(vars(c)[meth]):
                setattr(c, meth, wrap(vars(c)[meth], inj))
        return
    f = {"simplify": sympy.simplify, "latex2sympy": l2s_mod.latex2sympy, "parse_latex": sl.parse_latex, "parse_expr": sp.parse_expr}[target]
    new = wrap(f, inj)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("sympy", "math_evaluation", "latex2sympy") and m is not None:
            for k, v in list(vars(m).items()):
                if v is f:
                    setattr(m, k, new)


ENGINE = (os.sep + "sympy" + os.sep, os.sep + "mpmath" + os.sep, os.sep + "antlr4" + os.sep)


class Points:
    """Profile hook: counts calls of engine functions, raises at the chosen one."""
    def __init__(self, first=None, exc=None):
        self.n, self.first, self.exc, self.hit = 0, first, exc, 0
        self.engine = {}

    def __call__(self, frame, event, arg):
        if event != "call":
            return
        fn = frame.f_code.co_filename
        e = self.engine.get(fn)
        if e is None:
            e = self.engine[fn] = any(d in fn for d in ENGINE)
        if e:
            self.n += 1
            if self.n == self.first:
                self.hit = 1
                raise EXC[self.exc]()


_warm = []


def warm_up():
    if not _warm:
        _warm.append(1)
        for a, b in [("\\frac{1}{2}", "x+1"), ("[1,2)\\cup(3,4]", "[0,1]"), ("\\begin{pmatrix}1\\\\x\\end{pmatrix}", "[1,2]"), ("\\sqrt{2}+i", "1+2i"), ("1,x", "y,2"),
                     ("x<2", "x>2"), ("x^2+\\sin x=2", "x=3")]:
            is_equiv(a, b)


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 60)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            sys.stdout = open(os.devnull, "w")
            out = fn()
            os.write(w, json.dumps(out).encode())
        except BaseException as e:
            os.write(w, json.dumps({"error": "%s: %s" % (type(e).__name__, e)}).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
            return None
        return {"error": "the process died, status %d" % status}
    return json.loads(data)


def judge(case, swap=False):
    a, b = (case["b"], case["a"]) if swap else (case["a"], case["b"])
    if case.get("label"):
        return bool(is_equiv_type(a, b, case["label"]))
    return bool(is_equiv(a, b))


def run_api(case):
    inj = Injector(case["first"], case["count"], case["exc"])
    install(case["target"], inj)
    inj.n = 0
    out = {"v": judge(case), "hit": inj.hit}
    inj.first = 1 << 60
    out["after"] = judge(case, True)
    return out


def run_count(case):
    p = Points()
    sys.setprofile(p)
    try:
        judge(case)
    finally:
        sys.setprofile(None)
    return {"n": p.n}


def run_point(case, first):
    p = Points(first, case["exc"])
    sys.setprofile(p)
    try:
        v = judge(case)
    finally:
        sys.setprofile(None)
    return {"v": v, "hit": p.hit, "after": judge(case, True)}


def verdict(case, out, what):
    if out is None:
        raise Discard()
    if "error" in out:
        raise Violation("(%r, %r) under %s: %s" % (case["a"], case["b"], what, out["error"]))
    if not case["want"]:
        if out["v"]:
            raise Violation("(%r, %r) differ, but are equal under %s" % (case["a"], case["b"], what))
        if out["after"]:
            raise Violation("(%r, %r) differ, but are equal after %s" % (case["a"], case["b"], what))
    case["hit"] = bool(out["hit"])
    return ["hit" if out["hit"] else "not reached", "equal pair %s" % ("kept" if out["v"] else "lost") if case["want"] else "different pair", case["src"]]


def check_api(case):
    warm_up()
    what = "%s raising %s from call %d for %d calls" % (case["target"], case["exc"], case["first"], case["count"])
    return verdict(case, forked(lambda: run_api(case)), what) + [case["target"]]


def check_point(case):
    warm_up()
    n = forked(lambda: run_count(case))
    if n is None or "n" not in n or not n["n"]:
        raise Discard()
    k = 1 + n["n"] * case["at"] // 1000
    return verdict(case, forked(lambda: run_point(case, k)), "%s raised at engine call %d of %d" % (case["exc"], k, n["n"]))


@st.composite
def base(draw):
    kinds = ["number", "expression", "expression", "collection", "interval", "matrix", "relation", "complex", "decorated"]
    c = draw(pair(kinds))
    if c["want"] and draw(st.integers(0, 4)):
        for _ in range(3):
            c = draw(pair(kinds))
            if not c["want"]:
                break
    return {"a": c["a"], "b": c["b"], "want": c["want"], "src": c["src"], "exc": draw(st.sampled_from(sorted(EXC) + ["timeout"] * 4))}


@st.composite
def api(draw):
    c = draw(base())
    c["target"] = draw(st.sampled_from(API + API[:7] + API[10:12]))
    c["first"] = draw(st.sampled_from([1, 1, 1, 1, 1, 2, 2, 3, 4, 5, 8, 13, 30]))
    c["count"] = draw(st.sampled_from([1, 1, 2, 10 ** 9, 10 ** 9, 10 ** 9]))
    return c


@st.composite
def point(draw):
    c = draw(base())
    c["at"] = draw(st.integers(0, 999))
    return c


NT = lambda c: not c["want"] and c.get("hit", False)
SUBS = [
    Sub("api", check_api, api, nontrivial=NT, quick=320, chunk=20, thorough=12000),
    Sub("point", check_point, point, nontrivial=NT, quick=96, chunk=6, thorough=8000),
]
