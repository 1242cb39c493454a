"""ASCII-math output reads back as the same expression."""
from fractions import Fraction
import re
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf.core import patient
from vf import ev, mtree, gen_all, asciimath
from latex2sympy.asciimath_printer import AsciiMathPrinter

PROPERTY = "P11"
RULE = ("built: expression trees of numbers, symbols, + - * /, powers (integer, rational, symbolic), roots, functions, absolute values, factorials, derivatives "
        "(first, higher, nested), definite/indefinite/iterated integrals, sums, products, two-sided and one-sided limits, nested up to depth 4, built as sympy objects "
        "with and without automatic evaluation, and equations of them; latex: the same from generated LaTeX read by latex2sympy. The printer must not fail; an independent "
        "reader of ASCII math (one rule per operator, big operators take the product to their right) must be able to read the whole output; the names in the text, bound ones "
        "included, must be those of the expression; and the value of what was read must be the value of the expression at up to three points (30 digits, tolerance 1e-9; "
        "derivatives, integrals and limits by the same surrogate on both sides). Cases without a point in the domain are discarded. Non-trivial: the expression has at least four nodes.")

POINTS = [Fraction(a, b) for a, b in ((3, 10), (7, 10), (17, 10), (13, 5), (-2, 5), (1, 2), (31, 10), (-9, 5))]
NAMES = ["x", "y", "k", "theta", "t"]
FNS = ["sin", "cos", "tan", "atan", "exp", "log", "sinh", "tanh", "floor", "ceiling", "Abs", "factorial", "sqrt", "cot", "asin"]


# ---------------------------------------------------------------- generated objects
@st.composite
def tree(draw, depth):
    k = draw(st.sampled_from(["num", "sym", "sym"] if depth <= 0 else
                             ["num", "sym", "+", "+", "-", "*", "*", "/", "/", "^", "^", "fn", "fn", "neg", "diff", "int", "iint", "sum", "prod", "lim", "limn"]))
    sub = lambda d=1: draw(tree(depth - d))
    v = draw(st.sampled_from(NAMES))
    if k == "num":
        return ["num", draw(st.sampled_from(["1", "2", "3", "-1", "-2", "0", "1/2", "-3/2", "5", "7/3", "10", "pi", "E"]))]
    if k == "sym":
        return ["sym", v]
    if k in "+-*/":
        return [k, sub(), sub()]
    if k == "^":
        e = draw(st.one_of(st.sampled_from([["num", n] for n in ("2", "3", "-1", "-2", "1/2", "-1/2", "1/3", "-3/2")]), tree(min(depth - 1, 1))))
        return ["^", sub(), e]
    if k == "fn":
        return ["fn", draw(st.sampled_from(FNS)), sub()]
    if k == "neg":
        return ["neg", sub()]
    if k == "diff":
        return ["diff", sub(), v, draw(st.sampled_from([1, 1, 1, 2, 3]))]
    if k == "int":
        return ["int", sub(), v]
    if k == "iint":
        return ["iint", sub(), v, draw(tree(0)), draw(tree(min(depth - 1, 1)))]
    if k in ("sum", "prod"):
        lo = draw(st.integers(-2, 3))
        hi = draw(st.sampled_from([["num", str(lo + draw(st.integers(0, 3)))], ["num", str(lo + 2)], ["+", ["num", str(lo)], ["sym", "n"]], ["inf"] if k == "sum" else ["sym", "n"]]))
        return [k, sub(), v, ["num", str(lo)], hi]
    if k == "limn":
        return ["lim", sub(), v, draw(st.sampled_from([["inf"], ["neg", ["inf"]]])), "-"]
    return ["lim", sub(), v, draw(tree(min(depth - 1, 1))), draw(st.sampled_from(["+", "-", "+-"]))]


def sym(n):
    return sympy.Symbol(n)


def build(t, auto):
    k = t[0]
    kw = {} if auto else {"evaluate": False}
    b = lambda i: build(t[i], auto)
    if k == "num":
        return {"pi": sympy.pi, "E": sympy.E}.get(t[1]) or sympy.Rational(t[1])
    if k == "sym":
        return sym(t[1])
    if k == "inf":
        return sympy.oo
    if k == "+":
        return sympy.Add(b(1), b(2), **kw)
    if k == "-":
        return sympy.Add(b(1), sympy.Mul(-1, b(2), **kw), **kw)
    if k == "*":
        return sympy.Mul(b(1), b(2), **kw)
    if k == "/":
        return sympy.Mul(b(1), sympy.Pow(b(2), -1, **kw), **kw)
    if k == "^":
        return sympy.Pow(b(1), b(2), **kw)
    if k == "neg":
        return -sympy.oo if t[1] == ["inf"] else sympy.Mul(-1, b(1), **kw)
    if k == "fn":
        return sympy.sqrt(b(2)) if t[1] == "sqrt" else getattr(sympy, t[1])(b(2), **kw)
    if k == "diff":
        return sympy.Derivative(b(1), *([(sym(t[2]), t[3])] if t[3] > 1 else [sym(t[2])]))
    if k == "int":
        return sympy.Integral(b(1), sym(t[2]))
    if k == "iint":
        return sympy.Integral(b(1), (sym(t[2]), b(3), b(4)))
    if k == "sum":
        return sympy.Sum(b(1), (sym(t[2]), b(3), b(4)))
    if k == "prod":
        return sympy.Product(b(1), (sym(t[2]), b(3), b(4)))
    if k == "lim":
        return sympy.Limit(b(1), sym(t[2]), b(3), t[4])
    raise KeyError(k)


# ---------------------------------------------------------------- oracle
def names(e):
    out = set()
    for a in sympy.preorder_traversal(e):
        if isinstance(a, sympy.Limit):
            out |= names(a.args[0]) | names(a.args[2]) | {a.args[1].name}
    if not any(isinstance(a, sympy.Limit) for a in sympy.preorder_traversal(e)):
        return {s.name for s in e.atoms(sympy.Symbol)}
    # everything outside the direction argument of limits
    def walk(a):
        if isinstance(a, sympy.Symbol):
            out.add(a.name)
        for x in a.args[:3] if isinstance(a, sympy.Limit) else a.args:
            walk(x)
    walk(e)
    return out


class Edge(Exception):
    pass


def edged(f):
    def g(v):
        if v != mtree.mpmath.nint(v) and abs(v - mtree.mpmath.nint(v)) < 1e-8:
            raise Edge()
        return f(v)
    return g


def value(e, env):
    """ev.num, refusing to decide on which side of a step a nearly integral value lies"""
    keep = dict(ev._FN)
    ev._FN.update({k: edged(f) for k, f in keep.items() if k in ("floor", "ceiling")})
    try:
        return ev.num(e, env)
    finally:
        ev._FN.update(keep)


def compare(text, e, t):
    """number of points at which expression and reading have values and agree"""
    if names(e) != asciimath.names(t):
        raise Violation("%s is printed as %r: names %s, expected %s" % (sympy.srepr(e), text, sorted(asciimath.names(t)), sorted(names(e))))
    ns, n = sorted(names(e)), 0
    for i in range(8):
        env = {v: POINTS[(i + 3 * j) % 8] for j, v in enumerate(ns)}
        if "n" in env:
            env["n"] = Fraction(i % 3 + 1)
        try:
            want = value(e, {sym(v): env[v] for v in ns})
        except (Violation, ev.NoRule):
            raise
        except Exception:
            continue
        if not mtree.mpmath.isfinite(want) or abs(want) > 1e7 or isinstance(want, mtree.mpmath.mpc) and abs(want.imag) > 1e-20:
            continue
        try:
            got = mtree.val(t, {v: str(env[v]) for v in ns})
        except mtree.Undefined:
            continue
        n += 1
        if not mtree.close(got, want.real, 1e-9):
            raise Violation("%s is printed as %r, which has the value %s, expected %s at %s" % (
                sympy.srepr(e), text, mtree.mpmath.nstr(got, 12), mtree.mpmath.nstr(want, 12), {k: str(v) for k, v in env.items()}))
        if n == 3:
            break
    return n


def sides(e):
    """the sides of the limits in it"""
    return sorted("" if a.args[2].is_infinite else str(a.args[3]).replace("+-", "") for a in sympy.preorder_traversal(e) if isinstance(a, sympy.Limit))


def read_sides(t):
    out = [t[4] or ""] if t[0] == "lim" else []
    for x in t[1:]:
        if isinstance(x, list):
            out += read_sides(x)
    return sorted(out)


def check(e, what):
    try:
        text = AsciiMathPrinter().doprint(e)
    except RecursionError:
        raise
    except Exception as x:
        raise Violation("%s (%s) is not printed: %s: %s" % (sympy.srepr(e), what, type(x).__name__, x))
    try:
        t = asciimath.read(text)
    except (asciimath.Unreadable, IndexError) as x:
        raise Violation("%s (%s) is printed as %r, which is not readable: %s" % (sympy.srepr(e), what, text, x))
    if isinstance(e, sympy.Eq):
        if t[0] != "eq":
            raise Violation("%s (%s) is printed as %r without equation sign" % (sympy.srepr(e), what, text))
        n = compare(text, e.args[0], t[1]) + compare(text, e.args[1], t[2])
    else:
        if t[0] == "eq":
            raise Violation("%s (%s) is printed as equation %r" % (sympy.srepr(e), what, text))
        n = compare(text, e, t)
    if sides(e) != read_sides(t):
        raise Violation("%s (%s) is printed as %r: sides of the limits are %s, expected %s" % (sympy.srepr(e), what, text, read_sides(t), sides(e)))
    if not n:
        raise Discard()
    return sorted({type(a).__name__ for a in sympy.preorder_traversal(e) if type(a).__name__ in
                   ("Add", "Mul", "Pow", "Abs", "factorial", "Derivative", "Integral", "Sum", "Product", "Limit", "Equality")})


def odd_bounds(x):
    """a sum or product to a bound such as pi or an infinite product, which sympy itself cannot order within minutes"""
    if isinstance(x, sympy.Product) and any(b.has(sympy.oo) or b.has(-sympy.oo) for l in x.limits for b in l[1:]):
        return True
    return isinstance(x, (sympy.Sum, sympy.Product)) and any(b.is_number and not b.is_integer and not b.is_infinite for l in x.limits for b in l[1:])


@patient(15)
def check_built(case):
    try:
        es = [build(t, case["auto"]) for t in case["trees"]]
        e = es[0] if len(es) == 1 else sympy.Eq(*es, evaluate=False)
    except (ValueError, TypeError, NotImplementedError, AttributeError):
        raise Discard()
    if any(odd_bounds(a) for a in sympy.preorder_traversal(e)):
        raise Discard()
    if e.has(sympy.nan, sympy.zoo, sympy.oo - sympy.oo) or any(a.has(sympy.I) for a in es) or e.has(sympy.AccumBounds):
        raise Discard()
    return check(e, "built")


@st.composite
def built(draw):
    n = draw(st.sampled_from([1, 1, 1, 2]))
    return {"auto": draw(st.booleans()), "trees": [draw(tree(draw(st.integers(1, 4)))) for _ in range(n)]}


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list))


@patient(15)
def check_latex(case):
    e = None
    try:
        e = latex2sympy(case["tex"])
    except Exception:
        raise Discard()
    if not isinstance(e, (sympy.Expr, sympy.Eq)) or any(isinstance(a, sympy.MatrixBase) for a in sympy.preorder_traversal(e)):
        raise Discard()
    if any(odd_bounds(a) for a in sympy.preorder_traversal(e)):
        raise Discard()
    if e.has(sympy.I, sympy.conjugate, sympy.Subs, sympy.nan, sympy.zoo) or isinstance(e, sympy.MatrixExpr):
        raise Discard()
    if any(not re.fullmatch(r"[A-Za-z]+(_(\{\w+\}|\w))?", n) or n[0] == "d" for n in names(e)):
        raise Discard()
    if any(a.func.__name__ not in KNOWN for a in sympy.preorder_traversal(e) if isinstance(a, sympy.Function)):
        raise Discard()
    return check(e, case["tex"])


KNOWN = set("sin cos tan csc sec cot asin acos atan acsc asec acot sinh cosh tanh asinh acosh atanh exp log floor ceiling Abs factorial binomial Max Min Mod".split())

SUBS = [
    Sub("built", check_built, built, nontrivial=lambda c: sum(size(t) for t in c["trees"]) >= 4, quick=2500),
    Sub("latex", check_latex, lambda: gen_all.text(3, ["func", "arith", "calc", "calc", "relation", "misc"]), nontrivial=lambda c: len(c["tex"]) > 8, quick=700),
]
