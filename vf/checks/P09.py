"""Printing and parsing are inverse."""
from fractions import Fraction
import re
import traceback
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf.core import patient
from vf import ev, mtree, gen_all
from vf.gen_func import fexpr
from vf.gen_arith import expr as arith
from vf.checks import P11

PROPERTY = "P09"
RULE = ("round: generated texts of the whole language (functions, arithmetic, relations, lists, calculus, matrices, accents and further names) are parsed, printed with latex() and parsed again; "
        "built: sympy objects built from generated trees (arithmetic, powers, roots, functions, factorials, derivatives, integrals, sums, products, limits, equations; automatic and unevaluated) are "
        "printed and parsed. The second parse must be the same kind of object with the same names (bound ones included), relation, shape and number of members, and every entry the same value at up to three points "
        "(independent 30-digit walk, tolerance 1e-9). value: latex2latex of texts without unevaluated limits; the printed result is parsed and has the value of the text's reference (the generator's tree, not the "
        "parser). closed: polynomial derivatives, definite integrals and finite sums with exact reference values. style: sequences of inputs, the printed fractions use the style of the last input that has one. "
        "Cases without a point in the domain are discarded. Non-trivial: at least four nodes or tokens.")


# ---------------------------------------------------------------- equality of parsed objects
def point(names, i):
    return {n: (Fraction(i % 3 + 1) if n in ("n", "k", "m") else P11.POINTS[(i + 3 * j) % 8]) for j, n in enumerate(sorted(names))}


def scalar(a, b, what):
    """number of points compared"""
    na, nb = P11.names(a), P11.names(b)
    if not nb <= na:
        raise Violation("%s: names %s, expected %s" % (what, sorted(nb), sorted(na)))
    n = 0
    for i in range(8):
        env = {sympy.Symbol(k): v for k, v in point(na, i).items()}
        try:
            want = P11.value(a, env)
        except Exception:
            continue
        if isinstance(want, mtree.mpmath.mpc) and abs(want.imag) > 1e-20:
            continue
        want = want.real
        if not mtree.mpmath.isfinite(want) or abs(want) > 1e7 or want and abs(want) < 1e-18:
            continue
        try:
            got = P11.value(b, env)
        except P11.Edge:
            continue
        except Exception as e:
            raise Violation("%s cannot be evaluated at %s (%s), expected %s" % (what, env, e, mtree.mpmath.nstr(want, 12)))
        n += 1
        if not mtree.close(got, want, 1e-9):
            raise Violation("%s: value %s, expected %s at %s" % (what, got, mtree.mpmath.nstr(want, 12), {str(k): str(v) for k, v in env.items()}))
        if n == 3 or not env:
            break
    return n


def equal(a, b, what):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            raise Violation("%s: a list of %d is read back as %s" % (what, len(a), b))
        return sum(equal(x, y, what) for x, y in zip(a, b))
    if isinstance(b, (list, tuple)):
        raise Violation("%s: %s is read back as the list %s" % (what, a, b))
    if isinstance(a, sympy.core.relational.Relational):
        if type(a) is not type(b):
            raise Violation("%s: a %s is read back as a %s" % (what, type(a).__name__, type(b).__name__))
        return equal(a.args[0], b.args[0], what) + equal(a.args[1], b.args[1], what)
    if getattr(a, "is_Matrix", False):
        a, b = a.doit(), b.doit() if hasattr(b, "doit") else b
        if not isinstance(a, sympy.MatrixBase):
            return 0
        if not isinstance(b, sympy.MatrixBase) or a.shape != b.shape:
            raise Violation("%s: matrix of shape %s is read back as %s" % (what, a.shape, b))
        return sum(equal(x, y, what) for x, y in zip(a, b))
    if not isinstance(a, sympy.Expr):
        return 0
    if not isinstance(b, sympy.Expr) or getattr(b, "is_Matrix", False):
        raise Violation("%s: %s is read back as a %s: %s" % (what, a, type(b).__name__, b))
    if a.has(sympy.MatrixBase) or a.has(sympy.MatrixExpr):
        return 0
    if a.is_Symbol or a in (sympy.oo, -sympy.oo):
        if a != b:
            raise Violation("%s: %s is read back as %s" % (what, a, b))
        return 1
    if any(type(f).__name__ not in P11.KNOWN for f in a.atoms(sympy.Function)):
        return 0
    return scalar(a, b, what)


def atoms(e):
    for x in e if isinstance(e, (list, tuple)) else [e]:
        if isinstance(x, (list, tuple)):
            yield from atoms(x)
        elif isinstance(x, sympy.MatrixBase):
            yield from atoms(list(x))
        else:
            yield from sympy.preorder_traversal(x)


def unsupported(e):
    return any(P11.odd_bounds(x) or isinstance(x, (bool, sympy.Subs, sympy.conjugate, sympy.re, sympy.im)) or x in (sympy.I, sympy.nan, sympy.zoo, True, False) or
               isinstance(x, sympy.Limit) and str(x.args[3]) == "+-" for x in atoms(e))


def sides(e):
    return sorted(str(x.args[3]) for x in atoms(e) if isinstance(x, sympy.Limit) and not x.args[2].is_infinite)


def round_trip(e, what):
    try:
        tex = latex(e)
    except Exception as x:
        raise Violation("%s (%s) is not printed: %s: %s" % (e, what, type(x).__name__, x))
    try:
        back = latex2sympy(tex)
    except Exception as x:
        raise Violation("%s (%s) is printed as %r, which is not read: %s" % (e, what, tex, str(x)[:120]))
    n = equal(e, back, "%s (%s) is printed as %r and read back as %s" % (e, what, tex, back))
    if sides(e) != sides(back):
        raise Violation("%s (%s) is printed as %r: sides of the limits %s, expected %s" % (e, what, tex, sides(back), sides(e)))
    if not n:
        raise Discard()


@patient(15)
def check_round(case):
    try:
        e = latex2sympy(case["tex"])
    except Exception:
        raise Discard()
    if e is None or unsupported(e) or "\\variable" in case["tex"]:
        raise Discard()
    round_trip(e, case["tex"])
    return [case["kind"]]


@patient(15)
def check_built(case):
    try:
        es = [P11.build(t, case["auto"]) for t in case["trees"]]
        e = es[0] if len(es) == 1 else sympy.Eq(*es, evaluate=False)
    except (ValueError, TypeError, NotImplementedError, AttributeError):
        raise Discard()
    if unsupported(e) or e.has(sympy.AccumBounds):
        raise Discard()
    round_trip(e, "built " + sympy.srepr(e))
    return ["automatic" if case["auto"] else "unevaluated"]


# ---------------------------------------------------------------- latex2latex
def to_latex(tex):
    try:
        return latex2latex(tex)
    except RecursionError as x:
        # sympy's own evaluation and simplification may recurse without end; the printer may not
        if "/printing/" in "".join(f.filename for f in traceback.extract_tb(x.__traceback__)[-60:]):
            raise Violation("latex2latex(%r) fails: endless recursion in the printer" % tex)
        raise Discard()
    except Exception as x:
        raise Violation("latex2latex(%r) fails: %s: %s" % (tex, type(x).__name__, x))


def reread(tex, out):
    try:
        return latex2sympy(out)
    except Exception as x:
        raise Violation("latex2latex(%r) gives %r, which is not read: %s" % (tex, out, str(x)[:120]))


@st.composite
def value_case(draw):
    if draw(st.integers(0, 3)) == 0:
        a = draw(arith(2))
        return {"tex": a.tex, "val": str(a.val)}
    f = draw(fexpr(draw(st.sampled_from([1, 1, 2]))))
    return {"tex": f.tex, "tree": f.tree}


@patient(15)
def check_value(case):
    from vf.same import same
    out = to_latex(case["tex"])
    back = reread(case["tex"], out)
    what = "latex2latex gives %r," % out
    if "val" in case:
        if ev.exact(back) != Fraction(case["val"]):
            raise Violation("%r: %s value %s, expected %s" % (case["tex"], what, back, case["val"]))
        return ["arithmetic"]
    if unsupported(back) or sympy.Symbol("i") in getattr(back, "free_symbols", ()):      # the imaginary unit is printed i; the reference is real
        raise Discard()
    if not same(case["tex"], back, case["tree"], what):
        raise Discard()
    return ["functions"]


COEF = st.integers(-4, 5)


def poly(cs, v):
    terms = ["%d%s^{%d}" % (c, v, i) if i else str(c) for i, c in enumerate(cs) if c]
    return "+".join(terms).replace("+-", "-") or "0"


@st.composite
def closed_case(draw):
    kind = draw(st.sampled_from(["diff", "int", "sum", "prod", "sumn", "lim", "frac"]))
    return {"kind": kind, "cs": draw(st.lists(COEF, min_size=1, max_size=4)), "v": draw(st.sampled_from(["x", "t", "k", "\\theta"])),
            "lo": draw(st.integers(-2, 2)), "n": draw(st.integers(0, 3)), "f": draw(st.sampled_from(["\\frac", "\\dfrac", "\\tfrac"]))}


@patient(15)
def check_closed(case):
    kind, cs, v, lo, n = (case[k] for k in ("kind", "cs", "v", "lo", "n"))
    body, hi = "(%s)" % poly(cs, v), lo + n
    p = lambda c, x: sum((Fraction(a) * x ** i for i, a in enumerate(c)), Fraction(0))
    integ = [Fraction(0)] + [Fraction(c, i + 1) for i, c in enumerate(cs)]
    if kind == "diff":
        tex, want = "%s{d}{d%s}%s" % (case["f"], v, body), lambda x: p([c * i for i, c in enumerate(cs)][1:], x)
    elif kind == "int":
        tex, want = "\\int_{%d}^{%d}%sd%s" % (lo, hi, body, v), lambda x: p(integ, Fraction(hi)) - p(integ, Fraction(lo))
    elif kind == "sum":
        tex, want = "\\sum_{%s=%d}^{%d}%s" % (v, lo, hi, body), lambda x: sum(p(cs, Fraction(k)) for k in range(lo, hi + 1))
    elif kind == "prod":
        tex = "\\prod_{%s=%d}^{%d}%s" % (v, lo, hi, body)

        def want(x):
            r = Fraction(1)
            for k in range(lo, hi + 1):
                r *= p(cs, Fraction(k))
            return r
    elif kind == "sumn":
        tex, want = "\\sum_{%s=1}^{m}%s" % (v, body), None
    elif kind == "lim":
        tex, want = "\\lim_{%s\\to %d}%s" % (v, lo, body), lambda x: p(cs, Fraction(lo))
    else:
        tex, want = "%s{%s}{%d}" % (case["f"], poly(cs, v), n + 1), lambda x: p(cs, x) / (n + 1)
    out = to_latex(tex)
    back = reread(tex, out)
    # exponents are read as they stand; 0^0 is 1 in polynomials
    if kind == "sumn":
        for m in (1, 2, 5):
            got, w = ev.exact(back.subs(sympy.Symbol("m"), m).doit()), sum(p(cs, Fraction(k)) for k in range(1, m + 1))
            if got != w:
                raise Violation("latex2latex(%r) gives %r: value %s at m=%d, expected %s" % (tex, out, got, m, w))
        return [kind]
    for x in (Fraction(1, 3), Fraction(-2), Fraction(7, 5)):
        s = sympy.Symbol(v.strip("\\"))
        free = getattr(back, "free_symbols", set())
        if not free <= {s} or kind not in ("diff", "frac") and free:
            raise Violation("latex2latex(%r) gives %r with the names %s" % (tex, out, free))
        got = ev.exact(back.subs(s, sympy.Rational(x.numerator, x.denominator)).doit())
        if got != want(x):
            raise Violation("latex2latex(%r) gives %r: value %s at %s, expected %s" % (tex, out, got, x, want(x)))
    return [kind]


# ---------------------------------------------------------------- fraction style
@st.composite
def style_case(draw):
    seq = []
    for _ in range(draw(st.integers(1, 6))):
        f = draw(st.sampled_from([None, "\\frac", "\\dfrac", "\\tfrac"]))
        a, b = draw(st.integers(1, 9)), draw(st.integers(2, 9))
        seq.append([f, (f + "{%d}{%d}" % (a, b) if f else "") + draw(st.sampled_from(["x", "x+1", "\\sin(x)", "x y", "\\sqrt{x}", "(x+%s{x}{y})" % f if f else "z"])), draw(st.sampled_from(["latex", "latex2latex"]))])
    return {"seq": seq, "a": draw(st.sampled_from(["x/y", "3/7", "x^{-2}", "(x+1)/5 + y/3"]))}


def check_style(case):
    cur = None
    for f, tex, how in case["seq"]:
        cur = f or cur
        outs = []
        if how == "latex2latex":
            outs.append((tex, to_latex(tex)))
        else:
            outs.append((tex, latex(parse(tex))))
        # a result computed from something without fractions of its own
        outs.append((case["a"], latex2latex(case["a"])))
        outs.append((case["a"], latex(parse(case["a"]))))
        for t, out in outs:
            used = set(re.findall(r"\\[dt]?frac", out))
            if cur and not used <= {cur} or len(used) > 1:
                raise Violation("after the inputs %s, %r is printed as %r; the last fraction style is %s" % ([s[1] for s in case["seq"]], t, out, cur))
    if cur is None:
        raise Discard()
    return ["%d inputs" % len(case["seq"])]


SUBS = [
    Sub("round", check_round, lambda: gen_all.text(2), nontrivial=lambda c: len(c["tex"]) >= 4, quick=700),
    Sub("built", check_built, P11.built, nontrivial=lambda c: sum(P11.size(t) for t in c["trees"]) >= 4, quick=500),
    Sub("value", check_value, value_case, nontrivial=lambda c: len(c["tex"]) >= 4, quick=250),
    Sub("closed", check_closed, closed_case, nontrivial=lambda c: len(c["cs"]) > 1, quick=200),
    Sub("style", check_style, style_case, nontrivial=lambda c: len(c["seq"]) > 1, quick=60),
]
