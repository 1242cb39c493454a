"""Well-formed texts over the whole language: {"tex", "kind"}; used by the metamorphic checks."""
from fractions import Fraction
from hypothesis import strategies as st
from vf.gen_func import fexpr
from vf import gen_arith, gen_calc, gen_mat

OPS = ["=", " = ", "<", ">", " \\le ", "\\leq ", "\\geq ", "\\ge ", "\\ne ", "\\neq ", "=="]
DELIMS = [("", ""), ("[", "]"), ("{", "}"), ("\\{", "\\}"), ("\\left[", "\\right]"), ("\\left\\{", "\\right\\}")]


@st.composite
def member(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.sampled_from(["x", "2", "-3", "\\frac{1}{2}", "y^2", "2x", "\\sqrt{3}", "\\pi", "a_1"]))
    return draw(fexpr(1)).tex


@st.composite
def relation(draw):
    return draw(member()) + draw(st.sampled_from(OPS)) + draw(member())


@st.composite
def lists(draw):
    ms = draw(st.lists(st.one_of(member(), relation()), min_size=2, max_size=4))
    o, c = draw(st.sampled_from(DELIMS))
    return o + draw(st.sampled_from([", ", ";", " ; "])).join(ms) + c


@st.composite
def misc(draw):
    x, n = draw(st.sampled_from(["x", "y", "t"])), draw(st.integers(0, 12))
    return draw(st.sampled_from([
        "f(%s)" % x, "f(%s,%d)" % (x, n), "\\hat{%s}+%d" % (x, n), "\\overline{%s}" % x, "\\mathit{abc}%s" % x, "x_{%d}^{2}" % n, "%d!" % n, "(%s+1)!" % x, "%d\\%%" % n,
        "\\frac12%s" % x, "\\sqrt%d" % (n % 10), "\\sqrt[3]{%s}" % x, "%d.5E-3" % n, "\\|%s\\|" % x, "(%d)_{2}" % n, "\\operatorname{gcd}(%d,8)" % n, "\\max(%s,%d,2)" % (x, n),
        "e^{%s}" % x, "\\exp(%s)" % x, "\\variable{a}+%s" % x, "\\begin{vmatrix}1&%s\\\\3&%d\\end{vmatrix}" % (x, n), "%s \\mod %d" % (x, n + 1), "%s:%d" % (x, n + 1), "%s\\over %d" % (x, n + 1),
        "%s^2|_{%s=%d}" % (x, x, n), "\\alpha %s+\\Gamma" % x, "-%s+-%d" % (x, n), "%s'" % x, "|%s-%d|" % (x, n), "\\lvert %s\\rvert " % x, "\\log_{%d}%s" % (n + 2, x), "\\sin^{2}(%s)" % x, "\\sin^{-1}%s" % x,
        "\\text{%s}" % x, "\\theta_{%s}" % x, "{%s}^{%d}" % (x, n), "%s^{%d}_{1}" % (x, n)]))


def slow(t):
    """a sum or product to a bound such as pi or an infinite product: sympy itself needs minutes to order the terms next to it"""
    if not isinstance(t, list) or not t:
        return False
    if t[0] == "prod" and ("inf" in str(t[3:])):
        return True
    if t[0] in ("sum", "prod") and any(b[0] in ("pi", "e") or b[0] in "+-*/^" and not any("sym" == x[0] for x in b[1:] if isinstance(x, list)) or b[0] == "num" and Fraction(b[1]).denominator > 1
                                       for b in t[3:]):
        return True
    return any(slow(x) for x in t)


@st.composite
def text(draw, depth=2, kinds=None):
    """{"tex", "kind"}"""
    kind = draw(st.sampled_from(kinds or ["func", "func", "arith", "relation", "list", "calc", "calc", "matrix", "matrix", "scalar", "misc", "misc"]))
    if kind == "func":
        t = draw(fexpr(depth)).tex
    elif kind == "arith":
        t = draw(gen_arith.expr(depth)).tex
    elif kind == "relation":
        t = draw(relation())
    elif kind == "list":
        t = draw(lists())
    elif kind == "calc":
        f = draw((gen_calc.expression(depth - 1) if draw(st.booleans()) else gen_calc.calc(depth - 1)).filter(lambda f: not slow(f.tree)))
        t = f.tex
    elif kind == "matrix":
        t = draw(gen_mat.matrix(draw(st.integers(1, 3)), draw(st.integers(1, 3)), depth - 1)).tex
    elif kind == "scalar":
        t = draw(gen_mat.scalar(1))[0]
    else:
        t = draw(misc())
    return {"tex": t, "kind": kind}
