"""Arithmetic LaTeX denotes its exact value."""
from fractions import Fraction
from vf.repo import *
from vf import ev
from hypothesis import strategies as st
from vf.gen_arith import arith_case
import re

PROPERTY = "P01"
RULE = ("random arithmetic trees (depth 3 and 5) rendered to LaTeX in a random written form of every construct the grammar "
        "documents (literal forms, operators, delimiters, fraction forms, functions) with a reference value computed exactly in "
        "Python Fractions while the tree is built; the parsed tree is walked node by node with exact rules and must give that "
        "fraction. 'gaussian' does the same over Gaussian rationals with the imaginary unit. Non-trivial: at least two operators "
        "or commands in the text.")


def check(case):
    r = parse(case["tex"])
    ev.same_fraction(case["tex"], r, Fraction(case["value"]))
    labs = []
    for name, pat in _LABELS:
        if re.search(pat, case["tex"]):
            labs.append(name)
    return labs


_LABELS = [("frac", r"frac|over"), ("pow", r"\^"), ("fact", "!"), ("group", r"[(\[{]"), ("div", r"/|\\div|:"),
           ("mod", "mod"), ("abs", r"\||vert"), ("floor/ceil", "floor|ceil|corner"), ("multi", "gcd|lcm|max|min"),
           ("binom", "binom|choose"), ("decimal", r"\."), ("comma", r"\d,\d"), ("enot", r"\dE"), ("percent", "%"),
           ("juxtapose", r"\)\s*\(|\d\s*\("), ("sign", r"(^|[(+*-])\s*-")]


def nontrivial(case):
    return len(re.findall(r"[+*/:^!-]|\\[a-zA-Z]+", case["tex"])) >= 2


# ---- arithmetic with the imaginary unit
@st.composite
def gexpr(draw, depth):
    """-> (tex, level, (a, b)) over Gaussian rationals; level as in gen_arith"""
    if depth <= 0:
        k = draw(st.integers(0, 4))
        n = draw(st.integers(0, 12))
        if k <= 1:
            return "I", 5, ev.G(0, 1)
        if k == 2:
            return "%dI" % n, 3, ev.G(0, n)
        if k == 3:
            m = draw(st.integers(1, 9))
            return "\\frac{%d}{%d}" % (n, m), 5, ev.G(Fraction(n, m))
        return str(n), 5, ev.G(n)
    k = draw(st.integers(0, 7))
    if k == 0:
        return draw(gexpr(0))
    t, l, v = draw(gexpr(depth - 1))
    par = lambda t, l, need: t if l >= need else "(" + t + ")"
    if k == 1:
        return "-" + par(t, l, 3), 2, -v
    if k == 2:
        n = draw(st.integers(0, 5))
        return (par(t, l, 5) + "^" + draw(st.sampled_from(["%d", "{%d}"])) % n), 4, v.pow(n)
    u, m, w = draw(gexpr(depth - 1))
    if k in (3, 4):
        if draw(st.booleans()):
            return t + "+" + par(u, m, 1), 0, v + w
        return t + "-" + par(u, m, 1), 0, v + (-w)
    if k == 5:
        return par(t, l, 1) + draw(st.sampled_from(["\\cdot ", "*"])) + par(u, m, 3), 1, v * w
    if k == 6:
        # a letter directly before "(" is function application in this grammar
        return par(t, 0 if re.search(r"I(\^\{?\d+\}?)?$", t) else l, 4) + "(" + u + ")", 3, v * w
    if w == ev.G(0):
        return t, l, v
    return "\\frac{%s}{%s}" % (t, u), 5, v * w.inv()


def to_gauss(x):
    return {"tex": x[0], "re": str(x[2].a), "im": str(x[2].b)}


def check_gauss(case):
    got = parse(case["tex"])
    want = ev.G(Fraction(case["re"]), Fraction(case["im"]))
    try:
        v = ev.exactc(got)
    except ZeroDivisionError:
        raise Violation("%r parsed to %s, expected %s" % (case["tex"], got, want))
    except ev.Inexact as e:
        raise Violation("%r parsed to %s, expected %s (%s)" % (case["tex"], got, want, e))
    if not v == want:
        raise Violation("%r parsed to %s = %s, expected %s" % (case["tex"], got, v, want))


SUBS = [
    Sub("gaussian", check_gauss, lambda: gexpr(3).map(to_gauss), nontrivial=lambda c: c["im"] != "0", quick=500),
    Sub("value", check, lambda: arith_case(3), nontrivial=nontrivial, quick=2000),
    Sub("value_deep", check, lambda: arith_case(5), nontrivial=nontrivial, quick=300),
]
