"""Symbolic answers match exactly when they are equal."""
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_sym as g, mtree
from vf.texout import text

PROPERTY = "E03"
RULE = ("equal: pairs of expressions in 1-3 of 14 variables related by an algebraic law (product of polynomials and its expansion or "
        "Horner form, sums of fractions over a common denominator, cancelled or nested fractions, 27 trigonometric, logarithm, "
        "exponential, root and power laws under random contexts, or the same tree), each side written in LaTeX independently "
        "(term and factor order, fraction style, juxtaposition or explicit product, roots or fractional exponents); the pair is "
        "cross-checked at random points in 40-digit arithmetic and must match both ways round. different: one side mutated at a "
        "random node (coefficient, sign, exponent, constant, function, variable, dropped term or factor, inverted quotient) so that "
        "the two differ far beyond tolerance at >= 75% of sample points; must not match either way. Non-trivial: the texts differ.")


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"])
    expect_equiv(case["b"], case["a"], case["want"])
    return ["match" if case["want"] else "differ"]


@st.composite
def equal(draw):
    l, r = draw(g.equal_pair())
    if not g.agree(l, r):
        return None
    return {"a": text(draw, l), "b": text(draw, r), "want": True}


@st.composite
def different(draw):
    l, r = draw(g.equal_pair())
    for _ in range(4):
        m = draw(g.mutate(r))
        if g.differ_clearly(l, m):
            return {"a": text(draw, l), "b": text(draw, m), "want": False}
    return None


SUBS = [
    Sub("equal", check_pair, lambda: equal().filter(bool), nontrivial=lambda c: c["a"] != c["b"], quick=500, chunk=25),
    Sub("different", check_pair, lambda: different().filter(bool), nontrivial=lambda c: c["a"] != c["b"], quick=500, chunk=25),
]
