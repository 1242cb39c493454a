"""Comparison treats both answers alike: symmetric, and answers matching a common third match each other."""
import re
from hypothesis import strategies as st
from vf.repo import *
from vf.pairs import pair, EXACT
from vf.checks.E14 import edit, data
from vf import gen_ans as g

PROPERTY = "E17"
RULE = ("symmetric: pairs of exact answers (integers, fractions, surds, multiples of pi, exact expressions, tuples, sets, nested collections, intervals, matrices, "
        "relations, complex numbers) of the same or of different kinds, including crossed kinds (a matrix against a list, an interval "
        "against a tuple, a number against a relation): the verdict is the same in both orders, typed and untyped. triple: three spellings a, b, c where b and c are "
        "independent respellings or cosmetic edits of a, or one of them a clearly different answer: when two of the three pairs match, the third "
        "does. Non-trivial: the texts differ pairwise.")
CROSS = ["1", "\\frac{1}{2}", "x", "x=1", "1=x", "(1,2)", "[1,2]", "\\{1,2\\}", "1,2", "(1,2]", "[1,2)", "\\begin{pmatrix}1\\\\2\\end{pmatrix}", "\\begin{pmatrix}1&2\\end{pmatrix}", "x<1", "1>x",
         "x\\ne 1", "y=x", "f(x)=x", "\\{1\\}", "(1)", "[1]", "\\sqrt{2}", "1+i", "i", "\\emptyset", "(-\\infty,1)", "[1,2]\\cup[3,4]", "\\begin{pmatrix}1\\end{pmatrix}", "2,1", "(2,1)",
         "x+y=1", "1-x=y", "\\pi", "\\text{A}", "(1,2),(3,4)", "\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}", "[[1,2],[3,4]]", "x\\le 1", "\\infty", "-\\infty", "a,b", "(a,b)", "ab", "ba", "x^2", "2^x"]


def check_symmetric(case):
    a, b = case["a"], case["b"]
    r, s = bool(equiv(a, b)), bool(equiv(b, a))
    if r is not s:
        raise Violation("is_equiv(%r, %r) = %r but the other way round %r" % (a, b, r, s))
    if case.get("label"):
        r, s = bool(equiv_type(a, b, case["label"])), bool(equiv_type(b, a, case["label"]))
        if r is not s:
            raise Violation("is_equiv_type(%r, %r, %r) = %r but the other way round %r" % (a, b, case["label"], r, s))
    return [case["src"], "match" if r else "no match"]


def thousands(*texts):
    return any(re.search(r"\d, ?\d{3}", t) for t in texts)


@st.composite
def symmetric(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        a = draw(st.one_of(st.sampled_from(CROSS), pair(EXACT).map(lambda c: c["a"])))
        b = draw(st.one_of(st.sampled_from(CROSS), st.sampled_from(CROSS), pair(EXACT).map(lambda c: c["b"])))
        return {"a": a, "b": b, "src": "crossed"}
    if k == 1:
        a = draw(st.sampled_from(data()["rich"]))
        if "." in a or "\\%" in a:
            a = "\\frac{3}{7}"
        return {"a": a, "b": edit(draw, a), "src": "annotated"}
    c = draw(pair(EXACT))
    label = draw(st.sampled_from([None, None, "Set", "Vector", "Complex", "Matrix"]))
    return {"a": c["a"], "b": c["b"], "src": c["src"], "label": label}


def check_triple(case):
    t = case["t"]
    v = [bool(equiv(t[i], t[j])) for i, j in ((0, 1), (0, 2), (1, 2))]
    if sum(v) == 2:
        raise Violation("of (%r, %r, %r) two pairs match and one does not: 1~2 %r, 1~3 %r, 2~3 %r" % (*t, *v))
    return [case["src"], "%d of 3 match" % sum(v)]


@st.composite
def triple(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        n = draw(g.exact_small())
        t = [g.spell(draw, n, True, False) for _ in range(3)]
        if draw(st.integers(0, 3)) == 0:
            m = draw(g.mutant(n))
            if not g.clear(n, m) or not g.clear(m, n):
                return None
            t[draw(st.integers(0, 2))] = g.spell(draw, m, True, False)
        src = "number"
    elif k == 1:
        a = draw(st.sampled_from(data()["rich"]))
        if "." in a or "\\%" in a:
            return None
        t, src = [a, edit(draw, a), edit(draw, a)], "annotated"
    else:
        c = draw(pair(EXACT))
        t, src = [c["a"], c["b"], draw(st.sampled_from([c["a"], c["b"]]))], c["src"]
        t[2] = edit(draw, t[2])
        t = list(draw(st.permutations(t)))
    return {"t": t, "src": src}


SUBS = [
    Sub("symmetric", check_symmetric, symmetric, nontrivial=lambda c: c["a"].strip() != c["b"].strip(), quick=960, chunk=60),
    Sub("triple", check_triple, lambda: triple().filter(bool), nontrivial=lambda c: len(set(c["t"])) == 3, quick=480, chunk=30),
]
