"""Equal numbers match in any notation, unequal ones never."""
from fractions import Fraction
import mpmath
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_ans as g

PROPERTY = "E02"
RULE = ("same: a number (integer up to 25 digits, fraction, decimal, surd r+c*sqrt(d), multiple of pi) in two independently drawn "
        "notations must match both ways round; differ: the number and a mutant of it (sign, off by one, digit changed, digits "
        "transposed, decimal point moved, numerator/denominator changed or swapped, radicand or coefficient changed, ...) that is "
        "beyond the documented tolerance by exact arithmetic must not match either way; round: decimal roundings well inside the "
        "tolerance match, well outside do not; arith: arithmetic expressions (sums, products, quotients, powers, roots) against "
        "the number they are worth, or a mutant. Non-trivial: the two texts differ after removing spaces and dollar signs.")


def check_pair(case):
    a, b, want = case["a"], case["b"], case["want"]
    expect_equiv(a, b, want)
    expect_equiv(b, a, want)
    return [case.get("how", ""), "match" if want else "differ"]


def nontrivial(case):
    f = lambda s: s.replace(" ", "").replace("$", "")
    return f(case["a"]) != f(case["b"])


@st.composite
def same(draw):
    n = draw(g.number())
    return {"a": g.spell(draw, n), "b": g.spell(draw, n), "want": True, "how": kind(n)}


def kind(n):
    if n.rational:
        return "integer" if n.r.denominator == 1 else "fraction"
    return "pi" if n.d == 0 else "surd"


@st.composite
def differ(draw):
    n = draw(g.number())
    m = draw(g.mutant(n))
    for _ in range(4):
        if g.clear(n, m):
            break
        m = draw(g.mutant(n))
    else:
        m = g.N(n.r + 2, n.c, n.d)
    return {"a": g.spell(draw, n), "b": g.spell(draw, m), "want": False, "how": kind(n)}


@st.composite
def rounding(draw):
    n = draw(g.number().filter(lambda n: abs(n.val()) < 10 ** 6 and n.val() != 0))
    v = n.val()
    digs = draw(st.integers(1, 8))
    scale = mpmath.mpf(10) ** digs
    w = mpmath.nint(v * scale) / scale
    if draw(st.booleans()):
        w = w + draw(st.integers(-30, 30)) / scale
    if g.near_val(v, w):
        want = True
    elif g.clear_val(v, w):
        want = False
    else:
        w = mpmath.nint(v * 10 ** 9) / mpmath.mpf(10) ** 9
        want = g.near_val(v, w)
        if not want and not g.clear_val(v, w):
            return None
    t = mpmath.nstr(w, 30, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
    # decimals are read as floats or exactly, either way far below the margin
    return {"a": g.spell(draw, n, rounding=False), "b": t, "want": want, "how": kind(n)}


class X:
    def __init__(self, tex, val, lvl):
        self.tex, self.val, self.lvl = tex, Fraction(val), lvl    # 0 sum, 1 product, 2 atom


def par(x):
    return X("(" + x.tex + ")", x.val, 2)


@st.composite
def arith(draw, depth=None):
    if depth is None:
        depth = draw(st.integers(1, 3))
    if depth == 0:
        n = draw(st.integers(0, 30))
        return X(str(n), n, 2)
    k = draw(st.sampled_from(["+", "-", "+", "-", "*", "*", "f", "f", "^", "r", "par", "neg", "/"]))
    a = draw(arith(depth - 1))
    if k in "+-":
        b = draw(arith(draw(st.integers(0, depth - 1))))
        if b.tex.startswith("-") or b.lvl == 0:
            b = par(b)
        return X(a.tex + k + b.tex, a.val + b.val if k == "+" else a.val - b.val, 0)
    if k == "*":
        b = draw(arith(draw(st.integers(0, depth - 1))))
        a = a if a.lvl >= 1 and not a.tex.startswith("-") else par(a)
        b = b if b.lvl >= 2 else par(b)
        return X(a.tex + draw(st.sampled_from(g.MUL)) + b.tex, a.val * b.val, 1)
    if k == "f":
        b = draw(arith(draw(st.integers(0, depth - 1))))
        if b.val == 0:
            b = X("7", 7, 2)
        return X("%s{%s}{%s}" % (draw(st.sampled_from(g.FRACS)), a.tex, b.tex), a.val / b.val, 1)
    if k == "/":
        b = draw(arith(draw(st.integers(0, depth - 1))))
        if b.val == 0:
            b = X("3", 3, 2)
        return X(par(a).tex + "/" + par(b).tex, a.val / b.val, 1)
    if k == "^":
        e = draw(st.integers(0, 4))
        if abs(a.val) > 10 ** 5 or a.val == 0:
            a = X("2", 2, 2)
        if not a.tex.isdigit():
            a = par(a)
        if draw(st.integers(0, 3)) == 0 and a.val:
            return X(a.tex + "^{-%d}" % e, a.val ** -e, 2)
        return X(a.tex + draw(st.sampled_from(["^%d", "^{%d}"])) % e, a.val ** e, 2)
    if k == "r":
        n = draw(st.integers(0, 60))
        if draw(st.integers(0, 2)) == 0:
            return X("\\sqrt[3]{%d}" % n ** 3, n, 2)
        return X("\\sqrt{%d}" % (n * n), n, 2)
    if k == "par":
        return X("\\left(" + a.tex + "\\right)", a.val, 2)
    if a.lvl == 0 or a.tex.startswith("-"):
        a = par(a)
    return X("-" + a.tex, -a.val, 0)


@st.composite
def arith_pair(draw):
    x = draw(arith().filter(lambda x: abs(x.val) < 10 ** 12 and x.val.denominator < 10 ** 9))
    n = g.N(x.val)
    if draw(st.booleans()):
        return {"a": x.tex, "b": g.spell(draw, n), "want": True, "how": kind(n)}
    m = draw(g.mutant(n))
    if not g.clear(n, m):
        m = g.N(n.r + 1)
        if not g.clear(n, m):
            m = g.N(2 * n.r)
    return {"a": x.tex, "b": g.spell(draw, m), "want": False, "how": kind(n)}


SUBS = [
    Sub("same", check_pair, same, nontrivial=nontrivial, quick=1200, chunk=50),
    Sub("differ", check_pair, differ, nontrivial=nontrivial, quick=1200, chunk=50),
    Sub("round", check_pair, lambda: rounding().filter(lambda c: c), nontrivial=nontrivial, quick=500, chunk=40),
    Sub("arith", check_pair, arith_pair, nontrivial=nontrivial, quick=500, chunk=40),
]
