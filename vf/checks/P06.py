"""Calculus notation denotes its operator."""
from fractions import Fraction
from hypothesis import strategies as st
from vf.repo import *
from vf import textoks, mtree, ev, gen_calc
from vf.same import same, symbol

PROPERTY = "P06"
RULE = ("one: a single derivative (operator, quotient, nested, d / \\mathrm{d} / \\partial, indexed and Greek variables), integral (indefinite, bounds in "
        "either order and empty bounds, differential last, first, in a numerator or missing, nested), sum, product, limit (all arrows, one-sided, "
        "infinite) or evaluation bar over generated products and sums of powers, fractions, roots and functions. expr: such terms inside of "
        "sums, products, fractions, powers and each other. The parse is compared with the generator's tree at up to three points: both are "
        "evaluated by independent walks in which an operator is replaced by a numeric surrogate that depends on its kind, variable, bounds, "
        "direction and body (finite sums and products exactly). values: operators over random polynomials, evaluated with doit(), against the "
        "exact value in Fractions. Non-trivial: one: all; expr: at least two operators; values: at least two terms.")


def strip_dir(t):
    """choices of the direction of an unmarked limit"""
    if not isinstance(t, list):
        return [t]
    if t[0] == "lim" and t[4] is None:
        return [["lim", b, t[2], p, d] for b in strip_dir(t[1]) for p in strip_dir(t[3]) for d in "+-"]
    outs = [[]]
    for x in t:
        outs = [o + [y] for o in outs for y in strip_dir(x)]
        if len(outs) > 16:
            return outs[:16]
    return outs


def kinds(t, acc):
    if isinstance(t, list):
        if t[0] in mtree.BIND:
            acc.append(t[0])
        for x in t[1:]:
            kinds(x, acc)
    return acc


def check(case):
    tex = case["tex"]
    r = parse(tex)
    fail = None
    n = 0
    for tree in strip_dir(case["tree"]):
        try:
            n = same(tex, r, tree)
            fail = None
            break
        except Violation as e:
            fail = fail or e
    if fail:
        raise fail
    if not n:
        raise Discard()
    return sorted(set(kinds(case["tree"], [])))


def to_case(f):
    return {"tex": f.tex, "tree": one_name(f.tree)}


def one_name(tree):
    """x_{1} and x_1 are one variable"""
    if isinstance(tree, list):
        return [one_name(t) for t in tree]
    return "x_1" if tree == "x_{1}" else tree


@st.composite
def with_d(draw):
    """a constant called d"""
    f = draw(gen_calc.expression(1))
    old = draw(st.sampled_from(["a", "b", "c"]))
    tex = textoks.variable_d(f.tex, old)
    return None if tex is None else {"tex": tex, "tree": one_name(rename(f.tree, old))}


def rename(tree, old):
    if isinstance(tree, list):
        return ["sym", "d"] if tree == ["sym", old] else [rename(t, old) for t in tree]
    return tree


@st.composite
def one_integral(draw, depth=0):
    """an integral that ends in its differential, also iterated"""
    v = draw(st.sampled_from(gen_calc.DV))
    t, tree = draw(gen_calc.poly(v))
    if depth and draw(st.integers(0, 2)) == 0:
        f = draw(several(0))
        t, tree = ("(" + f.tex + ")" if draw(st.booleans()) else f.tex), f.tree
    if draw(st.integers(0, 3)) == 0:
        c = draw(st.sampled_from(["2", "a", "3b"]))
        t, tree = c + "(" + t + ")", ["*", ["num", "3"] if c == "3b" else ["num", "2"] if c == "2" else ["sym", "a"], tree]
        if c == "3b":
            tree = ["*", ["num", "3"], ["sym", "b"], tree[2]]
        if c != "2":
            t = t.replace("(", "\\cdot (", 1)
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        w = v if i == 0 else draw(st.sampled_from(gen_calc.DV))
        head, lo, hi = "", None, None
        if draw(st.booleans()):
            (a, lo), (b, hi) = draw(gen_calc.bound(avoid=(w,), inf=False)), draw(gen_calc.bound(avoid=(w,), inf=False))
            head = gen_calc.bounds(draw, a, b)
        t = "\\int" + head + " " + t + draw(st.sampled_from([" ", "\\,"])) + gen_calc.d_(draw, w)
        tree = ["iint", tree, w, lo, hi] if lo else ["int", tree, w]
    return gen_calc.F(t, tree, 4, True)


@st.composite
def several(draw, depth=1):
    """integrals one after another: each ends at its own differential"""
    f = draw(one_integral(depth))
    tex, tree = f.tex, f.tree
    for _ in range(draw(st.integers(1, 2))):
        g = draw(one_integral(0))
        op = draw(st.sampled_from(["+", "-", "+", " + ", "\\cdot ", "+2"]))
        if op == "\\cdot ":
            if tree[0] in "+-":
                tex = "(" + tex + ")"
            tex, tree = tex + op + g.tex, ["*", tree, g.tree]
        elif op == "+2":
            tex, tree = tex + op + g.tex, ["+", tree, ["*", ["num", "2"], g.tree]]
        else:
            tex, tree = tex + op + g.tex, [op.strip(), tree, g.tree]
    k = draw(st.integers(0, 5))
    if k == 0:
        tex, tree = "\\frac{%s}{3}" % tex, ["/", tree, ["num", "3"]]
    elif k == 1:
        tex, tree = "a+" + tex, ["+", ["sym", "a"], tree] if tree[0] not in "+-" else ["+", tree, ["sym", "a"]]
    elif k == 2:
        tex, tree = tex + "+7", ["+", tree, ["num", "7"]]
    return gen_calc.F(tex, tree, 0, True)


@st.composite
def values(draw):
    """polynomial bodies whose value is computed with Fractions"""
    kind = draw(st.sampled_from(["int", "sum", "prod", "diff", "lim", "hole"]))
    v = draw(st.sampled_from(["x", "t", "k", "\\theta"]))
    cs = draw(st.lists(st.integers(-6, 6), min_size=1, max_size=4))
    lo, hi = draw(st.integers(-4, 4)), draw(st.integers(-2, 6))
    if kind in ("sum", "prod") and hi < lo:
        lo, hi = hi, lo
    if kind == "sum":                                # sympy 1.12 recurses forever on some sums from negative starts (Sum(2*x**3, (x, -1, 0)))
        lo, hi = abs(lo), abs(lo) + abs(hi)
    form = draw(st.integers(0, 3))
    return {"kind": kind, "v": v, "cs": cs, "lo": lo, "hi": hi, "form": form}


def poly_tex(cs, v):
    out = ""
    for i, c in enumerate(cs):
        if c == 0 and len(cs) > 1:
            continue
        m = "" if i == 0 else v if i == 1 else "%s^%d" % (v, i)
        s = str(c) if not m or abs(c) != 1 else "-" if c < 0 else ""
        out += ("+" if out and not s.startswith("-") else "") + s + m
    return out or "0"


def poly_val(cs, x):
    return sum((Fraction(c) * x ** i for i, c in enumerate(cs)), Fraction(0))


def check_values(case):
    cs, v, lo, hi, k, form = case["cs"], case["v"], case["lo"], case["hi"], case["kind"], case["form"]
    body = poly_tex(cs, v)
    sub, sup = "_{%d}" % lo, "^{%d}" % hi
    if k == "int":
        F = [Fraction(0)] + [Fraction(c, i + 1) for i, c in enumerate(cs)]
        want = poly_val(F, Fraction(hi)) - poly_val(F, Fraction(lo))
        d = ["d", "\\mathrm{d}", "\\,d", " {\\rm d}"][form]
        tex = "\\int%s%s (%s)%s%s" % (*((sub, sup) if form < 2 else (sup, sub)), body, d, v)
    elif k in ("sum", "prod"):
        vs = [poly_val(cs, Fraction(i)) for i in range(lo, hi + 1)]
        want = sum(vs, Fraction(0))
        if k == "prod":
            want = Fraction(1)
            for x in vs:
                want *= x
        a, b = "_{%s=%d}" % (v, lo), sup
        tex = "\\%s%s%s (%s)" % (k, *((a, b) if form < 2 else (b, a)), body)
    elif k == "diff":
        want = sum((Fraction(c * i) * Fraction(lo) ** (i - 1) for i, c in enumerate(cs) if i), Fraction(0))
        tex = ["\\frac{d}{d%s}(%s)" % (v, body), "\\frac{d(%s)}{d%s}" % (body, v), "\\frac{\\partial}{\\partial %s}(%s)" % (v, body),
               "\\frac{\\mathrm{d}(%s)}{\\mathrm{d}%s}|_{%s=%d}" % (body, v, v, lo)][form]
    elif k == "lim":
        want = poly_val(cs, Fraction(lo))
        tex = "\\lim_{%s%s %d%s}(%s)" % (v, ["\\to", "\\rightarrow"][form % 2], lo, ["", "^{+}", "^{-}", ""][form], body)
    else:                                            # (v-lo) p(v) / (v-lo) at lo, or the jump of |v-lo|/(v-lo)
        want = poly_val(cs, Fraction(lo))
        f = "(%s%s%d)" % (v, "-" if lo >= 0 else "+", abs(lo))
        tex = "\\lim_{%s\\to %d%s}\\frac{%s(%s)}{%s}" % (v, lo, ["", "^{+}", "^{-}", ""][form], f, body, f)
    r = parse(tex)
    try:
        got = r.doit()
    except Exception as e:
        raise Violation("%r parsed to %s which cannot be evaluated: %s: %s" % (tex, r, type(e).__name__, e))
    if k == "diff":
        (s,) = [symbol(v)]
        got = got.doit().subs(s, lo).doit()
    ev.same_fraction(tex, got, want)
    return [k]


SUBS = [
    Sub("one", check, lambda: gen_calc.calc(0).map(to_case), quick=800),
    Sub("expr", check, lambda: gen_calc.expression(2).map(to_case), nontrivial=lambda c: len(kinds(c["tree"], [])) >= 2, quick=700),
    Sub("integrals", check, lambda: several().map(to_case), quick=140),
    Sub("d", check, lambda: with_d().filter(bool), quick=250),
    Sub("values", check_values, values, nontrivial=lambda c: sum(1 for x in c["cs"] if x) > 1, quick=700),
]
