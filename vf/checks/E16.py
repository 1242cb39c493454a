"""Normalisation is total, stable and value preserving."""
import re
from fractions import Fraction
from hypothesis import strategies as st
from vf.repo import *
from vf.pairs import pair
from vf.gen_text import anything
from vf.checks.E14 import edit, data
from vf import gen_ans as g, gen_sym, ev, mtree
from vf.texout import text

PROPERTY = "E16"
RULE = ("total: arbitrary texts, damaged answers, generated answers: a string or a set of strings, never an exception. value: numbers (integers, "
        "decimals, fractions, mixed numbers, scientific, thousands) and polynomials in random notations, with $ wrapping and padding: the "
        "normal form parses to the same value and normalising it again changes nothing (numbers / polynomials over x, y, z). same: any text and "
        "a variant of it (spaces, cosmetic edits, its own normal form, case, $ wrapping): if the normal forms agree, the two compare equal "
        "in both orders. Non-trivial: the normal form differs from the text / the variant from the text.")


def norm(s):
    try:
        return string_normalize(s)
    except Exception as e:
        raise Violation("string_normalize(%r) raised %s: %s" % (s, type(e).__name__, str(e)[:200]))


def check_total(case):
    n = norm(case["s"])
    if isinstance(n, str):
        return ["string"]
    if isinstance(n, (set, frozenset)) and n and all(isinstance(x, str) for x in n):
        return ["set"]
    raise Violation("string_normalize(%r) = %r is neither a string nor a set of strings" % (case["s"], n))


@st.composite
def total(draw):
    k = draw(st.integers(0, 2))
    return {"s": draw(anything()) if k else draw(pair())["a"]}


def check_number(case):
    want = Fraction(case["value"])
    n = norm(case["s"])
    if not isinstance(n, str):
        raise Violation("string_normalize(%r) = %r, expected a string" % (case["s"], n))
    try:
        v = Fraction(n)
    except ValueError:
        v = ev.exact(parse(n))
    if v != want:
        raise Violation("string_normalize(%r) = %r has the value %s, not %s" % (case["s"], n, v, want))
    if norm(n) != n:
        raise Violation("string_normalize(%r) = %r, and normalising that gives %r" % (case["s"], n, norm(n)))


@st.composite
def number(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        v = Fraction(draw(st.integers(-10 ** 20, 10 ** 20)))
        s = draw(st.sampled_from(["%s", "%s.0", "{%s}", "%s."])) % v
        if draw(st.booleans()):
            s = "{:,}".format(int(v))
    elif k == 1:
        d = draw(st.integers(1, 6))
        v = Fraction(draw(st.integers(-10 ** 8, 10 ** 8)), 10 ** d)
        s = "{:.{d}f}".format(__import__("decimal").Decimal(v.numerator) / v.denominator, d=d)
        v = Fraction(s)
        if s.startswith("0.") and draw(st.booleans()):
            s = s[1:]
    elif k == 2:
        e = draw(st.integers(-9, 15))
        m = draw(st.integers(1, 9999))
        v = Fraction(m, 100) * Fraction(10) ** e
        s = "%d.%02d%s" % (m // 100, m % 100, draw(st.sampled_from(["\\cdot 10^{%d}", "\\times 10^{%d}", "*10^{%d}", "e%d", "E%d"])) % e)
    elif k == 3:
        p, q, w = draw(st.integers(1, 200)), draw(st.integers(2, 99)), draw(st.integers(0, 99))
        f = draw(st.sampled_from(["\\frac{%d}{%d}", "\\dfrac{%d}{%d}", "\\tfrac{%d}{%d}", "\\frac {%d} {%d}", "%d/%d"])) % (p, q)
        v = Fraction(p, q)
        if w and p < q:
            s, v = "%d%s%s" % (w, draw(st.sampled_from([" ", "", "  "])) if f[0] == "\\" else " ", f), w + v
        else:
            s = f
        if draw(st.booleans()):
            s, v = "-" + s, -v
    else:
        n = draw(g.exact_small())
        if not n.rational:
            return None
        v, s = Fraction(n.r), g.spell(draw, n, True, False)
    k = draw(st.integers(0, 5))
    s = {0: "$%s$", 1: " %s ", 2: "%s\n", 3: "$ %s $"}.get(k, "%s") % s
    return {"s": s, "value": str(v)}


VS = ["x", "y", "z"]


def check_poly(case):
    n = norm(case["s"])
    if not isinstance(n, str):
        raise Violation("string_normalize(%r) = %r, expected a string" % (case["s"], n))
    a, b = parse(case["s"].strip(" $\n")), parse(n)
    for pt in case["points"]:
        sub = {str(v): Fraction(p) for v, p in zip(VS, pt)}
        va, vb = (ev.exact(t.subs({s: sympy.Rational(sub[str(s)].numerator, sub[str(s)].denominator) for s in t.free_symbols})) for t in (a, b))
        if va != vb or va != mtree_value(case["tree"], sub):
            raise Violation("string_normalize(%r) = %r has the value %s at %s, expected %s" % (case["s"], n, vb, sub, mtree_value(case["tree"], sub)))
    if norm(n) != n:
        raise Violation("string_normalize(%r) = %r, and normalising that gives %r" % (case["s"], n, norm(n)))


def mtree_value(tree, sub):
    """[(coefficient, exponents)]"""
    t = Fraction(0)
    for c, es in tree:
        m = Fraction(c)
        for v, e in zip(VS, es):
            m *= sub[v] ** e
        t += m
    return t


@st.composite
def poly(draw):
    terms = draw(st.lists(st.tuples(st.integers(-99, 99).filter(bool), st.tuples(*[st.integers(0, 12)] * 3)), min_size=1, max_size=5))
    out = ""
    sp = draw(st.sampled_from(["", " ", "  "]))
    for i, (c, es) in enumerate(terms):
        body = ""
        for v, e in zip(VS, es):
            if e:
                body += v + ("" if e == 1 else draw(st.sampled_from(["^{%d}", "^%d" if e < 10 else "^{%d}", "^{ %d }"])) % e) + draw(st.sampled_from(["", " ", ""]))
        co = str(abs(c)) if abs(c) != 1 or not body else ""
        if co and body:
            co += draw(st.sampled_from(["", " ", "\\cdot ", "*"]))
        sign = ("-" if c < 0 else "+") if i or c < 0 else ""
        out += (sp if i else "") + sign + (sp if i else "") + co + body
    out = draw(st.sampled_from(["%s", "$%s$", " %s ", "%s"])) % out.strip()
    pts = [[str(Fraction(draw(st.integers(-9, 9)), draw(st.integers(1, 3)))) for _ in VS] for _ in range(2)]
    return {"s": out, "tree": [[c, list(e)] for c, e in terms], "points": pts}


def check_same(case):
    a, b = case["a"], case["b"]
    if not a.strip() or not b.strip() or norm(a) != norm(b):
        case["same"] = False
        return ["different form"]
    case["same"] = True
    expect_equiv(a, b, True, "(same normal form %r)" % norm(a))
    expect_equiv(b, a, True, "(same normal form %r)" % norm(a))
    return ["same form"]


@st.composite
def same(draw):
    k = draw(st.integers(0, 4))
    a = draw(anything()) if k <= 1 else draw(pair())["a"] if k == 2 else draw(st.sampled_from(data()["rich"]))
    k = draw(st.integers(0, 6))
    try:
        n = string_normalize(a)
    except Exception:
        n = a
    if k == 0 and isinstance(n, str):
        b = n
    elif k == 1:
        b = draw(st.sampled_from(["$%s$", " %s ", "%s ", "\n%s", "$ %s $", "\\text{%s}", "{%s}", "\\mbox{%s}"])) % a
    elif k == 2:
        b = a.upper() if draw(st.booleans()) else a.lower()
    elif k == 3:
        i = draw(st.integers(0, len(a)))
        b = a[:i] + draw(st.sampled_from([" ", "\\,", "\\;", "\\!", "\\ ", "  "])) + a[i:]
    elif k == 4:
        b = a.replace(" ", "")
    else:
        b = edit(draw, a)
    return {"a": a, "b": b}


SUBS = [
    Sub("total", check_total, total, nontrivial=lambda c: bool(c["s"].strip()), quick=1600, chunk=100),
    Sub("number", check_number, lambda: number().filter(bool), nontrivial=lambda c: not re.fullmatch(r"-?\d+", c["s"]), quick=640, chunk=40),
    Sub("poly", check_poly, poly, quick=320, chunk=20),
    Sub("same", check_same, same, nontrivial=lambda c: c.get("same") and c["a"] != c["b"], quick=1200, chunk=75),
]
