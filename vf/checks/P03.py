"""Names and placeholders keep their identity."""
from fractions import Fraction
import re
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf import ev, names
from vf.names import *

PROPERTY = "P03"
RULE = ("pairs: two names drawn from every letter, Greek letter, other symbol command, accent and subscript form (equal, "
        "subscript changed, accent changed or independent) must give equal symbols exactly when written as the same name; "
        "products: 2-5 names with subscripts and exponents in either order, with a coefficient, written adjacent, spaced or with "
        "\\cdot, against the product of the separately parsed names; real: templates with names under the three real settings, "
        "every free symbol must carry the setting; placeholders: expression templates with two \\variable placeholders (plain or "
        "percent), values of every kind supplied or not, against parsing the template with plain symbols and substituting. "
        "Non-trivial: the two names differ / at least two factors / any / at least one value supplied.")

SUBSCR = [""] + ["_%s" % c for c in "0123459nkijxyABt"] + ["_{%s}" % c for c in
         ["0", "1", "2", "12", "10", "123", "n", "k", "n+1", "n-1", "ij", "i,j", "1,2", "\\alpha", "x_1", "2n", "max"[0:1] + "b", "A"]]


def canon(base, sub):
    m = re.match(r"^_\{(.)\}$", sub)
    if m:
        sub = "_" + m.group(1)
    m = re.match(r"^(\\[a-zA-Z]+)\{(.*)\}$", base)
    if m and m.group(1) in SAME:
        base = SAME[m.group(1)] + "{" + m.group(2) + "}"
    return base + sub


@st.composite
def name(draw, plain=False):
    k = draw(st.integers(0, 9))
    if k <= 3 or plain:
        b = draw(st.sampled_from(LETTERS))
    elif k <= 5:
        b = draw(st.sampled_from(GREEK))
    elif k == 6:
        b = draw(st.sampled_from(OTHER + CHARS))
    elif k == 7:
        a = draw(st.sampled_from(ACCENTS))
        inner = draw(st.one_of(st.sampled_from(LETTERS), st.sampled_from(GREEK + ["ab", "AB", "xy", "v_1"])))
        if a in ("\\mathrm",) and inner in ("T",):
            inner = "A"
        if a == "\\mathit" and not re.match("^[a-zA-Z]+$", inner):
            inner = "a"
        b = a + "{" + inner + "}"
    elif k == 8:
        b = "\\mathit{" + draw(st.text("abcfghijkxyzABC", min_size=1, max_size=4)) + "}"
        return b, ""
    else:
        b = draw(st.sampled_from(LETTERS))
    if b.startswith("\\mathit"):
        return b, ""
    return b, draw(st.sampled_from(SUBSCR)) if draw(st.booleans()) else ""


def sym(tex):
    r = parse(tex)
    if not isinstance(r, sympy.Symbol):
        raise Violation("%r parsed to %s (%s), expected a symbol" % (tex, r, type(r).__name__))
    return r


# ---- identity of pairs
@st.composite
def pair_case(draw):
    a = draw(name())
    k = draw(st.integers(0, 3))
    if k == 0:
        b = a
    elif k == 1:
        b = (a[0], draw(st.sampled_from(SUBSCR)) if not a[0].startswith("\\mathit") else "")
    elif k == 2 and a[0].startswith("\\") and a[0].endswith("}") and not a[0].startswith("\\mathit"):
        b = (draw(st.sampled_from([x for x in ACCENTS if x not in ("\\mathit", "\\mathrm")])) + a[0][a[0].index("{"):], a[1])
    else:
        b = draw(name())
    return {"a": list(a), "b": list(b)}


def check_pair(case):
    (a, sa), (b, sb) = case["a"], case["b"]
    ta, tb = a + sa, b + sb
    x, y = sym(ta), sym(tb)
    same = canon(a, sa) == canon(b, sb)
    if same != (x == y):
        raise Violation("%r -> %r, %r -> %r: expected %s symbols" % (ta, x, tb, y, "equal" if same else "different"))
    d = parse("%s - %s" % (ta, tb))
    fs = {s for s in d.free_symbols}
    if same and d.doit() != 0 or not same and fs != {x, y}:
        raise Violation("%r - %r parsed to %s" % (ta, tb, d))
    if sym(ta) != x:
        raise Violation("%r parsed differently the second time" % ta)
    return ["same" if same else "different"]


# ---- products of names with exponents
def join(parts):
    out = ""
    for p in parts:
        if re.search(r"\\[a-zA-Z]+$|\\char\"[0-9A-F]+$", out) and re.match(r"[a-zA-Z0-9]", p):
            out += " "
        out += p
    return out


@st.composite
def product_case(draw):
    n = draw(st.integers(2, 5))
    fs = []
    for i in range(n):
        b, s = draw(name())
        e = draw(st.sampled_from(["", "", "^2", "^3", "^{2}", "^{10}", "^{-1}", "^n", "^{n+1}", "^\\alpha "]))
        order = draw(st.booleans())
        fs.append([b, s, e, bool(order)])
    coef = draw(st.sampled_from(["", "2", "3", "10", "0.5", "-", "-4", "\\frac{1}{2}"]))
    sp = draw(st.sampled_from(["", " ", "\\cdot "]))
    return {"factors": fs, "coef": coef, "sep": sp}


EXPV = {"": 1, "^2": 2, "^3": 3, "^{2}": 2, "^{10}": 10, "^{-1}": -1, "^n": sympy.Symbol("n"), "^{n+1}": sympy.Symbol("n") + 1,
        "^\\alpha ": sympy.Symbol("alpha")}
COEFV = {"": 1, "2": 2, "3": 3, "10": 10, "0.5": sympy.Rational(1, 2), "-": -1, "-4": -4, "\\frac{1}{2}": sympy.Rational(1, 2)}


def check_product(case):
    want = sympy.Integer(1)
    parts = []
    for b, s, e, order in case["factors"]:
        want = want * sym(b + s) ** EXPV[e]
        braced = b.startswith("\\mathit")
        t = b + e + s if (order and s and not braced and not e.endswith(" ")) else b + s + e
        if order and s and e in ("^n",):
            t = b + s + e
        parts.append(t.strip() if not e.endswith(" ") else t)
    want = COEFV[case["coef"]] * want
    pieces = []
    for i, p in enumerate(parts):
        pieces.append(p)
        if i + 1 < len(parts):
            pieces.append(case["sep"])
    tex = case["coef"] + join([p for p in pieces if p])
    got = parse(tex)
    if sympy.powsimp(sympy.expand(got.doit())) != sympy.powsimp(sympy.expand(want)) and sympy.simplify(got.doit() / want) != 1:
        raise Violation("%r parsed to %s, expected %s" % (tex, got, want))


# ---- the real-number setting
@st.composite
def real_case(draw):
    ns = [list(draw(name())) for _ in range(draw(st.integers(1, 3)))]
    tpl = draw(st.sampled_from(["{0}+{1}", "\\sin({0})-{1}", "\\frac{{{0}}}{{{1}}}", "\\sqrt{{{0}}}", "{0}={1}", "\\int {0} dx",
                                "\\int {0}x", "\\int_0^1 x{0}", "\\int {0} d\\theta", "\\int \\frac{{dx}}{{{0}}}", "\\frac{{\\partial}}{{\\partial \\theta}}({0}\\theta)",
                                "\\lim_{{\\theta\\to 0}} {0}\\theta", "\\lim_{{\\ell\\to 0}} {0}\\ell", "\\prod_{{k=1}}^{{3}} {0}k", "\\frac{{d({0}x)}}{{dx}}",
                                "\\frac{{d}}{{dx}}({0}+x)", "\\lim_{{x\\to 0}} {0}x", "\\variable{{q}}+{0}", "\\mathit{{abc}}+{0}",
                                "\\sum_{{k=1}}^{{3}} {0}k", "f({0},{1})", "\\max({0},{1})", "\\begin{{pmatrix}} {0} & {1} \\end{{pmatrix}}"]))
    return {"names": ns, "tpl": tpl, "real": draw(st.sampled_from([True, None, False]))}


def check_real(case):
    ns = [a + b for a, b in case["names"]]
    tex = case["tpl"].format(ns[0] + " ", ns[-1] + " ")
    try:
        set_real(case["real"])
        r = parse(tex)
    finally:
        set_real(None)
    fs = set(r.free_symbols)
    if isinstance(r, (sympy.Integral, sympy.Derivative, sympy.Limit, sympy.Sum, sympy.Product)):
        fs |= {s for s in r.atoms(sympy.Symbol) if s.name not in ("+", "-", "+-") and not s.name.startswith("_")}
    if not fs:
        raise Violation("%r has no symbols: %r" % (tex, r))
    for s in fs:
        want = case["real"]
        if s.is_real is not want:
            raise Violation("with the real setting %r, symbol %s of %r has is_real=%r" % (want, s, tex, s.is_real))
    r2 = parse(tex)
    for s in r2.free_symbols:
        if s.is_real is not None:
            raise Violation("after resetting the real setting, symbol %s of %r has is_real=%r" % (s, tex, s.is_real))
    return [str(case["real"])]


# ---- placeholders
PH = ["a", "x", "ab", "x1", "y_1", "b_{12}", "\\alpha", "\\beta_{1}", "n_{i,j}", "Q", "e", "d", "I", "pi"]
TPL = ["{0}+{1}", "{0}-{1}", "{0}{1}", "2{0}\\cdot {1}", "\\frac{{{0}}}{{{1}+1}}", "{0}^{{2}}+x", "x^{{{0}}}", "\\sin({0})+\\cos {1}",
       "\\sqrt{{{0}^{{2}}+{1}^{{2}}}}", "\\max({0},{1},3)+{0}", "f({0},{1})+{1}", "|{0}-{1}|", "-{0}", "(x+{0})^{{2}}-{1}",
       "\\frac{{d({0}x^2)}}{{dx}}+{1}", "\\int_{{0}}^{{1}} {0}x dx+{1}", "\\sum_{{k=1}}^{{3}} {0}k+{1}", "\\log_{{2}}({0}^2+1)-{1}",
       "{0}={1}", "\\lfloor {0} \\rfloor + {1}", "e^{{{0}}}\\cdot {1}", "{0},{1},{0}", "\\begin{{pmatrix}} {0} & {1} \\end{{pmatrix}}",
       "\\lim_{{x\\to 0}} {0}x + {1}", "\\binom{{{0}+9}}{{2}}+{1}", "\\ln{{{0}}}\\cdot {1}", "\\frac{{\\partial ({0}y)}}{{\\partial y}}+{1}"]
VALUES = ["int:0", "int:3", "int:-7", "int:12", "rat:1/2", "rat:-5/3", "rat:22/7", "sym:x+1", "sym:2*y", "sym:z", "py:4", "py:-2", "py:0.5", "str:2*w", "str:5",
          "sym:sqrt(2)", "sym:pi", "frac:3/4"]


def value(v):
    k, s = v.split(":")
    if k == "int":
        return sympy.Integer(s)
    if k == "rat":
        return sympy.Rational(s)
    if k == "sym":
        return sympy.sympify(s)
    if k == "py":
        return float(s) if "." in s else int(s)
    if k == "frac":
        return Fraction(s)
    return s


@st.composite
def placeholder_case(draw):
    p, q = draw(st.sampled_from(PH)), draw(st.sampled_from(PH))
    env = {}
    for n in {p: 1, q: 1}:
        if draw(st.integers(0, 3)):
            env[n] = draw(st.sampled_from(VALUES))
    if draw(st.booleans()):
        env[draw(st.sampled_from(PH))] = draw(st.sampled_from(VALUES))
    return {"tpl": draw(st.sampled_from(TPL)), "p": p, "q": q, "env": env,
            "pct": [bool(draw(st.integers(0, 4)) == 0), bool(draw(st.integers(0, 4)) == 0)]}


def stand_in(n):
    return sympy.Symbol("PHSTAND" + str(PH.index(n)))


def walk(e, f):
    if isinstance(e, list):
        return [walk(x, f) for x in e]
    return f(e)


def norm(e):
    if isinstance(e, list):
        return [norm(x) for x in e]
    if isinstance(e, sympy.MatrixBase):
        return ["matrix", e.shape, [norm(x) for x in e]]
    if getattr(e, "is_Relational", False) or isinstance(e, sympy.core.relational.Relational):
        return [e.func.__name__, norm(e.lhs), norm(e.rhs)]
    try:
        e = e.doit()
    except Exception:
        pass
    return sympy.nsimplify(sympy.expand(e), rational=True)


def check_placeholder(case):
    occ = ["\\variable{%s}" % case["p"], "\\variable{%s}" % case["q"]]
    pct = case["pct"]
    texs = [o + ("\\%" if c else "") for o, c in zip(occ, pct)]
    tex = case["tpl"].format(*texs)
    env = {n: value(v) for n, v in case["env"].items()}
    before = {n: repr(v) for n, v in env.items()}
    # reference: ordinary unused symbols in the same places, substituted afterwards
    plain = case["tpl"].format(*["\\mathit{uv%s}" % c for c in "wz"])
    ref = parse(plain)
    sub = {}
    for n, w, c in ((case["p"], "\\mathit{uvw}", pct[0]), (case["q"], "\\mathit{uvz}", pct[1])):
        s = parse(w)
        if n in env:
            v = sympy.sympify(str(env[n])) if not isinstance(env[n], sympy.Basic) else env[n]
        else:
            v = parse("\\variable{%s}" % n)
            if v in (sympy.Symbol(n), sympy.Symbol(n.replace("\\", ""))) or not isinstance(v, sympy.Symbol):
                raise Violation("placeholder %r without a value parsed to %r" % (n, v))
        sub[s] = v / 100 if c else v
    if set(parse(w) for w in ("\\mathit{uvw}", "\\mathit{uvz}")) != set(sub):
        raise Violation("stand-in symbols not distinct")

    def f(e):
        if isinstance(e, sympy.core.relational.Relational):
            return e.func(f(e.lhs), f(e.rhs), evaluate=False)
        return e.subs(sub, simultaneous=True)
    want = walk(ref, lambda e: sympy.Matrix([[f(x) for x in e.row(i)] for i in range(e.rows)]) if isinstance(e, sympy.MatrixBase) else f(e))
    got = parse(tex, variable_values=env)
    if {n: repr(v) for n, v in env.items()} != before:
        raise Violation("the placeholder values passed in were modified: %s -> %s" % (before, env))
    a, b = norm(got), norm(want)
    if a != b:
        try:
            same = not isinstance(a, list) and sympy.simplify(a - b) == 0
        except Exception:
            same = False
        if not same:
            raise Violation("%r with values %s parsed to %s, expected %s" % (tex, case["env"], got, want))
    return ["supplied" if case["p"] in env else "unsupplied"] + (["percent"] if any(pct) else [])


SUBS = [
    Sub("pairs", check_pair, pair_case, quick=1600, nontrivial=lambda c: c["a"] != c["b"]),
    Sub("products", check_product, product_case, quick=700),
    Sub("real", check_real, real_case, quick=350),
    Sub("placeholders", check_placeholder, placeholder_case, quick=600, nontrivial=lambda c: bool(c["env"])),
]
