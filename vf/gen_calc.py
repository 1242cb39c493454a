"""Generator of calculus LaTeX (derivatives, integrals, sums, products, limits, evaluation bars) with reference trees."""
from hypothesis import strategies as st
from vf.gen_func import F
from vf.gen_arith import LEFT

DV = ["x", "y", "t", "u", "z", "\\theta", "\\delta", "\\phi", "x_1", "x_{12}", "t_2", "\\ell", "\\hbar", "x_{1}"]     # variables of d and \partial
KV = ["k", "j", "m", "n"]                                                     # indices
LV = ["x", "y", "t", "h", "n", "\\theta", "\\epsilon", "\\ell", "\\hbar"]                        # limit variables
OTHER = ["a", "b", "c", "y", "r", "\\alpha", "\\delta", "a_1"]
ARROWS = ["\\to ", "\\rightarrow ", "\\Rightarrow ", "\\longrightarrow ", "\\Longrightarrow "]
SP = ["", "", " ", "\\,", "\\, ", "\\quad ", "~"]


def n_(x):
    return ["num", str(x)]


def glue(*parts):
    """juxtapose, keeping commands and numbers apart"""
    out = ""
    for p in parts:
        if out and p and (out[-1].isalpha() and p[0].isalpha() or out[-1].isdigit() and p[0].isdigit()):
            out += " "
        out += p
    return out


@st.composite
def factor(draw, v):
    """a closed factor in v: (tex, tree, starts with letter/number/other)"""
    w = draw(st.sampled_from([v, v, v, draw(st.sampled_from(OTHER))]))
    s = ["sym", w]
    k = draw(st.integers(0, 9))
    n = draw(st.integers(2, 4))
    if k == 0:
        return w, s
    if k == 1:
        if "_" in w:
            return "{%s}^%d" % (w, n), ["^", s, n_(n)]
        return "%s^%d" % (w, n), ["^", s, n_(n)]
    if k == 2:
        return "%s^{%d}" % ("{%s}" % w if "_" in w else w, n), ["^", s, n_(n)]
    if k == 3:
        op = draw(st.sampled_from("+-"))
        l, r = draw(st.sampled_from(LEFT))
        return "%s(%s%s%d%s)" % (l, w, op, n, r), [op, s, n_(n)]
    if k == 4:
        fn = draw(st.sampled_from(["sin", "cos", "ln", "exp", "sinh", "arctan"]))
        ref = {"arctan": "atan"}.get(fn, fn)
        m = draw(st.integers(1, 5))
        return "\\%s(%s+%d)" % (fn, w, m), ["fn", ref, ["+", s, n_(m)]]
    if k == 5:
        return "e^{%s%s}" % (draw(st.sampled_from(["", "-"])), w), None
    if k == 6:
        return "\\frac{%s}{%d}" % (w, n), ["/", s, n_(n)]
    if k == 7:
        return "\\frac{%d}{%s+%d}" % (n, w, n + 3), ["/", n_(n), ["+", s, n_(n + 3)]]
    if k == 8:
        return "\\sqrt{%s+%d}" % (w, n + 2), ["fn", "sqrt", ["+", s, n_(n + 2)]]
    return "%d" % n, n_(n)


@st.composite
def fac(draw, v):
    t, tree = draw(factor(v))
    if tree is None:                                 # e^{..}
        neg = "{-" in t
        w = t[t.index("{") + 1 + neg:-1]
        tree = ["fn", "exp", ["neg", ["sym", w]] if neg else ["sym", w]]
    return t, tree


@st.composite
def prod(draw, v, lo=1, hi=3):
    """juxtaposed factors, parenthesised ones first (a letter before '(' would be an application)"""
    fs = [draw(fac(v)) for _ in range(draw(st.integers(lo, hi)))]
    nums = [f for f in fs if f[0].isdigit()][:1]
    par = [f for f in fs if "(" in f[0] and not f[0].startswith("\\s") and not f[0].startswith("\\c") and f[0][0] in "(\\" and f[0].endswith(")") and
           (f[0].startswith("(") or f[0].startswith("\\left") or f[0].startswith("\\big") or f[0].startswith("\\mleft"))]
    rest = [f for f in fs if f not in nums and f not in par and not f[0].isdigit()]
    fs = nums + par + rest
    if not fs:
        fs = [draw(st.just((v, ["sym", v])))]
    tex = glue(*[f[0] for f in fs])
    tree = fs[0][1] if len(fs) == 1 else ["*"] + [f[1] for f in fs]
    return tex, tree


@st.composite
def poly(draw, v):
    """sum of products"""
    t, tree = draw(prod(v))
    if draw(st.booleans()):
        op = draw(st.sampled_from("+-"))
        t2, tree2 = draw(prod(v, 1, 2))
        return t + op + t2, [op, tree, tree2]
    if draw(st.integers(0, 4)) == 0:
        return "-" + t, ["neg", tree]
    return t, tree


def brace(draw, t):
    """an exponent or subscript: braces may be left out around one token"""
    if (len(t) == 1 or t in ("\\pi", "\\infty", "\\theta")) and draw(st.booleans()):
        return t + (" " if t[0] == "\\" else "")
    return "{" + t + "}"


@st.composite
def bound(draw, avoid=(), inf=True, integer=False):
    k = draw(st.integers(0, 8))
    n = draw(st.integers(0, 6))
    w = draw(st.sampled_from([x for x in ["a", "b", "c", "r", "\\alpha", "N"] if x not in avoid]))
    if k <= 3 or integer and k != 7:
        return str(n), n_(n)
    if k == 4:
        return "-%d" % n, ["neg", n_(n)]
    if k == 5:
        return w, ["sym", w]
    if k == 6:
        return "%s+%d" % (w, n), ["+", ["sym", w], n_(n)]
    if k == 7 and inf:
        return draw(st.sampled_from([("\\infty", ["inf"]), ("-\\infty", ["neg", ["inf"]])]))
    return draw(st.sampled_from([("\\pi", ["pi"]), ("\\frac{1}{2}", n_("1/2")), ("2\\pi", ["*", n_(2), ["pi"]]), ("%d^2" % n, n_(n * n)), ("0.5", n_("1/2"))]))


DS = ["d", "d", "d", "\\mathrm{d}", "{\\rm d}"]


def d_(draw, v):
    """the differential of v"""
    d = draw(st.sampled_from(DS))
    return d + draw(st.sampled_from(["", "", " "])) + v


def bounds(draw, lo, hi):
    a, b = "_" + brace(draw, lo), "^" + brace(draw, hi)
    return draw(st.sampled_from([a + b, b + a]))


@st.composite
def integral(draw, depth):
    v = draw(st.sampled_from(DV))
    k = draw(st.integers(0, 11))
    closed = True
    sp = draw(st.sampled_from(SP))
    if k <= 5:                                       # body then differential
        t, tree = draw(poly(v))
        if depth > 0 and draw(st.integers(0, 3)) == 0:
            f = draw(calc(depth - 1))
            t, tree = f.tex, f.tree
            if f.open and draw(st.booleans()):
                t = "(" + t + ")"
        inner = " " + t + sp + (" " if t[-1].isalpha() else "") + d_(draw, v)
    elif k == 6:                                     # no body
        inner, tree = " " + d_(draw, v), n_(1)
    elif k == 7:                                     # differential in the numerator
        c = draw(st.sampled_from(["", "2", "a ", "-"]))
        w = draw(st.integers(2, 6))
        inner = "\\frac{%s%s}{%s+%d}" % (c, d_(draw, v), v, w)
        top = {"": n_(1), "2": n_(2), "a ": ["sym", "a"], "-": n_(-1)}[c]
        tree = ["/", top, ["+", ["sym", v], n_(w)]]
    elif k == 8:                                     # c * frac with differential, extends to the right
        w = draw(st.integers(2, 6))
        c = draw(st.sampled_from(["2", "a ", "\\alpha "]))
        inner = " %s\\frac{%s}{%s+%d}" % (c, d_(draw, v), v, w)
        tree = ["*", n_(2) if c == "2" else ["sym", c.strip()], ["/", n_(1), ["+", ["sym", v], n_(w)]]]
        closed = False
    elif k == 9:                                     # differential first
        t, tree = draw(prod(v))
        inner = " " + d_(draw, v) + " "
        c = F(t, tree, 3)
        tree = ["*", None, c.tree]
        inner += c.tex
        if "(" == c.tex[0]:
            inner = inner.rstrip() + ""
            return draw(integral(depth))
        if c.tex[0].isdigit():
            return draw(integral(depth))
    elif k == 10:                                    # nested integrals
        w = draw(st.sampled_from([x for x in ["x", "y", "t", "u"] if x != v]))
        t, tree0 = draw(prod(w))
        lo2, hi2 = draw(bound(inf=False)), (v, ["sym", v])
        inner = "\\int_" + "{%s}" % lo2[0] + "^" + "{%s}" % v + " " + t + sp + " " + d_(draw, w) + " " + d_(draw, v)
        tree = ["iint", tree0, w, lo2[1], hi2[1]]
    else:                                            # no differential: x
        v = "x"
        t, tree = draw(poly("x"))
        if t.startswith("\\frac"):                   # without differential the integrand would be the fraction alone
            t, tree = "2" + t, ["*", n_(2), tree] if tree[0] not in "+-" else [tree[0], ["*", n_(2), tree[1]], tree[2]]
        inner = " " + t
        closed = False
    kind = draw(st.integers(0, 4))
    unit = tree[0] == "*" and len(tree) == 3 and tree[1] is None
    body = n_(1) if unit else tree
    if kind <= 1 and "iint" not in str(tree):
        head = "\\int" + (draw(st.sampled_from(["", "", "_{}^{}", "^{}_{}"])))
        r = ["int", body, v]
    else:
        lo, hi = draw(bound(avoid=(v,))), draw(bound(avoid=(v,)))
        head = "\\int" + bounds(draw, lo[0], hi[0])
        r = ["iint", body, v, lo[1], hi[1]]
    if unit:
        r = ["*", r, tree[2]]
        closed = False
    return F(head + inner, r, 4, True)


@st.composite
def series(draw, depth):
    cmd, kind = draw(st.sampled_from([("\\sum", "sum"), ("\\prod", "prod")]))
    v = draw(st.sampled_from(KV))
    lo = draw(bound(avoid=(v,), inf=False, integer=True))
    hi = draw(st.one_of(bound(avoid=(v,), integer=True), bound(avoid=(v,))))
    eq = draw(st.sampled_from(["=", "=", " = ", "=="]))
    k = draw(st.integers(0, 6))
    if k <= 2:
        t, tree = draw(prod(v))
    elif k == 3:
        (a, ta), (b, tb) = draw(prod(v)), draw(prod(v))
        t, tree = a + draw(st.sampled_from(["\\cdot ", "\\times ", "*"])) + b, ["*", ta, tb]
    elif k == 4:
        (a, ta), (b, tb) = draw(prod(v)), draw(fac(v))
        t, tree = a + draw(st.sampled_from(["/", "\\div "])) + b, ["/", ta, tb]
    elif k == 5:
        a, ta = draw(prod(v))
        t, tree = "-" + a, ["neg", ta]
    else:
        if depth > 0:
            f = draw(calc(depth - 1))
            t, tree = ("(" + f.tex + ")", f.tree) if draw(st.booleans()) else (f.tex, f.tree)
            if f.lvl < 1 and not t.startswith("("):
                t = "(" + t + ")"
        else:
            t, tree = draw(poly(v))
            t = "(" + t + ")"
    a, b = "_{%s%s%s}" % (v, eq, lo[0]), "^" + brace(draw, hi[0])
    head = cmd + draw(st.sampled_from([a + b, b + a]))
    return F(head + " " + t, [kind, tree, v, lo[1], hi[1]], 4, True)


@st.composite
def limit(draw, depth):
    v = draw(st.sampled_from(LV))
    p = draw(bound(avoid=(v,)))
    d = draw(st.sampled_from(["", "", "+", "-"])) if "inf" not in str(p[1]) else ""
    k = draw(st.integers(0, 5))
    if k <= 2:
        t, tree = draw(prod(v))
    elif k == 3:
        (a, ta), (b, tb) = draw(prod(v)), draw(prod(v))
        t, tree = "\\frac{%s}{%s}" % (a, b), ["/", ta, tb]
    elif k == 4:
        (a, ta), (b, tb) = draw(prod(v)), draw(fac(v))
        op = draw(st.sampled_from(["\\cdot ", "/", "*"]))
        t, tree = a + op + b, ["/" if op == "/" else "*", ta, tb]
    else:
        a, ta = draw(poly(v))
        t, tree = "(" + a + ")", ta
    tex = "\\lim_{%s%s%s%s}" % (v, draw(st.sampled_from(ARROWS)), p[0], "^{%s}" % d if d else "")
    return F(tex + " " + t, ["lim", tree, v, p[1], d or None], 4, True)


PV = ["x", "y", "t", "\\theta", "\\phi", "x_1", "x_{12}", "\\ell"]


@st.composite
def derivative(draw, depth):
    partial = draw(st.integers(0, 2)) == 0
    v = draw(st.sampled_from(PV if partial else DV))
    k = draw(st.integers(0, 6))
    if partial:
        D = "\\partial"
        dv = D + (" " if v[0] != "\\" else draw(st.sampled_from(["", " "]))) + v
        lead = D + " "
    else:
        D = draw(st.sampled_from(DS))
        dv = D + draw(st.sampled_from(["", "", " "])) + v
        lead = D + " "
    if k <= 2:                                       # operator form: a juxtaposed product
        t, tree = draw(prod(v))
        return F("\\frac{%s}{%s}%s%s" % (D, dv, draw(st.sampled_from(["", " "])), t), ["diff", tree, v], 4, True)
    if k == 3:                                       # nested operators
        w = draw(st.sampled_from([x for x in ["x", "y", "t"] if x != v] + [v]))
        t, tree = draw(prod(v))
        dw = D + " " + w
        return F("\\frac{%s}{%s}\\frac{%s}{%s}%s" % (D, dv, D, dw, " " + t), ["diff", ["diff", tree, w], v], 4, True)
    if k == 4:                                       # quotient with a group
        t, tree = draw(poly(v))
        return F("\\frac{%s(%s)}{%s}" % (lead.strip(), t, dv), ["diff", tree, v], 5)
    if k == 5:                                       # quotient with a product
        t, tree = draw(prod(v))
        return F("\\frac{%s%s}{%s}" % (lead, t, dv), ["diff", tree, v], 5)
    w = draw(st.sampled_from(["y", "f", "u"]))
    return F("\\frac{%s%s}{%s}" % (lead, w, dv), ["diff", ["sym", w], v], 5)


@st.composite
def evalbar(draw, depth):
    v = draw(st.sampled_from(["x", "y", "t", "n", "\\theta"]))
    k = draw(st.integers(0, 6))
    if k <= 2:
        t, tree = draw(poly(v))
        t = "(" + t + ")"
    elif k == 3:
        f = draw(derivative(0))
        if f.open:
            return draw(evalbar(depth))
        t, tree = f.tex, f.tree
        v = tree[2]
    elif k == 4:
        n = draw(st.integers(2, 5))
        t, tree = "%s^%d" % (v, n), ["^", ["sym", v], n_(n)]
    else:
        t, tree = "\\frac{%s+2}{%s+7}" % (v, v), ["/", ["+", ["sym", v], n_(2)], ["+", ["sym", v], n_(7)]]
    p, q = draw(bound(avoid=(v,), inf=False)), draw(bound(avoid=(v,), inf=False))
    eq = draw(st.sampled_from(["=", " = "]))
    form = draw(st.integers(0, 3))
    sub, sup = "_{%s%s%s}" % (v, eq, p[0]), "^{%s%s%s}" % (v, eq, q[0])
    if form <= 1:
        return F(t + "|" + sub, ["at", tree, v, p[1]], 5)
    if form == 2:
        return F(t + "|" + sup, ["at", tree, v, q[1]], 5)
    return F(t + "|" + sup + sub, ["-", ["at", tree, v, q[1]], ["at", tree, v, p[1]]], 1)


@st.composite
def calc(draw, depth=1):
    return draw(draw(st.sampled_from([integral, integral, series, series, limit, derivative, derivative, evalbar]))(depth))


@st.composite
def expression(draw, depth=1):
    """calculus terms inside of arithmetic"""
    f = draw(calc(depth))
    k = draw(st.integers(0, 8))
    if k <= 2:
        return f
    g = F("(" + f.tex + ")", f.tree, 5) if f.open or f.lvl < 4 else f
    if k == 3:
        n = draw(st.integers(2, 9))
        return F("%d%s%s" % (n, " " if f.tex[0].isdigit() else "", g.tex if f.lvl < 4 or f.tex[0].isdigit() else f.tex), ["*", n_(n), f.tree], 3, f.open) \
            if not f.tex[0].isdigit() else F("%d%s" % (n, "(" + f.tex + ")"), ["*", n_(n), f.tree], 3)
    if k == 4:
        t, tree = draw(poly("x"))
        return F("%s+%s" % (t, f.tex), ["+", tree, f.tree], 0, f.open)
    if k == 5:
        t, tree = draw(prod("x"))
        op = draw(st.sampled_from("+-"))
        if "int" in (f.tree[0], ) and f.open:
            return F(g.tex + op + t, [op, f.tree, tree], 0)
        return F(g.tex + op + t, [op, f.tree, tree], 0)
    if k == 6:
        h = draw(calc(depth - 1)) if depth else draw(evalbar(0))
        return F("%s-%s" % (g.tex, h.tex if h.lvl >= 4 else "(" + h.tex + ")"), ["-", f.tree, h.tree], 0, h.open)
    if k == 7:
        h = draw(calc(0))
        return F("\\frac{%s}{%s}" % (f.tex, h.tex), ["/", f.tree, h.tree], 5)
    n = draw(st.integers(2, 3))
    return F("(%s)^%d" % (f.tex, n), ["^", f.tree, n_(n)], 4)
