"""Generator of elementary-function LaTeX with a reference tree."""
from fractions import Fraction
from hypothesis import strategies as st
from vf.gen_arith import LEFT, GROUPS

# spelling -> reference name; those in INV take the inverse meaning for exponent -1
TRIG = ["sin", "cos", "tan", "csc", "sec", "cot", "sinh", "cosh", "tanh"]
SPELL = {}
for n in TRIG:
    SPELL["\\" + n] = n
for n in ["sin", "cos", "tan", "csc", "sec", "cot"]:
    SPELL["\\arc" + n] = "a" + n
for n in ["sinh", "cosh", "tanh"]:
    SPELL["\\arc" + n] = "a" + n
    SPELL["\\ar" + n] = "a" + n
    SPELL["\\operatorname{arc%s}" % n] = "a" + n
    SPELL["\\operatorname{ar%s}" % n] = "a" + n
SPELL["\\exp"] = "exp"
SPELL["\\ln"] = "ln"
SPELL["\\log"] = "log10"
for n in ["floor", "ceil"]:
    SPELL["\\" + n] = n
    SPELL["\\operatorname{%s}" % n] = n
NAMES = sorted(SPELL)

VARS = ["x", "y", "t", "\\theta", "\\alpha", "a_1", "x_{12}"]


class F:
    __slots__ = ("tex", "tree", "lvl", "open")

    def __init__(self, tex, tree, lvl, open=False):
        # open: ends in an unparenthesised function argument, must not be followed by anything but + - ) }
        self.tex, self.tree, self.lvl, self.open = tex, tree, lvl, open


@st.composite
def num(draw):
    k = draw(st.integers(0, 4))
    if k <= 2:
        n = draw(st.integers(1, 12))
        return F(str(n), ["num", str(n)], 5)
    if k == 3:
        n = draw(st.integers(1, 99))
        return F("%d.%d" % (n // 10, n % 10), ["num", str(Fraction(n, 10))], 5)
    n, d = draw(st.integers(1, 9)), draw(st.integers(2, 9))
    return F("\\frac{%d}{%d}" % (n, d), ["num", str(Fraction(n, d))], 5)


@st.composite
def atom(draw):
    k = draw(st.integers(0, 6))
    if k <= 3:
        v = draw(st.sampled_from(VARS))
        return F(v, ["sym", v], 5)
    if k == 4:
        return F("\\pi", ["pi"], 5)
    return draw(num())


def group(draw, f):
    if draw(st.booleans()):
        return F("(" + f.tex + ")", f.tree, 5)
    o, c = draw(st.sampled_from(GROUPS))
    l, r = draw(st.sampled_from(LEFT))
    return F(l + o + f.tex + r + c, f.tree, 5)


def close(draw, f, lvl):
    return f if f.lvl >= lvl and not f.open else group(draw, f)


@st.composite
def simple_arg(draw):
    """what may follow a function name without parentheses: returns (tex, tree)"""
    k = draw(st.integers(0, 7))
    a = draw(atom())
    if k <= 1:
        return " " + a.tex, a.tree
    if k == 2:
        n = draw(st.integers(2, 9))
        v = draw(st.sampled_from(VARS))
        return " %d%s" % (n, v), ["*", ["num", str(n)], ["sym", v]]
    if k == 3:
        v = draw(st.sampled_from(["x", "y", "t"]))
        n = draw(st.integers(2, 4))
        return " %s^%d" % (v, n), ["^", ["sym", v], ["num", str(n)]]
    if k == 4:
        b = draw(num())
        return "\\frac{%s}{%s}" % (a.tex, b.tex), ["/", a.tree, b.tree]
    if k == 5:
        v, w = draw(st.sampled_from([("x", "y"), ("t", "x"), ("y", "t")]))
        return " %s %s" % (v, w), ["*", ["sym", v], ["sym", w]]
    if k == 6:
        b = draw(num())
        return "{%s+%s}" % (a.tex, b.tex), ["+", a.tree, b.tree]
    n = draw(st.integers(1, 9))
    v = draw(st.sampled_from(VARS))
    return " -%d%s" % (n, v), ["neg", ["*", ["num", str(n)], ["sym", v]]]


@st.composite
def call(draw, depth):
    """a function application"""
    k = draw(st.integers(0, 11))
    if k <= 7:
        name = draw(st.sampled_from(NAMES))
        ref = SPELL[name]
        sup = draw(st.integers(0, 5))
        base = None
        deco = ""
        if name == "\\log" and draw(st.booleans()):
            bk = draw(st.integers(0, 3))
            if bk == 0:
                b = draw(st.integers(2, 9))
                deco, base = "_%d" % b, ["num", str(b)]
            elif bk == 1:
                b = draw(st.integers(2, 30))
                deco, base = "_{%d}" % b, ["num", str(b)]
            elif bk == 2:
                v = draw(st.sampled_from(["x", "y", "t"]))
                deco, base = "_" + v, ["sym", v]
            else:
                v = draw(st.sampled_from(["x", "y", "t"]))
                deco, base = "_{%s+1}" % v, ["+", ["sym", v], ["num", "1"]]
        p = None
        inv = False
        if sup == 1:
            n = draw(st.integers(0, 5))
            s, p = "^%d" % n, ["num", str(n)]
        elif sup == 2:
            n = draw(st.integers(-3, 4))
            s, p = "^{%d}" % n, ["num", str(n)]
            if n == -1 and ref in TRIG:
                inv, p = True, None
        elif sup == 3:
            v = draw(st.sampled_from(["x", "t"]))
            s, p = "^{%s}" % v, ["sym", v]
        else:
            s = ""
        if s and deco:
            # "_x^n" with an unbraced letter is a recorded finding (the base absorbs the exponent)
            deco = draw(st.sampled_from([deco + s, s + deco])) if deco[1].isdigit() or deco[1] == "{" else s + deco
        else:
            deco += s
        opened = False
        if draw(st.integers(0, 2)) > 0:
            a = draw(fexpr(depth - 1))
            l, r = draw(st.sampled_from(LEFT))
            arg, at = "%s(%s%s)" % (l, a.tex, r), a.tree
        else:
            arg, at = draw(simple_arg())
            opened = True
        tex = name + deco + arg
        if base is not None:
            tree = ["log", at, base]
        else:
            tree = ["fn", ("a" + ref) if inv else ref, at]
        if p is not None:
            tree = ["^", tree, p]
        return F(tex, tree, 4, opened)
    if k == 8:
        a = draw(fexpr(depth - 1))
        return F("\\sqrt{%s}" % a.tex, ["fn", "sqrt", a.tree], 5)
    if k == 9:
        a = draw(fexpr(depth - 1))
        f = draw(st.integers(0, 3))
        if f == 0:
            d = draw(st.integers(2, 9))
            return F("\\sqrt%d" % d, ["fn", "sqrt", ["num", str(d)]], 5)
        if f == 1:
            v = draw(st.sampled_from(["x", "t"]))
            return F("\\sqrt[%s]{%s}" % (v, a.tex), ["root", a.tree, ["sym", v]], 5)
        n = draw(st.integers(2, 7))
        return F("\\sqrt[%d]{%s}" % (n, a.tex), ["root", a.tree, ["num", str(n)]], 5)
    if k == 10:
        f = draw(st.integers(0, 4))
        e = draw(st.sampled_from(["e", "\\exponentialE"]))
        if f == 0:
            return F(e + ("" if e == "e" else " "), ["e"], 4)
        if f == 1:
            v = draw(st.sampled_from(VARS[:3]))
            return F("%s^%s" % (e, v), ["fn", "exp", ["sym", v]], 4)
        if f == 2:
            n = draw(st.integers(0, 5))
            return F("%s^%d" % (e, n), ["fn", "exp", ["num", str(n)]], 4)
        a = draw(fexpr(depth - 1))
        return F("%s^{%s}" % (e, a.tex), ["fn", "exp", a.tree], 4)
    a = draw(fexpr(depth - 1))
    l, r = draw(st.sampled_from(LEFT[1:]))
    return F("%s|%s%s|" % (l, a.tex, r), ["abs", a.tree], 5)


@st.composite
def fexpr(draw, depth=2):
    if depth <= 0:
        return draw(atom())
    k = draw(st.integers(0, 11))
    if k <= 4:
        return draw(call(depth))
    if k == 5:
        return draw(atom())
    sub = lambda: draw(fexpr(depth - 1))
    if k <= 7:
        a, b = sub(), close(draw, sub(), 1)
        if b.lvl == 2:
            b = group(draw, b)
        op = draw(st.sampled_from(["+", "-"]))
        return F(a.tex + op + b.tex, [op, a.tree, b.tree], 0, b.open)
    if k == 8:
        a, b = close(draw, sub(), 1), close(draw, sub(), 3)
        return F(a.tex + draw(st.sampled_from(["\\cdot ", "\\times ", "*"])) + b.tex, ["*", a.tree, b.tree], 1)
    if k == 9:
        a, b = sub(), sub()
        return F("\\frac{%s}{%s}" % (a.tex, b.tex), ["/", a.tree, b.tree], 5)
    if k == 10:
        a = sub()
        f = draw(st.integers(0, 2))
        a = close(draw, a, 5)
        if f == 0:
            n = draw(st.integers(0, 4))
            return F("%s^%d" % (a.tex, n), ["^", a.tree, ["num", str(n)]], 4)
        if f == 1:
            n = draw(st.integers(-3, 4))
            return F("%s^{%d}" % (a.tex, n), ["^", a.tree, ["num", str(n)]], 4)
        b = draw(fexpr(depth - 1))
        return F("%s^{%s}" % (a.tex, b.tex), ["^", a.tree, b.tree], 4)
    a = close(draw, sub(), 3)
    return F("-" + a.tex, ["neg", a.tree], 2)
