"""Generator of exact arithmetic in LaTeX together with its reference value (a Fraction).

Binding levels of a rendered piece (higher binds tighter):
 0 sum, 1 explicit product/quotient, 2 signed, 3 juxtaposition, 4 postfix/power, 5 closed"""
from fractions import Fraction
import math
from hypothesis import strategies as st

BIG = 10 ** 9

# (open, close) pairs of the documented grouping delimiters
GROUPS = [("(", ")"), ("{", "}"), ("[", "]"), (r"\{", r"\}"), (r"\lbrace ", r"\rbrace "),
          (r"\lgroup ", r"\rgroup "), (r"\lbrack ", r"\rbrack ")]
LEFT = [("", ""), (r"\left", r"\right"), (r"\mleft", r"\mright")]
ABSD = [("|", "|"), (r"\lvert ", r"\rvert "), (r"\vert ", r"\vert ")]
FLOORD = [(r"\lfloor ", r"\rfloor "), (r"\llcorner ", r"\lrcorner ")]
CEILD = [(r"\lceil ", r"\rceil "), (r"\ulcorner ", r"\urcorner ")]
FLOORF = [r"\floor", r"\operatorname{floor}"]
CEILF = [r"\ceil", r"\operatorname{ceil}"]
GCDF = [r"\gcd", r"\operatorname{gcd}"]
LCMF = [r"\lcm", r"\operatorname{lcm}"]
MULS = ["*", r"\cdot ", r"\times "]
DIVS = ["/", r"\div ", ":"]
FRACS = [r"\frac", r"\dfrac", r"\tfrac"]


class E:
    __slots__ = ("tex", "val", "lvl", "bar", "lit")

    def __init__(self, tex, val, lvl, bar=False, lit=False):
        self.tex, self.val, self.lvl, self.bar, self.lit = tex, Fraction(val), lvl, bar, lit


def wrap(draw, e):
    o, c = draw(st.sampled_from(GROUPS))
    l, r = draw(st.sampled_from(LEFT))
    return E(l + o + e.tex + r + c, e.val, 5, e.bar)


def paren(e):
    return E("(" + e.tex + ")", e.val, 5, e.bar)


def need(draw, e, lvl):
    if e.lvl >= lvl:
        return e
    return wrap(draw, e)


def commas(n):
    return f"{n:,}"


@st.composite
def literal(draw, integral=False):
    k = draw(st.integers(0, 9))
    if integral or k <= 3:
        n = draw(st.integers(0, 30))
        return E(str(n), n, 5, lit=True)
    if k == 4:
        n = draw(st.integers(0, 10 ** 7))
        return E(str(n), n, 5, lit=True)
    if k == 5:
        n = draw(st.integers(1000, 10 ** 8))
        return E(commas(n), n, 5, lit=True)
    if k in (6, 7):
        digits = draw(st.integers(1, 4))
        n = draw(st.integers(0, 10 ** digits * 30))
        q = 10 ** digits
        ip, fp = divmod(n, q)
        form = draw(st.integers(0, 2))
        tex = "%s.%0*d" % (commas(ip * 1000 + 7) if form == 2 else ip, digits, fp)
        v = Fraction(n, q)
        if form == 2:
            v = Fraction((ip * 1000 + 7) * q + fp, q)
        elif form == 1 and ip == 0:
            tex = tex[1:]
        return E(tex, v, 5, lit=True)
    if k == 8:
        m = draw(st.integers(0, 999))
        d = draw(st.integers(0, 2))
        ex = draw(st.integers(-4, 4))
        sign = draw(st.sampled_from(["", "+"])) if ex >= 0 else ""
        mant = str(m) if d == 0 else "%d.%0*d" % (m // 10 ** d, d, m % 10 ** d)
        v = Fraction(m, 10 ** d) * Fraction(10) ** ex
        return E("%sE%s%d" % (mant, sign, ex), v, 5, lit=True)
    d = draw(st.integers(0, 2))
    m = draw(st.integers(0, 30000))
    q = 10 ** d
    ip, fp = divmod(m, q)
    ipt = commas(ip) if draw(st.booleans()) else str(ip)
    return E("%s%s\\%%" % (ipt, ".%0*d" % (d, fp) if d else ""), Fraction(m, q * 100), 5, lit=True)


def ok(v):
    return abs(v.numerator) < BIG and v.denominator < BIG


def fallback(draw, e):
    return e


def sp(draw):
    return draw(st.sampled_from(["", " ", ""]))


@st.composite
def expr(draw, depth=3, integral=False):
    """integral: operands all integers and only integer-valued constructions"""
    if depth <= 0:
        return draw(literal(integral))
    k = draw(st.integers(0, 17))
    sub = lambda: draw(expr(depth - 1, integral))
    if k <= 1:
        return draw(literal(integral))
    if k <= 4:                                            # sum / difference
        a, b = sub(), sub()
        op = draw(st.sampled_from(["+", "-"]))
        v = a.val + b.val if op == "+" else a.val - b.val
        b = need(draw, b, 1)
        if not ok(v):
            return a
        return E(a.tex + sp(draw) + op + sp(draw) + b.tex, v, 0, a.bar or b.bar)
    if k <= 6:                                            # product
        a, b = sub(), sub()
        v = a.val * b.val
        if not ok(v):
            return a
        a, b = need(draw, a, 1), need(draw, b, 2)
        return E(a.tex + sp(draw) + draw(st.sampled_from(MULS)) + b.tex, v, 1, a.bar or b.bar)
    if k == 7 and not integral:                           # quotient
        a, b = sub(), sub()
        if b.val == 0 or not ok(a.val / b.val):
            return a
        a, b = need(draw, a, 1), need(draw, b, 4)
        if b.lvl == 2:
            b = wrap(draw, b)
        return E(a.tex + sp(draw) + draw(st.sampled_from(DIVS)) + sp(draw) + b.tex, a.val / b.val, 1, a.bar or b.bar)
    if k == 8 and not integral:                           # fraction
        a, b = sub(), sub()
        if b.val == 0 or not ok(a.val / b.val):
            return a
        f = draw(st.sampled_from(FRACS))
        form = draw(st.integers(0, 5))
        if form == 0:
            x, y = draw(st.integers(0, 9)), draw(st.integers(1, 9))
            return E(f + "%d%d" % (x, y), Fraction(x, y), 5)
        if form == 1:
            x = draw(st.integers(0, 9))
            return E(f + "%d{%s}" % (x, b.tex), x / b.val, 5, b.bar) if ok(x / b.val) else b
        if form == 2:
            y = draw(st.integers(1, 9))
            return E(f + "{%s}%d" % (a.tex, y), a.val / y, 5, a.bar) if ok(a.val / y) else a
        if form == 3:
            return E("{%s \\over %s}" % (need(draw, a, 1).tex, need(draw, b, 4).tex), a.val / b.val, 5, a.bar or b.bar)
        return E(f + "{%s}{%s}" % (a.tex, b.tex), a.val / b.val, 5, a.bar or b.bar)
    if k == 9:                                            # power
        a = sub()
        form = draw(st.integers(0, 3))
        if form == 0:
            n = draw(st.integers(0, 5))
            et, lv = str(n), n
        elif form == 1 and not integral:
            n = draw(st.integers(-4, -1))
            et = "{%d}" % n
        elif form == 2:
            x = draw(expr(1, True))
            if not (0 <= x.val <= 6):
                return a
            n, et = int(x.val), "{%s}" % x.tex
        else:
            n = draw(st.integers(0, 6))
            et = "{%d}" % n
        if a.val == 0 and n <= 0:
            return a
        v = a.val ** n
        if not ok(v):
            return a
        if a.lvl < 5:
            a = wrap(draw, a)
        return E(a.tex + "^" + et, v, 4, a.bar)
    if k == 10:                                           # factorial
        n = draw(st.integers(0, 7))
        f = draw(st.integers(0, 2))
        if f == 0 or n < 2:
            return E("%d!" % n, math.factorial(n), 4)
        if f == 1:
            m = draw(st.integers(1, n - 1))
            return E("(%d+%d)!" % (m, n - m), math.factorial(n), 4)
        return E("\\left(%d\\cdot 1\\right)!" % n, math.factorial(n), 4)
    if k == 11:                                           # signs
        a = sub()
        s = draw(st.sampled_from(["-", "-", "-", "+"]))
        a = need(draw, a, 3)
        return E(s + sp(draw) + a.tex, -a.val if s == "-" else a.val, 2, a.bar)
    if k == 12:                                           # juxtaposition
        a, b = need(draw, sub(), 3), sub()
        v = a.val * b.val
        if not ok(v):
            return a
        if b.lvl < 4 or not (b.tex.startswith("(") or b.tex.startswith("\\left(") or b.tex.startswith("\\frac")):
            b = paren(b)
        if a.bar or b.bar:
            a = paren(a) if a.bar else a
        return E(a.tex + sp(draw) + b.tex, v, 3, a.bar or b.bar)
    if k == 13:                                           # absolute value
        a = sub()
        o, c = draw(st.sampled_from(ABSD))
        l, r = draw(st.sampled_from(LEFT))
        if a.bar and l == "":
            return a
        return E(l + o + a.tex + r + c, abs(a.val), 5, l == "")
    if k == 14:                                           # floor / ceiling
        a = sub()
        up = draw(st.booleans())
        v = math.ceil(a.val) if up else math.floor(a.val)
        if draw(st.booleans()):
            f = draw(st.sampled_from(CEILF if up else FLOORF))
            l, r = draw(st.sampled_from(LEFT))
            return E("%s%s(%s%s)" % (f, l, a.tex, r), v, 5, a.bar)
        o, c = draw(st.sampled_from(CEILD if up else FLOORD))
        l, r = draw(st.sampled_from(LEFT))
        return E(l + o + a.tex + r + c, v, 5, a.bar)
    if k == 15:                                           # gcd, lcm, max, min
        f = draw(st.sampled_from(["gcd", "lcm", "max", "min"]))
        n = draw(st.integers(2, 4))
        l, r = draw(st.sampled_from(LEFT))
        if f in ("gcd", "lcm"):
            xs = [draw(st.integers(1, 40)) for _ in range(n)]
            if f == "lcm":
                xs = xs[:3]
            v = math.gcd(*xs) if f == "gcd" else math.lcm(*xs)
            name = draw(st.sampled_from(GCDF if f == "gcd" else LCMF))
            args = [str(x) for x in xs]
        else:
            es = [draw(expr(min(depth - 1, 1), integral)) for _ in range(n)]
            args = [e.tex for e in es]
            if any("," in t for t in args):
                es = [draw(literal(True)) for _ in range(n)]
                args = [e.tex for e in es]
            v = (max if f == "max" else min)(e.val for e in es)
            name = "\\" + f
        j = draw(st.sampled_from([",", ", "]))
        return E("%s%s(%s%s)" % (name, l, j.join(args), r), v, 5)
    if k == 16:                                           # binomials and permutations
        n = draw(st.integers(0, 9))
        m = draw(st.integers(0, n))
        form = draw(st.integers(0, 4))
        if form == 4:
            return E("(%d)_{%d}" % (n, m), math.perm(n, m), 4)
        if form == 3:
            return E("{%d \\choose %d}" % (n, m), math.comb(n, m), 5)
        return E("%s{%d}{%d}" % (["\\binom", "\\tbinom", "\\dbinom"][form], n, m), math.comb(n, m), 5)
    # modulus
    a, b = sub(), sub()
    if b.val == 0:
        return a
    v = a.val - b.val * math.floor(a.val / b.val)
    if not ok(v):
        return a
    a, b = need(draw, a, 4), need(draw, b, 4)
    return paren(E(a.tex + " \\mod " + b.tex, v, 1, a.bar or b.bar))


@st.composite
def arith_case(draw, depth=3, integral=False):
    e = draw(expr(depth, integral))
    return {"tex": e.tex, "value": str(e.val)}
