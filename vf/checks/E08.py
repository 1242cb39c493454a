"""Units, currency, percent, degrees, times and bases keep the value."""
from fractions import Fraction
from hypothesis import strategies as st
from vf.repo import *
from vf.gen_ans import *

PROPERTY = "E08"
RULE = ("Numbers (integers, decimals, fractions, mixed numbers, surds, multiples of pi) in random notations, decorated with every known "
        "unit (own copy of the documented list; \\text, \\mbox, after a space or, long units, directly; plurals, powers inside and outside), "
        "currency signs, \\text wrappers, dollar signs; percentages against p and p/100; degrees against d and d*pi/180; digits with base "
        "2-10 against digits and value; clock times against 12 and 24 hour forms. Counterpart: same number respelled (must match) or "
        "a clearly different one (must not). Non-trivial: the texts differ.")

LONG = ("立方厘米 立方分米 平方公里 平方英里 平方英寸 平方英寻 平方英尺 千公里 平方米 立方米 千米 厘米 分米 海里 毫米 公里 英里 公尺 英尺 元 分 角 米 度 里 升 "
        "centimeter second degree dollar minute radian square pound month units meter edges mile hour year cent foot feet inch yard week day rad mph").split()
SHORT = "eV kg mg km cm dm ml mL ft in a.m. p.m. am AM PM pm".split()
SINGLE = "L l m g".split()
ENGLISH = "centimeter second degree dollar minute radian square pound month meter mile hour year cent yard week day rad".split()


@st.composite
def unit(draw):
    """(suffix text) appended to a number"""
    k = draw(st.integers(0, 5))
    blanks = draw(st.sampled_from(["", " ", "\\ ", "\\,", " "]))
    if k <= 2:
        u = draw(st.sampled_from(LONG + SHORT + SINGLE))
        if u in ENGLISH and draw(st.integers(0, 2)) == 0:
            u += "s"
        if u == "inch" and draw(st.booleans()):
            u = "inches"
        p = draw(st.sampled_from(["", "", "^2", "^{2}", "^3", "^{10}"]))
        inner = draw(st.booleans())
        if p == "^{10}" and draw(st.booleans()):
            p = ""
        lead = draw(st.sampled_from(["", " ", "  "]))
        cmd = draw(st.sampled_from(["\\text", "\\text", "\\mbox"]))
        if inner:
            return blanks + "%s{%s%s%s}" % (cmd, lead, u, p if len(p) <= 2 or p[1] == "{" else "")
        return blanks + "%s{%s%s%s}%s" % (cmd, lead, u, draw(st.sampled_from(["", "", " "])) if not u.endswith("s") else "", p)
    if k == 3:
        u = draw(st.sampled_from(LONG))
        if u in ENGLISH and draw(st.booleans()):
            u += "s"
        return draw(st.sampled_from(["", " ", " ", "\\ "])) + u + draw(st.sampled_from(["", "", "^2", "^{3}"]))
    if k == 4:
        return draw(st.sampled_from([" ", " ", "  ", "\\ "])) + draw(st.sampled_from(SHORT)) + draw(st.sampled_from(["", "", "^2", "^{3}"]))
    # free words in \text
    w = draw(st.sampled_from(["apples", "square units", " cubic centimeters", "students", " miles per hour", "ways", " units"]))
    return blanks + "\\text{%s}" % w


@st.composite
def pair(draw, num):
    """two numbers and whether they are the same"""
    n = draw(num)
    if draw(st.integers(0, 2)) == 0:
        m = draw(mutant(n))
        if not clear(n, m):
            return None
        return n, m, False
    return n, n, True


def small():
    return st.one_of(integer(), rational(), rational(), surd(), pinum()).filter(lambda n: abs(n.val()) < 10 ** 12)


@st.composite
def unit_case(draw):
    x = draw(pair(small()))
    if not x:
        return None
    n, m, want = x
    a = spell(draw, n, False, False) + draw(unit())
    b = spell(draw, m, False, False)
    k = draw(st.integers(0, 3))
    if k == 0:
        b += draw(unit())
    if k == 1:
        a = draw(st.sampled_from(["$%s$", "\\text{%s}", " %s ", "\\mbox{%s}"])) % a
    return {"a": a, "b": b, "want": want, "how": "unit"}


@st.composite
def money_case(draw):
    n = draw(st.one_of(integer(), st.integers(1, 99999999).map(lambda c: N(Fraction(c, 100)))).filter(lambda n: abs(n.val()) < 10 ** 12))
    want = draw(st.integers(0, 2)) > 0
    m = n if want else draw(mutant(n))
    if not want and not clear(n, m):
        return None
    q = abs(n.r)
    t = "{:,}".format(q.numerator // q.denominator) if draw(st.booleans()) else str(q.numerator // q.denominator)
    if draw(st.booleans()):
        t = t.replace(",", draw(st.sampled_from(["{,}", ",\\!", ","])))
    cents = (q - q.numerator // q.denominator) * 100
    if cents or draw(st.booleans()):
        t += ".%02d" % int(cents)
    neg = "-" if n.r < 0 else ""
    a = draw(st.sampled_from([neg + "\\$" + t, neg + "\\$ " + t, neg + "$" + t, neg + t + "\\$", neg + t + " dollars", "\\$" + neg + t, neg + t + "\\text{ dollars}",
                              "$" + neg + "\\$" + t + "$", neg + t]))
    b = spell(draw, m, False, False)
    return {"a": a, "b": b, "want": want, "how": "currency"}


@st.composite
def percent_case(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        p = Fraction(draw(st.integers(1, 400)))
    elif k == 1:
        p = Fraction(draw(st.integers(1, 99999)), draw(st.sampled_from([10, 100, 1000])))
    elif k == 2:
        p = Fraction(draw(st.integers(1, 300)), draw(st.sampled_from([2, 3, 4, 6, 7, 8, 9])))
    else:
        p = Fraction(draw(st.integers(1000, 99999999)))
    if draw(st.integers(0, 4)) == 0:
        p = -p
    sign = draw(st.sampled_from(["\\%", "%", " \\%", " %", "\\%", "\\text{ percent}", " percent"]))

    def text(q):
        s = "-" if q < 0 else ""
        q = abs(q)
        d = q.denominator
        while d % 2 == 0:
            d //= 2
        while d % 5 == 0:
            d //= 5
        if d == 1:
            if q.denominator == 1:
                return s + draw(st.sampled_from(["{:,}", "{}", "{}.0"])).format(q.numerator)
            f = "{:.6f}".format(float(q)).rstrip("0")
            if Fraction(f) == q:
                return s + (f[1:] if f.startswith("0.") and draw(st.integers(0, 3)) == 0 else f)
        w, r = divmod(q.numerator, q.denominator)
        if w and draw(st.booleans()):
            return s + draw(st.sampled_from(["%d\\frac{%d}{%d}", "%d \\frac{%d}{%d}", "%d %d/%d"])) % (w, r, q.denominator)
        return s + draw(st.sampled_from(["\\frac{%d}{%d}", "\\dfrac{%d}{%d}", "%d/%d"])) % (q.numerator, q.denominator)

    a = text(p) + sign
    how = draw(st.sampled_from(["p", "p/100", "percent", "wrong", "wrong", "wrong percent"]))
    if how == "p":
        b = spell(draw, N(p), False, False)
    elif how == "p/100":
        b = spell(draw, N(p / 100), False, False)
    elif how == "percent":
        b = text(p) + draw(st.sampled_from(["\\%", "%", " \\%"]))
    elif how == "wrong":
        base = draw(st.sampled_from([p, p / 100]))
        m = draw(mutant(N(base)))
        if not m.rational or not clear(N(p), m) or not clear(N(p / 100), m):
            return None
        b = spell(draw, m, False, False)
    else:
        m = draw(st.one_of(mutant(N(p)), st.sampled_from([N(p * 100), N(p / 100)])))
        if not m.rational or not clear(N(p), m) or not clear(N(p / 100), N(m.r / 100)):
            return None
        b = text(m.r) + draw(st.sampled_from(["\\%", "%", " \\%"]))
    if draw(st.integers(0, 3)) == 0:
        a = "$%s$" % a if "$" not in a else a
    return {"a": a, "b": b, "want": "wrong" not in how, "how": how}


@st.composite
def degree_case(draw):
    d = draw(st.one_of(st.integers(1, 720).map(Fraction), st.integers(1, 72).map(lambda k: Fraction(5 * k)),
                       st.integers(1, 7200).map(lambda k: Fraction(k, 10)), st.integers(1, 400).map(lambda k: Fraction(k, 2))))
    if draw(st.integers(0, 4)) == 0:
        d = -d
    circ = ["^\\circ", "^{\\circ}", "^ \\circ", " ^\\circ", "^{ \\circ }", "\\degree", "°"]

    def text(q):
        s, q = ("-" if q < 0 else ""), abs(q)
        if q.denominator == 1:
            t = str(q)
        else:
            t = "{:.4f}".format(float(q)).rstrip("0")
            if draw(st.integers(0, 2)) == 0:
                t = draw(st.sampled_from(["\\frac{%d}{%d}", "\\dfrac{%d}{%d}"])) % (q.numerator, q.denominator)
        return s + t + draw(st.sampled_from(circ))
    a = text(d)
    how = draw(st.sampled_from(["d", "radians", "degrees", "wrong", "wrong radians", "wrong degrees"]))
    vals = [N(d), N(0, d / 180, 0)]
    if how == "d":
        b = spell(draw, vals[0], False, False)
    elif how == "radians":
        b = spell(draw, vals[1], False, False)
    elif how == "degrees":
        b = text(d)
    elif how == "wrong degrees":
        m = draw(mutant(vals[0]))
        if not m.rational or m.r.denominator not in (1, 2, 4, 5, 10, 20):
            return None
        if not clear(vals[0], m) or not clear(vals[1], N(0, m.r / 180, 0)):
            return None
        b = text(m.r)
    else:
        m = draw(mutant(vals[how == "wrong radians"]))
        if not all(clear(x, m) for x in vals):
            return None
        b = spell(draw, m, False, False)
    return {"a": a, "b": b, "want": "wrong" not in how, "how": how}


def digits(n, b):
    s = ""
    while True:
        n, r = divmod(n, b)
        s = str(r) + s
        if not n:
            return s


@st.composite
def base_case(draw):
    b = draw(st.integers(2, 10))
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 5000), st.integers(1, 10 ** 7)))
    ds = digits(n, b)

    def sub(ds, b):
        if b < 10 and draw(st.booleans()):
            return "%s_%d" % (ds, b)
        return "%s_{%d}" % (ds, b)
    a = sub(ds, b)
    how = draw(st.sampled_from(["digits", "value", "same", "other base", "wrong", "wrong base"]))
    if how == "digits":
        t = ds
    elif how == "value":
        t = spell(draw, N(n), False, False)
    elif how == "same":
        t = sub(ds, b)
    elif how == "other base":
        c = draw(st.integers(2, 10))
        t = sub(digits(n, c), c)
    elif how == "wrong":
        m = draw(mutant(N(draw(st.sampled_from([n, int(ds)])))))
        if m.rational and m.r.denominator == 1 and m.r in (n, int(ds)) or not (clear(N(n), m) and clear(N(int(ds)), m)):
            return None
        t = spell(draw, m, False, False)
    else:
        c = draw(st.integers(2, 10))
        m = draw(st.sampled_from([n + 1, n - 1, n + b, n + c, 2 * n, "digits"]))
        t = digits(m, c) if m != "digits" else ds                   # the same digits in another base
        if m == "digits" and (c <= int(max(ds)) or c == b or len(ds) == 1) or m != "digits" and m <= 0:
            return None
        t = sub(t, c)
    if draw(st.integers(0, 4)) == 0:
        a = "$%s$" % a
    return {"a": a, "b": t, "want": "wrong" not in how, "how": how}


@st.composite
def time_case(draw):
    h, m = draw(st.integers(0, 23)), draw(st.one_of(st.just(0), st.integers(0, 59)))
    s = draw(st.sampled_from([None, None, None, 0, 15, 59, 7]))

    def clock(h, m, s, twelve, pm_only=False):
        t = ""
        if twelve:
            hh = h % 12 or 12
            mer = "am" if h < 12 else "pm"
            mer = draw(st.sampled_from([mer, mer.upper(), mer[0] + ".m.", mer[0].upper() + ".M."]))
            mer = draw(st.sampled_from([mer, " " + mer, " \\text{%s}" % mer, "\\text{ %s}" % mer, " \\text{ %s }" % mer]))
        else:
            hh, mer = h, ""
        t = draw(st.sampled_from(["%d", "%02d"])) % hh
        if not (m or s) and twelve and draw(st.integers(0, 2)) == 0:
            return t + mer
        t += ":%02d" % m
        if s is not None:
            t += ":%02d" % s
        return t + mer
    how = draw(st.sampled_from(["12/24", "12/12", "24/24", "wrong minute", "wrong hour", "wrong second"]))
    x, y = {"12/24": (True, False), "12/12": (True, True), "24/24": (False, False)}.get(how, (draw(st.booleans()), draw(st.booleans())))
    h2, m2, s2 = h, m, s
    if how == "wrong minute":
        m2 = draw(st.integers(0, 59).filter(lambda k: k != m))
    elif how == "wrong hour":
        h2 = (h + 12) % 24 if x and y and draw(st.booleans()) else draw(st.integers(0, 23).filter(lambda k: (k - h) % 12))
    elif how == "wrong second":
        s2 = draw(st.integers(0, 59).filter(lambda k: k != (s or 0)))
    if not s2 and draw(st.booleans()):
        s2 = None if s2 is not None else 0
    if s2 and how == "wrong second" and not (m or s):
        # an hour and an hour with seconds: different shapes, still different times
        pass
    a, b = clock(h, m, s, x), clock(h2, m2, s2, y)
    if draw(st.integers(0, 4)) == 0:
        a = "$%s$" % a
    return {"a": a, "b": b, "want": "wrong" not in how, "how": how}


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"], case["how"])
    expect_equiv(case["b"], case["a"], case["want"], case["how"])
    return [case["how"]]


def all_units(tier, seed):
    cases = []
    for u in LONG + SHORT + SINGLE:
        for f in ["%s\\text{ U}", "%s\\text{U}", "%s \\mbox{U}^2", "%s\\text{ U}^{3}", "%s\\mbox{ U^2}"] + (["%sU", "%s U", "%s U^2"] if u in LONG else []) \
                + (["%s U", "%s U^{2}"] if u in SHORT else []):
            for n in (["-2.5", "\\frac{3}{4}", "1,024"] if tier == "thorough" else ["-2.5"]):
                v = {"-2.5": "-\\frac{5}{2}", "\\frac{3}{4}": "0.75", "1,024": "1024"}[n]
                cases.append({"a": f.replace("U", u) % n, "b": v, "want": True, "how": "every unit"})
    return cases


NT = lambda c: c["a"] != c["b"]
SUBS = [
    Sub("every-unit", check_pair, cases=all_units, nontrivial=NT, chunk=40),
    Sub("units", check_pair, lambda: unit_case().filter(bool), nontrivial=NT, quick=500, chunk=30),
    Sub("currency", check_pair, lambda: money_case().filter(bool), nontrivial=NT, quick=160, chunk=20),
    Sub("percent", check_pair, lambda: percent_case().filter(bool), nontrivial=NT, quick=300, chunk=20),
    Sub("degrees", check_pair, lambda: degree_case().filter(bool), nontrivial=NT, quick=240, chunk=20),
    Sub("bases", check_pair, lambda: base_case().filter(bool), nontrivial=NT, quick=240, chunk=20),
    Sub("times", check_pair, lambda: time_case().filter(bool), nontrivial=NT, quick=240, chunk=20),
]
