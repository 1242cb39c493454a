"""Complex numbers match exactly when both parts match."""
from fractions import Fraction
import mpmath
from hypothesis import strategies as st
from vf.repo import *
from vf.gen_ans import N, spell, clear_val, near_val, FRACS, SQF

PROPERTY = "E09"
RULE = ("Complex numbers with known exact parts: Gaussian rationals (rectangular in any order, common denominators, products, quotients, "
        "powers, sums, multiples and powers of i), surd parts, \\sqrt{-n}, exponential and trigonometric form with angles k*pi/12 of closed form, "
        "rounded decimals. Same: two forms of one number; different: conjugate, swapped, negated, altered part, modulus, single part, "
        "times i; plus lists, tuples and sets of complex numbers. Oracle: 40-digit parts. Non-trivial: imaginary part non-zero and texts differ.")
I_FORMS = ["i", "i", "i", "i", "i", "I", "\\mathrm{i}"]


class Z:
    """re + im*i with N parts"""
    def __init__(self, re, im):
        self.re, self.im = (x if isinstance(x, N) else N(x) for x in (re, im))

    def val(self):
        return mpmath.mpc(self.re.val(), self.im.val())


def clear(a, b):
    return clear_val(a.real, b.real) or clear_val(a.imag, b.imag)


def gmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def ginv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


def wfrac(draw, q, plain=False):
    """text of a nonnegative rational"""
    if q.denominator == 1:
        return str(q.numerator)
    k = draw(st.integers(0, 3))
    if k == 0:
        d = q.denominator
        while d % 2 == 0:
            d //= 2
        while d % 5 == 0:
            d //= 5
        if d == 1:
            f = "{:.8f}".format(float(q)).rstrip("0")
            if Fraction(f) == q:
                return f
    return "%s{%d}{%d}" % (draw(st.sampled_from(FRACS)), q.numerator, q.denominator)


def iterm(draw, q, i):
    """text of |q| * i"""
    q = abs(q)
    if q == 1:
        return draw(st.sampled_from([i, i, "1" + i]))
    if q.denominator == 1:
        return draw(st.sampled_from(["%d" % q + i, "%d " % q + i, i + "\\cdot %d" % q, "%d\\cdot " % q + i, i + " \\times %d" % q, "%d" % q + i]))
    k = draw(st.integers(0, 3))
    f = draw(st.sampled_from(FRACS))
    if k == 0:
        num = i if q.numerator == 1 else str(q.numerator) + i
        return "%s{%s}{%d}" % (f, num, q.denominator)
    if k == 1:
        num = i if q.numerator == 1 else str(q.numerator) + i
        return "%s/%d" % (num, q.denominator)
    return wfrac(draw, q) + i


def rect(draw, g, i):
    a, b = g
    if b == 0:
        t = ("-" if a < 0 else "") + wfrac(draw, abs(a))
        if draw(st.integers(0, 4)) == 0:
            t += draw(st.sampled_from(["+0" + i, "-0" + i]))
        return t
    if a == 0:
        t = ("-" if b < 0 else "") + iterm(draw, b, i)
        return draw(st.sampled_from([t, t, "0" + ("" if b < 0 else "+") + t]))
    d = a.denominator * b.denominator
    if d > 1 and draw(st.integers(0, 2)) == 0:
        # over one denominator
        import math
        m = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
        inner = rect(draw, (a * m, b * m), i)
        return "%s{%s}{%d}" % (draw(st.sampled_from(FRACS)), inner, m)
    re = ("-" if a < 0 else "") + wfrac(draw, abs(a))
    im = iterm(draw, b, i)
    plus, minus = draw(st.sampled_from([("+", "-"), (" + ", " - ")]))
    if draw(st.booleans()):
        return re + (minus if b < 0 else plus) + im
    return ("-" if b < 0 else "") + im + (minus if a < 0 else plus) + wfrac(draw, abs(a))


def paren(t):
    return "(" + t + ")"


small = st.integers(-6, 6).map(Fraction)
grat = st.one_of(small, small, st.builds(Fraction, st.integers(-12, 12), st.integers(2, 6)))


@st.composite
def gauss(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return (Fraction(draw(st.integers(-99, 99))), Fraction(draw(st.integers(-99, 99))))
    return (draw(grat), draw(grat))


def gform(draw, g, i, depth=1):
    k = draw(st.sampled_from(["rect", "rect", "rect", "prod", "quot", "sum", "neg", "over i", "scale", "ipow"])) if depth else "rect"
    if k == "rect":
        return rect(draw, g, i)
    w = (Fraction(draw(st.integers(-4, 4))), Fraction(draw(st.sampled_from([-3, -2, -1, 1, 2, 3]))))
    if k == "prod":
        q = gmul(g, ginv(w))
        return paren(rect(draw, w, i)) + draw(st.sampled_from(["", "\\cdot ", "*"])) + paren(rect(draw, q, i))
    if k == "quot":
        q = gmul(g, w)
        if draw(st.booleans()):
            return "%s{%s}{%s}" % (draw(st.sampled_from(FRACS)), rect(draw, q, i), rect(draw, w, i))
        return paren(rect(draw, q, i)) + "/" + paren(rect(draw, w, i))
    if k == "sum":
        q = (g[0] - w[0], g[1] - w[1])
        return paren(rect(draw, q, i)) + "+" + paren(rect(draw, w, i))
    if k == "neg":
        return "-" + paren(rect(draw, (-g[0], -g[1]), i))
    if k == "over i":
        q = gmul(g, (Fraction(0), Fraction(1)))
        return "%s{%s}{%s}" % (draw(st.sampled_from(FRACS)), rect(draw, q, i), i)
    if k == "scale":
        n = draw(st.integers(2, 5))
        return "%d%s" % (n, paren(rect(draw, (g[0] / n, g[1] / n), i)))
    # re*i^(4a) + im*i^(4b+1) ...
    parts = []
    for c, e in ((g[0], 0), (g[1], 1)):
        if c == 0:
            continue
        e += draw(st.sampled_from([0, 2, 4]))
        if e % 4 >= 2:
            c = -c
        p = i if e == 1 else ("" if e == 0 else i + "^%d" % e if draw(st.booleans()) else i + "^{%d}" % e)
        parts.append((c, p))
    if not parts:
        return "0" + i
    t = ""
    for n, (c, p) in enumerate(parts):
        t += ("-" if c < 0 else "+" if n else "")
        a = abs(c)
        t += p if (a == 1 and p) else wfrac(draw, a) + p
    return t


@st.composite
def gauss_family(draw):
    g = draw(gauss())
    forms = lambda draw, i: gform(draw, g, i)
    return Z(*g), forms


@st.composite
def power_family(draw):
    b = (Fraction(draw(st.integers(-4, 4))), Fraction(draw(st.sampled_from([-3, -2, -1, 1, 2, 3]))))
    n = draw(st.integers(2, 6))
    g = (Fraction(1), Fraction(0))
    for _ in range(n):
        g = gmul(g, b)

    def forms(draw, i):
        k = draw(st.integers(0, 2))
        if k == 0:
            return paren(rect(draw, b, i)) + draw(st.sampled_from(["^%d", "^{%d}"])) % n
        return gform(draw, g, i)
    return Z(*g), forms


ANGLE = {0: (N(1), N(0)), 2: (N(0, Fraction(1, 2), 3), N(Fraction(1, 2))), 3: (N(0, Fraction(1, 2), 2), N(0, Fraction(1, 2), 2)),
         4: (N(Fraction(1, 2)), N(0, Fraction(1, 2), 3)), 6: (N(0), N(1))}


def cis(k):
    k %= 24
    q, r = divmod(k, 6)
    c, s = ANGLE[r]
    for _ in range(q):
        c, s = -s, c
    return c, s


def wsurd(draw, n, i=None):
    """text of a nonnegative N, times i if given"""
    if n.rational:
        return iterm(draw, n.r, i) if i else wfrac(draw, abs(n.r))
    c, rt = abs(n.c), "\\sqrt{%d}" % n.d
    a = "" if c.numerator == 1 else str(c.numerator)
    iv = i or ""
    if c.denominator == 1:
        return draw(st.sampled_from([a + rt + iv, a + rt + " " + iv] if not i else [a + rt + i, a + i + rt, a + rt + " " + i, i + "\\cdot " + a + rt]))
    f = draw(st.sampled_from(FRACS))
    return draw(st.sampled_from(["%s{%s}{%d}%s" % (f, a + rt, c.denominator, iv), "%s{%s}{%d}" % (f, a + rt + iv, c.denominator),
                                 "%s{%d}{%d}%s%s" % (f, c.numerator, c.denominator, rt, iv)]))


def sgn(n):
    v = n.val()
    return -1 if v < 0 else 1


def srect(draw, z, i):
    parts = []
    if not (z.re.rational and z.re.r == 0):
        parts.append((sgn(z.re), wsurd(draw, z.re)))
    if not (z.im.rational and z.im.r == 0):
        parts.append((sgn(z.im), wsurd(draw, z.im, i)))
    if not parts:
        return "0"
    if draw(st.integers(0, 2)) == 0:
        parts.reverse()
    t = ""
    for n, (s, p) in enumerate(parts):
        t += ("-" if s < 0 else "+" if n else "") + p
    return t


def dec(draw, z, i):
    """rounded to five digits"""
    def r(v):
        return mpmath.nstr(mpmath.nint(v * 10 ** 6) / 10 ** 6, 15, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
    re, im = z.re.val(), z.im.val()
    return "%s%s%s%s" % (r(re), "-" if im < 0 else "+", r(abs(im)), i)


@st.composite
def polar_family(draw):
    k = draw(st.sampled_from([2, 3, 4, 6, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 22, -2, -3, -4, -6, -8]))
    r = Fraction(draw(st.integers(1, 9)))
    c, s = cis(k)
    z = Z(N(c.r * r, c.c * r, c.d), N(s.r * r, s.c * r, s.d))

    def forms(draw, i):
        m = draw(st.integers(0, 5))
        q = Fraction(k, 12)
        sign = "-" if q < 0 else ""
        a = abs(q)
        num = ("" if a.numerator == 1 else str(a.numerator)) + "\\pi"
        f = draw(st.sampled_from(FRACS))
        rr = "" if r == 1 else str(r)
        if m <= 1:
            ang = num if a.denominator == 1 else draw(st.sampled_from(["%s{%s}{%d}" % (f, num, a.denominator), num + "/%d" % a.denominator]))
            e = draw(st.sampled_from([sign + i + ang, sign + ang + i, sign + ang + " " + i, sign + i + "\\cdot " + ang])) if "/" not in ang else sign + i + ang
            if a.denominator != 1 and draw(st.integers(0, 2)) == 0:
                e = sign + "%s{%s}{%d}" % (f, draw(st.sampled_from([i + num, num + i])), a.denominator)
            return rr + "e^{%s}" % e
        if m == 2:
            ang = num if a.denominator == 1 else "%s{%s}{%d}" % (f, num, a.denominator)
            t = "\\cos%s+%s\\sin%s" % (paren(sign + ang), i, paren(sign + ang))
            return t if r == 1 else rr + paren(t)
        if m == 3:
            return dec(draw, z, i)
        return srect(draw, z, i)
    return z, forms


@st.composite
def root_family(draw):
    a = Fraction(draw(st.integers(-9, 9)))
    d = draw(st.sampled_from([1, 4, 9, 16, 25, 49] + SQF))
    c = Fraction(draw(st.integers(1, 6)), draw(st.sampled_from([1, 1, 2, 3])))
    s = draw(st.sampled_from([1, -1]))
    import math
    r = math.isqrt(d)
    im = N(c * r) if r * r == d else N(0, c, d)
    z = Z(N(a), im if s > 0 else -im)

    def forms(draw, i):
        m = draw(st.integers(0, 3))
        if m <= 1:
            rt = "\\sqrt{-%d}" % d
            t = rt if c == 1 else wfrac(draw, c) + rt
            if a == 0:
                return ("-" if s < 0 else "") + t
            if draw(st.integers(0, 2)) == 0:
                return ("-" if s < 0 else "") + t + ("-" if a < 0 else "+") + str(abs(a))
            return str(a) + ("-" if s < 0 else "+") + t
        if m == 2:
            return dec(draw, z, i)
        return srect(draw, z, i)
    return z, forms


def family():
    return st.one_of(gauss_family(), gauss_family(), power_family(), polar_family(), root_family())


@st.composite
def wrong(draw, z):
    k = draw(st.sampled_from(["conj", "swap", "neg", "re", "im", "mod", "only re", "only im", "times i"]))
    re, im = z.re, z.im
    if k == "conj":
        w = Z(re, -im)
    elif k == "swap":
        w = Z(im, re)
    elif k == "neg":
        w = Z(-re, -im)
    elif k == "re":
        w = Z(N(re.r + draw(st.sampled_from([-1, 1, 2, Fraction(1, 2)])), re.c, re.d), im)
    elif k == "im":
        w = Z(re, N(im.r + draw(st.sampled_from([-1, 1, 2, Fraction(1, 2)])), im.c, im.d))
    elif k == "only re":
        w = Z(re, N(0))
    elif k == "only im":
        w = Z(N(0), im) if draw(st.booleans()) else Z(im, N(0))
    elif k == "times i":
        w = Z(-im, re)
    else:
        if not (re.rational and im.rational):
            w = Z(-re, im)
        else:
            q = re.r ** 2 + im.r ** 2
            return "\\sqrt{%s}" % (q if q.denominator == 1 else "\\frac{%d}{%d}" % (q.numerator, q.denominator)), mpmath.mpc(mpmath.sqrt(mpmath.mpf(q.numerator) / q.denominator)), k
    return w, w.val(), k


def wrong_text(draw, w, i):
    if isinstance(w, str):
        return w
    if w.re.rational and w.im.rational:
        return gform(draw, (w.re.r, w.im.r), i)
    if (w.re.r and w.re.c) or (w.im.r and w.im.c):
        return None
    return srect(draw, w, i)


@st.composite
def pair_case(draw):
    z, forms = draw(family())
    a = forms(draw, draw(st.sampled_from(I_FORMS)))
    if draw(st.integers(0, 2)):
        b, want, how = forms(draw, draw(st.sampled_from(I_FORMS))), True, "same"
    else:
        w, v, how = draw(wrong(z))
        if not clear(z.val(), v):
            return None
        b, want = wrong_text(draw, w, draw(st.sampled_from(I_FORMS))), False
        if b is None:
            return None
    if draw(st.integers(0, 5)) == 0:
        a = "$%s$" % a
    return {"a": a, "b": b, "want": want, "how": how, "im": not (z.im.rational and z.im.r == 0)}


@st.composite
def list_case(draw):
    """roots of a quadratic and the like"""
    n = draw(st.integers(2, 3))
    fams = [draw(st.one_of(gauss_family(), polar_family(), root_family())) for _ in range(n)]
    vals = [z.val() for z, _ in fams]
    for i in range(n):
        for j in range(i):
            if not clear(vals[i], vals[j]):
                return None
    a = [f(draw, "i") for _, f in fams]
    want = True
    how = "same"
    if draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(0, n - 1))
        w, v, how = draw(wrong(fams[k][0]))
        if not all(clear(v, x) for x in vals):
            return None
        t = wrong_text(draw, w, "i")
        if t is None:
            return None
        b = [f(draw, "i") for _, f in fams]
        b[k] = t
        want = False
    else:
        b = [f(draw, "i") for _, f in fams]
    kind = draw(st.sampled_from(["set", "set", "tuple"]))
    if kind == "tuple":
        if want and draw(st.integers(0, 2)) == 0:
            b = b[1:] + b[:1]
            want, how = False, "rotated"
        ta, tb = "(" + ", ".join(a) + ")", "(" + ",".join(b) + ")"
    else:
        b = draw(st.permutations(b))
        fa, fb = draw(st.sampled_from(["%s", "\\{%s\\}", "{%s}"])), draw(st.sampled_from(["%s", "\\{%s\\}"]))
        ta, tb = fa % ", ".join(a), fb % draw(st.sampled_from([", ", ","])).join(b)
    return {"a": ta, "b": tb, "want": want, "how": kind + " " + how, "im": True}


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"], case["how"])
    expect_equiv(case["b"], case["a"], case["want"], case["how"])
    r = equiv_type(case["a"], case["b"], "Complex")
    if case["want"] and not r:
        raise Violation("is_equiv_type(%r, %r, 'Complex') = %r, expected True" % (case["a"], case["b"], r))
    if not case["want"] and r and case["how"].split()[0] not in ("set", "tuple"):
        raise Violation("is_equiv_type(%r, %r, 'Complex') = %r, expected False" % (case["a"], case["b"], r))
    return [case["how"]]


NT = lambda c: c["a"] != c["b"] and c["im"]
SUBS = [
    Sub("numbers", check_pair, lambda: pair_case().filter(bool), nontrivial=NT, quick=700, chunk=30),
    Sub("collections", check_pair, lambda: list_case().filter(bool), nontrivial=NT, quick=160, chunk=20),
]
