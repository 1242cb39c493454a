"""Generator of answers as people and models write them, with exact reference values.

A number is N(kind, data): rational q | surd r + c*sqrt(d) | c*pi.  `spell` draws one of
its notations; `clear` says two numbers differ beyond the documented tolerance whichever
of them is the ground truth; `mutants` draws a realistic wrong number."""
from fractions import Fraction
import math
import mpmath
from hypothesis import strategies as st

mpmath.mp.dps = 40
FRACS = ["\\frac", "\\dfrac", "\\tfrac"]
MUL = ["\\cdot ", "\\times ", "*"]


class N:
    __slots__ = ("r", "c", "d")       # r + c * sqrt(d);  d == 0 stands for pi

    def __init__(self, r, c=0, d=1):
        self.r, self.c, self.d = Fraction(r), Fraction(c), d
        if self.d == 1:
            self.r, self.c = self.r + self.c, Fraction(0)
        if self.c == 0:
            self.d = 1

    @property
    def rational(self):
        return self.c == 0

    def val(self):
        v = mpmath.mpf(self.r.numerator) / self.r.denominator
        if self.c:
            t = mpmath.pi if self.d == 0 else mpmath.sqrt(self.d)
            v += t * self.c.numerator / self.c.denominator
        return v

    def __neg__(self):
        return N(-self.r, -self.c, self.d)

    def same(self, o):
        return (self.r, self.c, self.d) == (o.r, o.c, o.d)


def clear_val(x, y):
    """Unequal beyond tolerance, in both argument orders (40-digit values)."""
    d = abs(x - y)
    for g in (x, y):
        g = abs(g)
        if g >= 1 - mpmath.mpf(10) ** -9:
            ok = d > mpmath.mpf("0.00502")
        elif g == 0:
            ok = d > mpmath.mpf("0.00102")
        else:
            ok = d > g * mpmath.mpf("0.00102")
        if not ok:
            return False
    return True


def near_val(x, y):
    """Equal within tolerance, in both argument orders, with a margin (tolerance for integers is the narrow one)."""
    d = abs(x - y)
    for g in (x, y):
        g = abs(g)
        lim = mpmath.mpf("0.0009") if g >= 1 or g == 0 else g * mpmath.mpf("0.0009")
        if d > lim:
            return False
    return True


def clear(a, b):
    return clear_val(a.val(), b.val())


# ------------------------------------------------------------------ values
def squarefree(n):
    s = 1
    p = 2
    while p * p <= n:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1
    return s, n


SQF = [2, 3, 5, 6, 7, 10, 11, 13, 14, 15, 17, 19, 21, 22, 23, 26, 29, 30]


@st.composite
def integer(draw):
    k = draw(st.integers(0, 6))
    if k <= 2:
        n = draw(st.integers(0, 40))
    elif k <= 4:
        n = draw(st.integers(0, 9999))
    elif k == 5:
        n = draw(st.integers(1000, 10 ** 9))
    else:
        n = draw(st.integers(10 ** 9, 10 ** draw(st.integers(10, 24))))
    return N(-n if draw(st.integers(0, 3)) == 0 else n)


@st.composite
def rational(draw):
    k = draw(st.integers(0, 5))
    if k <= 2:
        q = Fraction(draw(st.integers(1, 60)), draw(st.integers(2, 40)))
    elif k == 3:
        q = Fraction(draw(st.integers(1, 99999)), 10 ** draw(st.integers(1, 5)))
    elif k == 4:
        q = Fraction(draw(st.integers(1, 5000)), draw(st.integers(2, 999)))
    else:
        q = draw(st.integers(1, 99)) + Fraction(draw(st.integers(1, 12)), draw(st.integers(2, 13)))
    return N(-q if draw(st.integers(0, 3)) == 0 else q)


@st.composite
def surd(draw):
    d = draw(st.sampled_from(SQF))
    c = Fraction(draw(st.integers(1, 12)), draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 7])))
    if draw(st.integers(0, 3)) == 0:
        c = -c
    r = Fraction(0)
    if draw(st.booleans()):
        r = Fraction(draw(st.integers(-12, 12)), c.denominator if draw(st.booleans()) else 1)
    return N(r, c, d)


@st.composite
def pinum(draw):
    c = Fraction(draw(st.integers(1, 40)), draw(st.sampled_from([1, 1, 1, 2, 3, 4, 6, 5, 12])))
    if draw(st.integers(0, 3)) == 0:
        c = -c
    return N(0, c, 0)


def number():
    return st.one_of(integer(), integer(), rational(), rational(), surd(), pinum())


def exact_small():
    """Values for members of collections: moderate integers, fractions, surds."""
    return st.one_of(st.integers(-30, 30).map(N), st.integers(-30, 30).map(N), rational(), surd(), pinum())


# ---------------------------------------------------------------- notations
def _dec(q):
    """Terminating decimal text of |q|, or None."""
    d = q.denominator
    k = 0
    while d % 2 == 0:
        d //= 2
        k += 1
    m = 0
    while d % 5 == 0:
        d //= 5
        m += 1
    if d != 1 or max(k, m) > 7:
        return None
    k = max(k, m)
    n = abs(q.numerator) * 10 ** k // q.denominator
    s = str(n)
    if k == 0:
        return s
    s = s.zfill(k + 1)
    return s[:-k] + "." + s[-k:]


def _frac(draw, num, den, plain=False):
    if plain and num.isdigit() and den.isdigit() and len(num) == 1 and len(den) == 1 and draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(FRACS)) + num + den
    return "%s{%s}{%s}" % (draw(st.sampled_from(FRACS)), num, den)


def _commas(draw, n):
    sep = draw(st.sampled_from([",", ",", "{,}", ",\\!", ", "[0:1]]))
    return f"{n:,}".replace(",", sep)


# each writer returns text of a nonnegative number; `closed` = may be followed/preceded by operators safely
def _w_int(draw, n, collection):
    ks = ["plain"] * 4 + ["dot0", "frac", "sum", "prod", "group", "pow1", "sqrt"]
    if n >= 1000 and not collection:
        ks += ["commas"] * 3
    if n >= 1000 and not collection:
        ks += ["sci"] * 2
    k = draw(st.sampled_from(ks))
    if k == "plain":
        return str(n), True
    if k == "dot0":
        return "%d.%s" % (n, "0" * draw(st.integers(1, 3))), True
    if k == "frac":
        m = draw(st.integers(1, 12))
        if draw(st.booleans()):
            return _frac(draw, str(n * m), str(m)), True
        return "%d/%d" % (n * m, m), False
    if k == "sum":
        m = draw(st.integers(1, 50))
        return ("%d+%d" % (n - m, m) if n >= m else "%d-%d" % (n + m, m)), False
    if k == "prod":
        for p in (2, 3, 5, 7):
            if n % p == 0 and n:
                return "%d%s%d" % (p, draw(st.sampled_from(MUL)), n // p), False
        return "1%s%d" % (draw(st.sampled_from(MUL)), n), False
    if k == "group":
        return draw(st.sampled_from(["(%d)", "{%d}", "\\left(%d\\right)"])) % n, True
    if k == "pow1":
        r = math.isqrt(n)
        if r * r == n and r > 1:
            return draw(st.sampled_from(["%d^2", "%d^{2}"])) % r, True
        return str(n), True
    if k == "sqrt":
        if n < 10 ** 6:
            return "\\sqrt{%d}" % (n * n), True
        return str(n), True
    if k == "commas":
        return _commas(draw, n), True
    if k == "sci":
        s = str(n)
        z = len(s) - len(s.rstrip("0"))
        head = s[:-z] if z else s
        man = head[0] + ("." + head[1:] if len(head) > 1 else "")
        e = len(s) - 1
        f = draw(st.integers(0, 5))
        if f == 0:
            return "%se%d" % (man, e), True
        if f == 1:
            return "%sE%s%d" % (man, draw(st.sampled_from(["", "+"])), e), True
        if f == 2:
            return "%s*10^%s" % (man, e if e < 10 else "{%d}" % e), False
        return "%s%s10^{%d}" % (man, draw(st.sampled_from(["\\times ", "\\cdot ", "\\times", "\\cdot"])), e), False


def _w_rat(draw, q, collection):
    n, d = q.numerator, q.denominator
    ks = ["frac"] * 4 + ["slash"] * 2 + ["unred", "over", "neg1pow"]
    dec = _dec(q)
    if dec:
        ks += ["dec"] * 4
        if q < 1:
            ks += ["decnozero", "decsci"]
    if n > d:
        ks += ["mixed"] * 3
    k = draw(st.sampled_from(ks))
    if k == "frac":
        return _frac(draw, str(n), str(d), plain=True), True
    if k == "slash":
        return "%d/%d" % (n, d), False
    if k == "unred":
        m = draw(st.integers(2, 9))
        return _frac(draw, str(n * m), str(d * m)), True
    if k == "over":
        return "{%d \\over %d}" % (n, d), True
    if k == "neg1pow":
        return "%d%s%d^{-1}" % (n, draw(st.sampled_from(MUL)), d), False
    if k == "dec":
        return dec + "0" * draw(st.integers(0, 2)), True
    if k == "decnozero":
        return dec[1:], True
    if k == "decsci":
        digs = dec[2:]
        lead = len(digs) - len(digs.lstrip("0"))
        sig = digs.lstrip("0").rstrip("0")
        man = sig[0] + ("." + sig[1:] if len(sig) > 1 else "")
        e = lead + 1
        if draw(st.booleans()):
            return "%se-%d" % (man, e), True
        return "%s%s10^{-%d}" % (man, draw(st.sampled_from(["\\times ", "\\cdot "])), e), False
    if k == "mixed":
        w, r = divmod(n, d)
        f = draw(st.integers(0, 2))
        if f == 0:
            return "%d %d/%d" % (w, r, d), False
        return "%d%s%s" % (w, draw(st.sampled_from(["", " "])), _frac(draw, str(r), str(d), plain=True)), False


def _w_irr(draw, n, collection):
    """c*sqrt(d) or c*pi, c > 0."""
    c, d = n.c, n.d
    if d == 0:
        root = "\\pi"
        p = str(c.numerator) if c.numerator != 1 else ""
        forms = []
        if c.denominator == 1:
            forms = [p + root, (p + " " + root).strip(), (p or "1") + draw(st.sampled_from(MUL)) + root, root + draw(st.sampled_from(MUL)) + (p or "1")]
        else:
            q = str(c.denominator)
            forms = [_frac(draw, p + root, q), _frac(draw, p or "1", q) + root, p + root + "/" + q,
                     _frac(draw, root, q) + draw(st.sampled_from(MUL)) + (p or "1"),
                     "(%s/%s)%s" % (p or "1", q, root)]
            dec = _dec(c)
            if dec:
                forms.append(dec + root)
        t = draw(st.sampled_from(forms))
        return t, False
    forms = []
    a, b = c.numerator, c.denominator
    rt = "\\sqrt{%d}" % d if d > 9 or draw(st.booleans()) else draw(st.sampled_from(["\\sqrt%d", "\\sqrt %d"])) % d
    if draw(st.integers(0, 5)) == 0:
        rt = draw(st.sampled_from(["%d^{1/2}", "%d^{\\frac{1}{2}}", "%d^{0.5}"])) % d
        mulneeded = True
    else:
        mulneeded = False
    p = str(a) if a != 1 else ""
    if mulneeded and p:
        p = p + "\\cdot "
    if b == 1:
        forms = [p + rt, "\\sqrt{%d}" % (a * a * d), _frac(draw, str(a * d), "\\sqrt{%d}" % d)]
        if not mulneeded:
            forms.append(rt + "\\cdot %d" % a)
    else:
        forms = [_frac(draw, p + rt, str(b)), _frac(draw, "\\sqrt{%d}" % (a * a * d), str(b)),
                 _frac(draw, str(a), str(b)) + ("\\cdot " if mulneeded else "") + rt,
                 p + rt + "/%d" % b, "\\sqrt{%s}" % _frac(draw, str(a * a * d), str(b * b)),
                 _frac(draw, str(a * d), "%d\\sqrt{%d}" % (b, d))]
    return draw(st.sampled_from(forms)), False


def _neg(draw, t):
    return draw(st.sampled_from(["-(%s)", "- (%s)", "-\\left(%s\\right)", "(-1)\\cdot (%s)"])) % t


def spell(draw, n, collection=False, rounding=True):
    """One notation of the number.  collection=True: usable as member of a comma list."""
    if n.rational:
        q = abs(n.r)
        t, closed = (_w_int(draw, q.numerator, collection) if q.denominator == 1 else _w_rat(draw, q, collection))
        neg = n.r < 0
        if neg and q.denominator != 1 and t.startswith(tuple(FRACS)) and "{" in t and draw(st.integers(0, 3)) == 0:
            # the sign inside the fraction
            i = t.index("{")
            if t.count("{") == 2:
                a, b = t[i + 1:-1].split("}{")
                return draw(st.sampled_from([t[:i] + "{-" + a + "}{" + b + "}", t[:i] + "{" + a + "}{-" + b + "}"]))
        if neg:
            sumlike = ("+" in t and "e+" not in t.lower()) or ("-" in t and "e-" not in t and "{-" not in t)
            if sumlike:
                return _neg(draw, t)
            return draw(st.sampled_from(["-%s", "-%s", "- %s"])) % t
        if draw(st.integers(0, 9)) == 0:
            sumlike = "+" in t or "-" in t
            if not sumlike:
                return draw(st.sampled_from(["+%s", "-(-%s)", "0+%s"])) % t
        return t
    if rounding and draw(st.integers(0, 5)) == 0:
        v = n.val()
        digs = draw(st.integers(4, 7))
        if abs(v) < 1:
            digs += 2
        return mpmath.nstr(mpmath.mpf(mpmath.nint(v * 10 ** digs)) / 10 ** digs, 30, strip_zeros=True,
                           min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
    m = N(0, abs(n.c), n.d)
    t, _ = _w_irr(draw, m, collection)
    neg = n.c < 0
    if n.r == 0:
        return ("-" if neg else "") + t
    r = _w_simple(draw, abs(n.r))
    if n.d != 0 and n.r.denominator == n.c.denominator and n.c.denominator > 1 and draw(st.booleans()):
        # common denominator
        b = n.c.denominator
        a = abs(n.c.numerator)
        top = "%s\\sqrt{%d}" % (a if a != 1 else "", n.d)
        rr = abs(n.r.numerator)
        s1 = ("-" if n.r < 0 else "") + str(rr) + ("-" if neg else "+") + top
        s2 = ("-" if neg else "") + top + ("-" if n.r < 0 else "+") + str(rr)
        return draw(st.sampled_from([_frac(draw, s1, str(b)), _frac(draw, s2, str(b)), "(%s)/%d" % (s1, b)]))
    first = ("-" if n.r < 0 else "") + r + ("-" if neg else "+") + t
    second = ("-" if neg else "") + t + ("-" if n.r < 0 else "+") + r
    return draw(st.sampled_from([first, second]))


def _w_simple(draw, q):
    if q.denominator == 1:
        return str(q.numerator)
    return _frac(draw, str(q.numerator), str(q.denominator))


# ------------------------------------------------------------------ mutants
@st.composite
def mutant(draw, n):
    """A wrong number near the right one in one of the usual ways (not guaranteed clear)."""
    if n.rational:
        q = n.r
        a, b = q.numerator, q.denominator
        k = draw(st.sampled_from(["neg", "off1", "shift", "digit", "swap", "den", "inv", "double", "tens"]))
        if k == "neg":
            return N(-q)
        if k == "off1":
            return N(Fraction(a + draw(st.sampled_from([-1, 1])), b))
        if k == "shift":
            return N(q * Fraction(10) ** draw(st.sampled_from([-3, -2, -1, 1, 2, 3])))
        if k in ("digit", "swap"):
            s = list(str(abs(a)))
            i = draw(st.integers(0, len(s) - 1))
            if k == "digit" or len(s) < 2:
                s[i] = str((int(s[i]) + draw(st.integers(1, 9))) % 10)
            else:
                i = min(i, len(s) - 2)
                s[i], s[i + 1] = s[i + 1], s[i]
            v = Fraction(int("".join(s)), b)
            return N(-v if q < 0 else v)
        if k == "den":
            return N(Fraction(a, b + draw(st.sampled_from([1, 2]))))
        if k == "inv" and a:
            return N(1 / q)
        if k == "double":
            return N(q * 2)
        return N(q + draw(st.sampled_from([-100, -10, -1, 1, 10, 100, Fraction(1, 2), Fraction(-1, 2)])))
    k = draw(st.sampled_from(["neg", "c", "d", "r", "conj", "drop", "sq"]))
    if k == "neg":
        return -n
    if k == "c":
        return N(n.r, n.c + draw(st.sampled_from([-1, 1, Fraction(1, 2)])), n.d)
    if k == "d":
        return N(n.r, n.c, draw(st.sampled_from([x for x in SQF if x != n.d]))) if n.d else N(n.r, n.c * 2, 0)
    if k == "r":
        return N(n.r + draw(st.sampled_from([-1, 1])), n.c, n.d)
    if k == "conj":
        return N(n.r, -n.c, n.d)
    if k == "drop":
        return N(n.r, n.c, 1) if n.d else N(n.c)
    return N(n.r, n.c, n.d * n.d) if n.d else N(n.c * n.c, 0, 1)
