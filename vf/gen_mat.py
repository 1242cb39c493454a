"""Generator of matrix LaTeX with exact reference values (lists of rows of Fractions; the symbol x stands for X0)."""
from fractions import Fraction
from hypothesis import strategies as st

X0 = Fraction(3, 7)
ENVS = [("\\begin{matrix}", "\\end{matrix}"), ("\\begin{pmatrix}", "\\end{pmatrix}"), ("\\begin{bmatrix}", "\\end{bmatrix}"),
        ("\\left[\\begin{matrix}", "\\end{matrix}\\right]"), ("\\left(\\begin{matrix}", "\\end{matrix}\\right)"), ("(\\begin{matrix}", "\\end{matrix})")]


# ------------------------------------------------------------------ linear algebra in Fractions
def shape(a):
    return len(a), len(a[0])


def add(a, b, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(a, b)]


def scale(k, a):
    return [[k * x for x in r] for r in a]


def mul(a, b):
    return [[sum((x * y for x, y in zip(r, c)), Fraction(0)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def eye(n):
    return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]


def rref(a):
    a = [list(r) for r in a]
    piv, r = [], 0
    for c in range(len(a[0])):
        p = next((i for i in range(r, len(a)) if a[i][c] != 0), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        k = a[r][c]
        a[r] = [x / k for x in a[r]]
        for i in range(len(a)):
            if i != r:
                f = a[i][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[r])]
        piv.append(c)
        r += 1
        if r == len(a):
            break
    return a, piv


def rank(a):
    return len(rref(a)[1])


def det(a):
    a = [list(r) for r in a]
    n, d = len(a), Fraction(1)
    for c in range(n):
        p = next((i for i in range(c, n) if a[i][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d *= a[c][c]
        for i in range(c + 1, n):
            f = a[i][c] / a[c][c]
            a[i] = [x - f * y for x, y in zip(a[i], a[c])]
    return d


def inv(a):
    n = len(a)
    r, piv = rref([list(x) + e for x, e in zip(a, eye(n))])
    return [x[n:] for x in r] if piv == list(range(n)) else None


def power(a, n):
    if n < 0:
        a, n = inv(a), -n
        if a is None:
            return None
    r = eye(len(a))
    for _ in range(n):
        r = mul(r, a)
    return r


def trace(a):
    return sum((a[i][i] for i in range(len(a))), Fraction(0))


def norm2(a):
    return sum((x * x for r in a for x in r), Fraction(0))


# ------------------------------------------------------------------ text
@st.composite
def entry(draw, sym=True):
    k = draw(st.integers(0, 13))
    n = draw(st.integers(-6, 9))
    if k <= 7:
        return str(n), Fraction(n)
    d = draw(st.integers(2, 7))
    if k == 8:
        return "\\frac{%d}{%d}" % (n, d), Fraction(n, d)
    if k == 9:
        return "%d.%d" % (abs(n), d), Fraction(abs(n) * 10 + d, 10)
    if k == 10:
        return "%d+%d" % (n, d), Fraction(n + d)
    if k == 11:
        return draw(st.sampled_from([("%d\\cdot %d" % (d, d), Fraction(d * d)), ("-\\frac{1}{%d}" % d, Fraction(-1, d)), ("%d^2" % d, Fraction(d * d)), ("(%d-%d)" % (d, 3), Fraction(d - 3))]))
    if not sym:
        return str(n), Fraction(n)
    return draw(st.sampled_from([("x", X0), ("%dx" % d, d * X0), ("x+%d" % d, X0 + d), ("-x", -X0), ("x^2", X0 * X0), ("d", X0), ("2d", 2 * X0), ("%d+d" % d, X0 + d)]))


@st.composite
def table(draw, r, c, sym=True):
    return [[draw(entry(sym)) for _ in range(c)] for _ in range(r)]


def write(draw, t, env):
    sp = draw(st.sampled_from(["", "", " ", "\n", "  "]))
    amp, nl = sp + "&" + sp, sp + "\\\\" + draw(st.sampled_from([" ", "\n"] if any(r[0][0][0].isalpha() for r in t) else ["", " ", "\n"]))
    body = nl.join(amp.join(e[0] for e in r) for r in t)
    if draw(st.integers(0, 7)) == 0:
        body += "\\\\"
    lead = " " if body[0].isalpha() else sp
    return env[0] + lead + body + sp + env[1]


class M:
    __slots__ = ("tex", "val", "lvl", "n")

    def __init__(self, tex, val, lvl, n=1):
        self.tex, self.val, self.lvl, self.n = tex, val, lvl, n      # n: number of operations


NAMED = {}           # declared matrices by shape, while vf.checks.P05.declared draws


@st.composite
def literal(draw, r, c, sym=True, trans=True):
    if NAMED.get((r, c)) and draw(st.integers(0, 3)):
        name, val = draw(st.sampled_from(NAMED[(r, c)]))
        return M(name, val, 5, 0)
    t = draw(table(r, c, sym))
    val = [[e[1] for e in row] for row in t]
    k = draw(st.integers(0, 9))
    if trans and k == 0:
        ops, val = draw(transforms(val))
        return M(write(draw, t, draw(st.sampled_from(ENVS[:3]))) + ops, val, 5, 2)
    if k == 1 and r == c and r <= 3:
        return M("\\operatorname{eye}(%d)" % r, eye(r), 5)
    if k == 2:
        f, v = draw(st.sampled_from([("zeros", 0), ("ones", 1)]))
        return M("\\operatorname{%s}(%d,%s%d)" % (f, r, draw(st.sampled_from(["", " "])), c) if r != c or draw(st.booleans()) else "\\operatorname{%s}(%d)" % (f, r),
                 [[Fraction(v)] * c for _ in range(r)], 5)
    if k == 3 and r == c:
        es = [draw(entry(sym)) for _ in range(r)]
        return M("\\operatorname{diag}(%s)" % ",".join(e[0] for e in es), [[es[i][1] if i == j else Fraction(0) for j in range(r)] for i in range(r)], 5)
    return M(write(draw, t, draw(st.sampled_from(ENVS))), val, 5, 0)


COEF = [("2", 2), ("3", 3), ("-2", -2), ("\\frac{1}{2}", Fraction(1, 2)), ("(1+2)", 3), ("(-3)", -3), ("0.5", Fraction(1, 2)), ("x", X0), ("5", 5), ("12", 12)]


@st.composite
def one_transform(draw, r, c):
    let, n = draw(st.sampled_from([("r", r), ("c", c)]))
    i = draw(st.integers(1, n))
    j = draw(st.integers(1, n).filter(lambda j: j != i)) if n > 1 else None
    name = lambda k: draw(st.sampled_from(["%s_%d", "%s_{%d}"])) % (let, k)
    kind = draw(st.integers(0, 3))
    coef, v = draw(st.sampled_from(COEF))
    if j is None or kind == 0:
        if draw(st.integers(0, 4)) == 0:
            coef, v = "-", -1
        return coef + name(i), (let, "scale", i - 1, None, Fraction(v))
    if kind == 1:
        return name(i) + draw(st.sampled_from(["<->", "<=>", "\\leftrightarrow ", " \\Leftrightarrow "])) + name(j), (let, "swap", i - 1, j - 1, None)
    s = draw(st.sampled_from(["+", "-", ""]))
    if s == "":
        return name(i) + s + "-" + name(j), (let, "add", i - 1, j - 1, Fraction(-1))
    if draw(st.integers(0, 3)) == 0:
        return name(i) + "+" + name(j), (let, "add", i - 1, j - 1, Fraction(1))
    if coef.startswith("-"):
        coef, v = coef[1:], -v
    return name(i) + s + coef + name(j), (let, "add", i - 1, j - 1, Fraction(v) * (1 if s == "+" else -1))


def apply(a, op):
    let, kind, i, j, k = op
    if let == "c":
        return tr(apply(tr(a), ("r",) + op[1:]))
    a = [list(r) for r in a]
    if kind == "scale":
        a[i] = [k * x for x in a[i]]
    elif kind == "swap":
        a[i], a[j] = a[j], a[i]
    else:
        a[i] = [x + k * y for x, y in zip(a[i], a[j])]
    return a


@st.composite
def transforms(draw, val):
    r, c = shape(val)
    above = draw(st.lists(one_transform(r, c), min_size=1, max_size=3))
    below = draw(st.lists(one_transform(r, c), max_size=2))
    sep = draw(st.sampled_from([",", ", "]))
    for _, op in above + below:
        val = apply(val, op)
    return draw(st.sampled_from(["\\xrightarrow", "\\xRightarrow"])) + ("[%s]" % sep.join(t for t, _ in below) if below else "") + "{%s}" % sep.join(t for t, _ in above), val


SCALARS = [("2", 2), ("3", 3), ("-2", -2), ("\\frac{1}{3}", Fraction(1, 3)), ("x", X0), ("(1-4)", -3), ("0.5", Fraction(1, 2))]


def par(draw, m):
    l, r = draw(st.sampled_from([("(", ")"), ("\\left(", "\\right)"), ("[", "]"), ("\\{", "\\}")]))
    return M(l + m.tex + r, m.val, 5, m.n)


def at(draw, m, lvl):
    return m if m.lvl >= lvl else par(draw, m)


@st.composite
def matrix(draw, r, c, depth=2, sym=True):
    if depth <= 0:
        return draw(literal(r, c, sym))
    k = draw(st.integers(0, 11))
    sub = lambda r, c: draw(matrix(r, c, depth - 1, sym))
    if k <= 1:
        a, b = sub(r, c), at(draw, sub(r, c), 1)
        op = draw(st.sampled_from("+-"))
        if b.lvl == 2:
            b = par(draw, b)
        return M(a.tex + op + b.tex, add(a.val, b.val, 1 if op == "+" else -1), 0, a.n + b.n + 1)
    if k <= 3:
        m = draw(st.integers(1, 3))
        a, b = sub(r, m), sub(m, c)
        if draw(st.booleans()):
            a, b = at(draw, a, 1), at(draw, b, 3)
            return M(a.tex + draw(st.sampled_from(["\\cdot ", "\\times ", "*"])) + b.tex, mul(a.val, b.val), 1, a.n + b.n + 1)
        a, b = at(draw, a, 3), at(draw, b, 3)
        if NAMED:                                    # a letter before a parenthesis would be a function
            glue = "\\cdot " if b.tex.startswith(("(", "[", "\\left", "\\{")) else " "
            return M(a.tex + glue + b.tex, mul(a.val, b.val), 1 if glue != " " else 3, a.n + b.n + 1)
        return M(a.tex + b.tex, mul(a.val, b.val), 3, a.n + b.n + 1)
    if k == 4:
        a = at(draw, sub(r, c), 3)
        return M("-" + a.tex, scale(-1, a.val), 2, a.n + 1)
    if k <= 6:
        s, v = draw(st.sampled_from(SCALARS))
        v = Fraction(v)
        f = draw(st.integers(0, 4))
        a = at(draw, sub(r, c), 3)
        if f == 0:
            a = at(draw, a, 5) if s == "x" else a
            if s == "x" and a.tex.startswith(("(", "\\left(", "[")):
                s += "\\cdot "
            if NAMED and s == "x":
                s = "x "
            if a.tex[0].isdigit() and s[-1].isdigit():
                a = par(draw, a)
            return M(s + a.tex, scale(v, a.val), 2 if s[0] == "-" else 3, a.n + 1)
        if f == 1:
            return M(s + draw(st.sampled_from(["\\cdot ", "\\times ", "*"])) + a.tex, scale(v, a.val), 2 if s[0] == "-" else 1, a.n + 1)
        if f == 2:
            s = "(%s)" % s if s[0] == "-" else s
            return M(a.tex + "\\cdot " + s, scale(v, a.val), 1, a.n + 1)
        d = draw(st.integers(2, 5))
        if f == 3:
            return M(a.tex + draw(st.sampled_from(["/", "\\div ", ":"])) + str(d), scale(Fraction(1, d), a.val), 1, a.n + 1)
        return M("\\frac{%s}{%d}" % (a.tex, d), scale(Fraction(1, d), a.val), 5, a.n + 1)
    if k <= 8:
        a = at(draw, sub(c, r), 5)
        return M(a.tex + draw(st.sampled_from(["^T", "^{T}", "^\\top ", "^{\\top}", "'", "^\\mathrm{T}", "^{\\mathrm{T}}"])), tr(a.val), 4, a.n + 1)
    if k == 9 and r == c:
        n = draw(st.integers(-2, 3))
        a = at(draw, sub(r, r), 5)
        v = power(a.val, n)
        if v is None:
            return a
        return M(a.tex + ("^%d" % n if n >= 0 and draw(st.booleans()) else "^{%d}" % n), v, 4, a.n + 1)
    if k == 10:
        a = sub(r, c)
        v, _ = rref(a.val)
        if "x" in a.tex.replace("\\xr", "").replace("\\xR", "").replace("matrix", ""):
            return a
        return M("\\operatorname{rref}(%s)" % a.tex, v, 5, a.n + 1)
    if c >= 2 and draw(st.booleans()):
        m = draw(st.integers(1, c - 1))
        a, b = sub(r, m), sub(r, c - m)
        return M("\\operatorname{hstack}(%s,%s)" % (a.tex, b.tex), [x + y for x, y in zip(a.val, b.val)], 5, a.n + b.n + 1)
    if r >= 2:
        m = draw(st.integers(1, r - 1))
        a, b = sub(m, c), sub(r - m, c)
        return M("\\operatorname{vstack}(%s, %s)" % (a.tex, b.tex), a.val + b.val, 5, a.n + b.n + 1)
    return draw(literal(r, c, sym))


def nosym(m):
    """the operators with pivots are for numeric matrices"""
    t = m.tex
    for w in ("\\xrightarrow", "\\xRightarrow", "matrix"):
        t = t.replace(w, "")
    return "x" not in t


@st.composite
def scalar(draw, depth=1):
    """(tex, Fraction or ("sqrt", Fraction), number of operations)"""
    n = draw(st.integers(1, 3))
    k = draw(st.integers(0, 8))
    if k <= 1:
        a = draw(matrix(n, n, depth))
        return draw(st.sampled_from(["\\det(%s)", "\\det\\left(%s\\right)"])) % a.tex, det(a.val), a.n
    if k == 2:
        t = draw(table(n, n))
        return write(draw, t, ("\\begin{vmatrix}", "\\end{vmatrix}")), det([[e[1] for e in r] for r in t]), 0
    if k <= 4:
        a = draw(matrix(n, n, depth))
        return "\\operatorname{%s}(%s)" % (draw(st.sampled_from(["trace", "tr"])), a.tex), trace(a.val), a.n
    if k <= 6:
        a = draw(matrix(n, draw(st.integers(1, 3)), depth, False))
        if not nosym(a):
            a = draw(literal(n, n, False, False))
        return "\\operatorname{rank}(%s)" % a.tex, Fraction(rank(a.val)), a.n
    a = draw(matrix(n, draw(st.integers(1, 3)), depth, False))
    return draw(st.sampled_from(["\\|%s\\|", "\\left\\|%s\\right\\|", "\\operatorname{norm}(%s)"])) % a.tex, ("sqrt", norm2(a.val)), a.n
