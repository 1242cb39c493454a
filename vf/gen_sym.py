"""Symbolic expressions: pairs equal by an algebraic law, and near-miss mutants checked numerically."""
from fractions import Fraction
import random
import mpmath
from hypothesis import strategies as st
from vf import mtree
from vf.texout import text

VARS = ["x", "y", "a", "b", "n", "t", "k", "w", "c", "z", "\\theta", "\\alpha", "h", "q"]


def num(q):
    return ["num", str(Fraction(q))]


def sym(v):
    return ["sym", v]


def add(*a):
    return ["+"] + list(a) if len(a) > 1 else a[0]


def mul(*a):
    return ["*"] + list(a) if len(a) > 1 else a[0]


def power(a, n):
    return ["^", a, n if isinstance(n, list) else num(n)]


def fn(f, a):
    return ["fn", f, a]


# ---------------------------------------------------------------- polynomials
def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(x + y for x, y in zip(m1, m2))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


def ptree(p, vs):
    terms = []
    for m, c in sorted(p.items(), reverse=True):
        fs = [] if c == 1 and any(m) else [num(c)]
        for e, v in zip(m, vs):
            if e == 1:
                fs.append(sym(v))
            elif e:
                fs.append(power(sym(v), e))
        terms.append(mul(*fs))
    if not terms:
        return num(0)
    return add(*terms)


def horner(p, v):
    """univariate only"""
    deg = max(m[0] for m in p)
    t = num(p.get((deg,), 0))
    for e in range(deg - 1, -1, -1):
        c = p.get((e,), 0)
        t = mul(sym(v), t)
        if c:
            t = add(t, num(c))
    return t


@st.composite
def poly(draw, nv, maxdeg=2, maxterms=3, frac=False):
    r = {}
    for _ in range(draw(st.integers(1, maxterms))):
        m = tuple(draw(st.integers(0, maxdeg)) for _ in range(nv))
        if sum(m) > maxdeg:
            m = tuple(min(e, 1) if i == 0 else 0 for i, e in enumerate(m))
        c = Fraction(draw(st.integers(-9, 9)))
        if frac and draw(st.integers(0, 3)) == 0:
            c = c / draw(st.sampled_from([2, 3, 4, 5]))
        r[m] = r.get(m, 0) + c
    r = {m: c for m, c in r.items() if c}
    return r or {(1,) + (0,) * (nv - 1): Fraction(1)}


@st.composite
def variables(draw, n=None):
    n = n or draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    return draw(st.lists(st.sampled_from(VARS), min_size=n, max_size=n, unique=True))


@st.composite
def poly_pair(draw):
    vs = draw(variables())
    nv = len(vs)
    fs = [draw(poly(nv, 2 if nv == 1 else 1, 3, frac=True)) for _ in range(draw(st.integers(1, 3)))]
    extra = draw(poly(nv, 3, 2, frac=True)) if draw(st.booleans()) else {}
    whole = {(0,) * nv: Fraction(1)}
    for f in fs:
        whole = pmul(whole, f)
    whole = padd(whole, extra)
    if not whole:
        whole = padd(whole, {(1,) + (0,) * (nv - 1): Fraction(1)})
        extra = padd(extra, {(1,) + (0,) * (nv - 1): Fraction(1)})
    if len(fs) == 2 and fs[0] == fs[1]:
        prod = power(ptree(fs[0], vs), 2)
    else:
        prod = mul(*[ptree(f, vs) for f in fs])
    left = add(prod, ptree(extra, vs)) if extra else prod
    right = ptree(whole, vs)
    if nv == 1 and draw(st.integers(0, 3)) == 0:
        right = horner(whole, vs[0])
    return left, right


@st.composite
def posfactor(draw, vs):
    """a denominator that is positive for positive variables"""
    v = draw(st.sampled_from(vs))
    return draw(st.sampled_from([sym(v), add(sym(v), num(draw(st.integers(1, 9)))), mul(num(draw(st.integers(2, 9))), sym(v)),
                                 add(power(sym(v), 2), num(draw(st.integers(1, 9)))), num(draw(st.integers(2, 9)))]))


@st.composite
def rational_pair(draw):
    vs = draw(variables(draw(st.sampled_from([1, 2]))))
    nv = len(vs)
    A, C = ptree(draw(poly(nv, 1, 2)), vs), ptree(draw(poly(nv, 1, 2)), vs)
    B, D = draw(posfactor(vs)), draw(posfactor(vs))
    k = draw(st.integers(0, 4))
    if k <= 1:
        return add(["/", A, B], ["/", C, D]), ["/", add(mul(A, D), mul(C, B)), mul(B, D)]
    if k == 2:
        return ["/", mul(A, D), mul(B, D)], ["/", A, B]
    if k == 3:
        return ["/", ["/", A, B], ["/", D, B]], ["/", A, D]
    return add(A, ["/", C, B]), ["/", add(mul(A, B), C), B]


@st.composite
def argument(draw, vs):
    v = sym(draw(st.sampled_from(vs)))
    k = draw(st.integers(0, 5))
    if k <= 2:
        return v
    if k == 3:
        return mul(num(draw(st.sampled_from([2, 3, Fraction(1, 2)]))), v)
    if k == 4:
        return add(v, num(draw(st.integers(1, 5))))
    return add(v, ["/", ["pi"], num(draw(st.sampled_from([2, 3, 4, 6])))])


@st.composite
def identity(draw, vs):
    u = draw(argument(vs))
    w = sym(draw(st.sampled_from(vs)))
    s, c = fn("sin", u), fn("cos", u)
    two = num(2)
    k = draw(st.integers(0, 26))
    dbl = mul(two, u)
    if k == 0:
        return fn("sin", dbl), mul(two, s, c)
    if k == 1:
        return fn("cos", dbl), add(mul(two, power(c, 2)), num(-1))
    if k == 2:
        return fn("cos", dbl), add(num(1), mul(num(-2), power(s, 2)))
    if k == 3:
        return fn("cos", dbl), add(power(c, 2), ["neg", power(s, 2)])
    if k == 4:
        return power(s, 2), add(num(1), ["neg", power(c, 2)])
    if k == 5:
        return fn("tan", u), ["/", s, c]
    if k == 6:
        return add(num(1), power(fn("tan", u), 2)), ["/", num(1), power(c, 2)]
    if k == 7:
        return fn("sin", add(u, w)), add(mul(s, fn("cos", w)), mul(c, fn("sin", w)))
    if k == 8:
        return fn("cos", add(u, w)), add(mul(c, fn("cos", w)), ["neg", mul(s, fn("sin", w))])
    if k == 9:
        return ["/", add(num(1), ["neg", fn("cos", dbl)]), two], power(s, 2)
    v = sym(draw(st.sampled_from(vs)))
    q = draw(st.integers(2, 5))
    if k == 10:
        return fn("ln", mul(num(q), v)), add(fn("ln", v), fn("ln", num(q)))
    if k == 11:
        return fn("ln", power(v, q)), mul(num(q), fn("ln", v))
    if k == 12:
        return fn("ln", ["/", v, num(q)]), add(fn("ln", v), ["neg", fn("ln", num(q))])
    if k == 13:
        return fn("ln", mul(v, add(w, num(q)))), add(fn("ln", v), fn("ln", add(w, num(q))))
    if k == 14:
        return fn("ln", power(v, Fraction(1, 2))), mul(num(Fraction(1, 2)), fn("ln", v))
    if k == 15:
        return fn("exp", add(v, num(q))), mul(fn("exp", v), fn("exp", num(q)))
    if k == 16:
        return power(fn("exp", v), 2), fn("exp", mul(two, v))
    if k == 17:
        return fn("exp", mul(num(q), fn("ln", v))), power(v, q)
    if k == 18:
        return power(mul(num(q * q), v), Fraction(1, 2)), mul(num(q), power(v, Fraction(1, 2)))
    if k == 19:
        return ["/", v, power(v, Fraction(1, 2))], power(v, Fraction(1, 2))
    if k == 20:
        return power(v, -1), ["/", num(1), v]
    if k == 21:
        return power(v, -q), ["/", num(1), power(v, q)]
    if k == 22:
        return power(num(q), add(v, num(1))), mul(num(q), power(num(q), v))
    if k == 23:
        return power(power(v, 2), q), power(v, 2 * q)
    if k == 24:
        return ["log", v, num(q)], ["/", fn("ln", v), fn("ln", num(q))]
    if k == 25:
        return power(mul(v, w), q), mul(power(v, q), power(w, q))
    return ["/", num(1), add(power(v, Fraction(1, 2)), num(1))], ["/", add(power(v, Fraction(1, 2)), num(-1)), add(v, num(-1))]


@st.composite
def law_pair(draw):
    vs = draw(variables(draw(st.sampled_from([1, 2]))))
    l, r = draw(identity(vs))
    if draw(st.booleans()):
        l, r = r, l
    k = draw(st.integers(0, 4))
    if k == 1:
        c = draw(st.integers(2, 9))
        l, r = mul(num(c), l), mul(num(c), r)
    elif k == 2:
        p = ptree(draw(poly(len(vs), 2, 2)), vs)
        l, r = add(l, p), add(p, r)
    elif k == 3:
        v = sym(draw(st.sampled_from(vs)))
        l, r = mul(v, l), mul(r, v)
    elif k == 4:
        c = draw(st.integers(2, 9))
        l, r = ["/", l, num(c)], ["/", r, num(c)]
    return l, r


@st.composite
def func_expr(draw):
    """an expression with elementary functions; paired with itself (only the writing differs)"""
    vs = draw(variables(draw(st.sampled_from([1, 2]))))

    def leaf():
        return sym(draw(st.sampled_from(vs))) if draw(st.booleans()) else num(draw(st.integers(1, 9)))

    def build(d):
        if d == 0:
            return leaf()
        k = draw(st.integers(0, 8))
        if k <= 1:
            return add(build(d - 1), build(d - 1))
        if k == 2:
            return add(build(d - 1), ["neg", build(d - 1)])
        if k <= 4:
            return mul(build(d - 1), build(d - 1))
        if k == 5:
            return ["/", build(d - 1), draw(posfactor(vs))]
        if k == 6:
            return power(leaf(), draw(st.sampled_from([2, 3, Fraction(1, 2), -1, -2, Fraction(1, 3)])))
        return fn(draw(st.sampled_from(["sin", "cos", "ln", "exp", "tan", "atan"])), sym(draw(st.sampled_from(vs))))
    t = build(draw(st.integers(1, 3)))
    return t, t


def equal_pair():
    return st.one_of(poly_pair(), poly_pair(), rational_pair(), law_pair(), law_pair(), func_expr())


# ------------------------------------------------------------------- mutants
def nodes(t, path=()):
    yield path, t
    for i, x in enumerate(t[1:], 1):
        if isinstance(x, list):
            yield from nodes(x, path + (i,))


def replace(t, path, new):
    if not path:
        return new
    t = list(t)
    t[path[0]] = replace(t[path[0]], path[1:], new)
    return t


SWAP = {"sin": "cos", "cos": "sin", "tan": "cot", "ln": "exp", "exp": "ln", "atan": "tan", "cot": "tan"}


@st.composite
def mutate(draw, t):
    ns = [(p, u) for p, u in nodes(t)]
    p, u = draw(st.sampled_from(ns))
    k = u[0]
    if k == "num":
        q = Fraction(u[1])
        new = num(draw(st.sampled_from([q + 1, q - 1, -q, q * 2, q + Fraction(1, 2), q * 10])))
    elif k == "sym":
        others = sorted((mtree.syms(t) | {draw(st.sampled_from(VARS))}) - {u[1]})
        new = draw(st.sampled_from([sym(o) for o in others] + [num(1), power(u, 2), ["neg", u]]))
    elif k == "fn":
        new = fn(SWAP[u[1]], u[2]) if draw(st.booleans()) else u[2]
    elif k == "+":
        i = draw(st.integers(1, len(u) - 1))
        if draw(st.booleans()):
            new = u[:i] + [["neg", u[i]]] + u[i + 1:]
        else:
            rest = u[:i] + u[i + 1:]
            new = rest if len(rest) > 2 else rest[1]
    elif k == "*":
        i = draw(st.integers(1, len(u) - 1))
        rest = u[:i] + u[i + 1:]
        new = rest if len(rest) > 2 else rest[1]
        if draw(st.integers(0, 3)) == 0:
            new = ["+"] + u[1:]
    elif k == "/":
        new = draw(st.sampled_from([["/", u[2], u[1]], mul(u[1], u[2]), ["neg", u]]))
    elif k == "^":
        new = draw(st.sampled_from([u[1], power(u[1], add(u[2], num(1))), mul(u[1], u[2])]))
        if new[0] == "^" and u[2][0] == "num":
            new = power(u[1], Fraction(u[2][1]) + draw(st.sampled_from([1, 2, -1])))
    elif k == "neg":
        new = u[1]
    else:
        new = ["neg", u]
    return replace(t, p, new)


def points(vs, n, seed, lo=1, hi=10, integral=False):
    rng = random.Random(seed)
    for _ in range(n):
        yield {v: str(rng.randint(lo, hi)) if integral else str(Fraction(rng.randint(lo * 1000, hi * 1000), 1000)) for v in vs}


def differ_clearly(a, b):
    """a and b differ by far more than any tolerance at nearly every sample point"""
    vs = sorted(mtree.syms(a) | mtree.syms(b))
    if not vs:
        try:
            x, y = mtree.val(a, {}), mtree.val(b, {})
        except mtree.Undefined:
            return False
        return abs(x - y) > mpmath.mpf("0.02") * max(1, 0) and abs(x - y) > mpmath.mpf("0.02") * min(abs(x), abs(y), 1)
    for integral in (True, False):
        good = 0
        total = 30
        for env in points(vs, total, 7, integral=integral):
            try:
                x, y = mtree.val(a, env), mtree.val(b, env)
            except mtree.Undefined:
                continue
            d = abs(x - y)
            small = min(abs(x), abs(y))
            if d > mpmath.mpf("0.02") or (small < 1 and d > mpmath.mpf("0.01") * max(abs(x), abs(y)) and d > mpmath.mpf("0.0001")):
                good += 1
        if good < total * 0.75:
            return False
    return True


def agree(a, b):
    """reference check of a generated equal pair"""
    vs = sorted(mtree.syms(a) | mtree.syms(b))
    seen = 0
    for env in points(vs, 6, 11):
        try:
            x, y = mtree.val(a, env), mtree.val(b, env)
        except mtree.Undefined:
            continue
        if not mtree.close(x, y, 1e-15):
            return False
        seen += 1
    return seen >= 3
