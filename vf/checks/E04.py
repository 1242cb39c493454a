"""Ordered and unordered collections compare by their members."""
import re
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_ans as g, gen_sym, mtree
from vf.texout import text

PROPERTY = "E04"
RULE = ("Members are pairwise clearly different numbers (integers, fractions, decimals, surds, multiples of pi), polynomial "
        "expressions, absolute values, equations x=v, symbols (infinities, the empty set, Greek letters), or tuples of these (nesting depth 2); a collection is ordered ( ) / [ ] or unordered (comma "
        "list, and/or list, braces, also with \\left\\right); the other answer respells every member and, if unordered, permutes "
        "them: must match both ways; or one member is replaced by a clearly different one, dropped, added, or (ordered) two are "
        "swapped: must not match either way. near: unordered numbers of which several lie within tolerance of each other, judged "
        "by an independent brute-force search for a one-to-one pairing. Non-trivial: at least two members.")


# A member is ["n", r, c, d] | ["p", tree] | ["t", style, members] ; writing happens at generation time.
def values_differ(a, b):
    if a[0] != b[0]:
        return True
    if a[0] == "n":
        return g.clear(a[1], b[1])
    if a[0] in ("s", "a"):
        return a[1] != b[1]
    if a[0] == "q":
        return values_differ(a[1], b[1])
    if a[0] == "p":
        return gen_sym.differ_clearly(a[1], b[1])
    return len(a[2]) != len(b[2]) or any(values_differ(x, y) for x, y in zip(a[2], b[2]))


@st.composite
def number(draw):
    return ("n", draw(g.exact_small().filter(lambda n: abs(n.val()) < 100)))


@st.composite
def expr(draw):
    vs = draw(gen_sym.variables(draw(st.sampled_from([1, 1, 2]))))
    p = draw(gen_sym.poly(len(vs), 2, 3).filter(lambda p: any(sum(m) for m in p)))
    return ("p", gen_sym.ptree(p, vs))


SYMBOLS = ["\\infty", "\\infty", "-\\infty", "\\emptyset", "\\alpha", "-\\theta", "\\lambda"]


def symbol():
    return st.sampled_from(SYMBOLS).map(lambda s: ("s", s))


@st.composite
def members(draw, lo, hi, depth):
    k = draw(st.integers(0, 14))
    if k >= 14:
        m = st.one_of(number(), st.integers(-12, 12).filter(bool).map(lambda n: ("a", n)))
    elif k >= 13:
        m = number().map(lambda n: ("q", n))
    elif k >= 10:
        m = st.one_of(number(), symbol())
    elif depth and k >= 7:
        style = draw(st.sampled_from(["()", "()", "[]"]))
        base = members_of(st.one_of(number(), number(), expr()) if k == 9 else number(), 2, 3)
        m = st.builds(lambda ms: ("t", style, ms), base)
    elif k >= 5:
        m = expr()
    elif k >= 1:
        m = number()
    else:
        m = st.one_of(number(), expr())
    return draw(members_of(m, lo, hi))


@st.composite
def members_of(draw, strat, lo, hi):
    n = draw(st.integers(lo, hi))
    res = []
    for _ in range(n * 3):
        if len(res) == n:
            break
        x = draw(strat)
        if all(values_differ(x, y) for y in res):
            res.append(x)
    return res


def write(draw, m):
    if m[0] == "n":
        return g.spell(draw, m[1], collection=True, rounding=False)
    if m[0] == "p":
        t = m[1]
        return text(draw, t)
    if m[0] == "s":
        return m[1]
    if m[0] == "a":
        x = draw(st.sampled_from(["x%+d" % m[1], "x %+d" % m[1], "%d+x" % m[1], "%d-x" % -m[1]]))
        return draw(st.sampled_from(["|%s|", "|%s|", "\\left|%s\\right|", "| %s |"])) % x
    if m[0] == "q":
        return draw(st.sampled_from(["x=", "x = "])) + write(draw, m[1])
    return bracket(draw, m[1], [write(draw, x) for x in m[2]])


def bracket(draw, style, parts):
    o, c = style
    if draw(st.integers(0, 3)) == 0:
        o, c = "\\left" + o, "\\right" + c
    return o + draw(st.sampled_from([", ", ",", ", "])).join(parts) + c


STYLES = ["()", "()", "[]", "list", "list", "and", "or", "{}", "{}"]


def collection(draw, style, parts):
    if style in ("()", "[]"):
        return bracket(draw, style, parts)
    sep = draw(st.sampled_from([", ", ","]))
    if style == "list" or len(parts) < 2 and style != "{}":
        return sep.join(parts)
    if style == "{}":
        o, c = draw(st.sampled_from([("\\{", "\\}"), ("\\left\\{", "\\right\\}"), ("\\{ ", " \\}"), ("{", "}")]))
        return o + sep.join(parts) + c
    word = draw(st.sampled_from([" %s ", " \\text{ %s } ", "\\text{ %s }", " \\text{%s} "])) % style
    if len(parts) > 2 and draw(st.booleans()):
        return ", ".join(parts[:-1]) + draw(st.sampled_from([",", ""])) + word + parts[-1]
    return word.join(parts)


def bad(s):
    # a member that starts with three digits after a comma reads as a thousands group (a limit, see DESIGN)
    s = re.sub(r"\\text\{ *(and|or) *\}|and|or", ",", s).replace(" ", "")
    return re.search(r"\d,+\d{3}", s)


@st.composite
def case(draw):
    style = draw(st.sampled_from(STYLES))
    ordered = style in ("()", "[]")
    ms = draw(members(2, 5, 1))
    if len(ms) < 2:
        return None
    how = draw(st.sampled_from(["same", "same", "same", "change", "drop", "add", "swap"]))
    if how == "swap" and not ordered:
        how = "same"
    other = list(ms)
    if how == "change":
        i = draw(st.integers(0, len(ms) - 1))
        kind = ms[i][0]
        if kind == "s":
            new = draw(st.one_of(symbol(), number()))
        elif kind == "q":
            new = ("q", draw(number()))
        elif kind == "n":
            new = ("n", draw(g.mutant(ms[i][1])))
            if abs(new[1].val()) >= 100:
                new = ("n", g.N(ms[i][1].r + 1, ms[i][1].c, ms[i][1].d))
        elif kind == "a":
            new = ("a", draw(st.integers(-12, 12).filter(bool)))
        elif kind == "p":
            new = ("p", draw(gen_sym.mutate(ms[i][1])))
        else:
            sub = list(ms[i][2])
            j = draw(st.integers(0, len(sub) - 1))
            if draw(st.booleans()):
                sub[0], sub[1] = sub[1], sub[0]
            else:
                sub[j] = draw(number())
            new = ("t", ms[i][1], sub)
        if not values_differ(ms[i], new):
            return None
        other[i] = new
    elif how == "drop":
        other.pop(draw(st.one_of(st.just(len(ms) - 1), st.integers(0, len(ms) - 1))))
    elif how == "add":
        new = draw(number())
        if not all(values_differ(new, m) for m in ms):
            return None
        other.insert(draw(st.one_of(st.just(len(ms)), st.integers(0, len(ms)))), new)
    elif how == "swap":
        i, j = draw(st.sampled_from([(i, j) for i in range(len(ms)) for j in range(i)]))
        other[i], other[j] = other[j], other[i]
    if not ordered:
        other = list(draw(st.permutations(other)))
    style2 = style
    if not ordered:
        style2 = draw(st.sampled_from(["list", "and", "or", "{}"]))
    if len(other) == 1 and style2 in ("list", "and", "or") and other[0][0] == "t":
        return None
    a = collection(draw, style, [write(draw, m) for m in ms])
    b = collection(draw, style2, [write(draw, m) for m in other])
    if bad(a) or bad(b):
        return None
    if any(m[0] == "q" for m in ms + other) and re.search(r"\d[eE]", a + b):
        return None     # inside of an equation e is Euler's number
    return {"a": a, "b": b, "want": how == "same", "how": ("ordered " if ordered else "unordered ") + how, "n": len(ms)}


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"], case["how"])
    expect_equiv(case["b"], case["a"], case["want"], case["how"])
    return [case["how"]]


# ------------------------------------------------------------ near-equal members
@st.composite
def near_case(draw):
    """integers plus multiples of 0.003: pairs at distance 0.003 are within 0.005 of a value above one,
    pairs at distance >= 0.006 are not."""
    base = draw(st.integers(2, 60))
    n = draw(st.integers(2, 4))
    f = lambda k: "%.3f" % (base + k * 0.003 + 0.5)
    pick = st.lists(st.integers(0, 6), min_size=n, max_size=n, unique=True)
    xs, ys = draw(pick), draw(pick)
    m = [[abs(x - y) <= 1 for y in ys] for x in xs]
    want = _perm_exists(m)
    sep = ", "
    o, c = draw(st.sampled_from([("", ""), ("\\{", "\\}")]))
    return {"a": o + sep.join(map(f, xs)) + c, "b": o + sep.join(map(f, ys)) + c, "want": want,
            "how": "near " + ("match" if want else "differ"), "n": n}


def _perm_exists(m):
    import itertools
    n = len(m)
    return any(all(m[i][p[i]] for i in range(n)) for p in itertools.permutations(range(n)))


SUBS = [
    Sub("collections", check_pair, lambda: case().filter(bool), nontrivial=lambda c: c["n"] >= 2, quick=900, chunk=30),
    Sub("near", check_pair, near_case, nontrivial=lambda c: c["n"] >= 2, quick=200, chunk=25),
]
