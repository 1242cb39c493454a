"""Intervals match exactly when they are the same set."""
import re
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_ans as g

PROPERTY = "E05"
RULE = ("A set of reals is drawn as 1-3 pieces over an increasing scale of 2-7 clearly different numbers (integers, fractions, surds, "
        "multiples of pi) plus -infinity and infinity; its reference is the canonical sorted union of maximal pieces. Each answer "
        "writes the set independently: pieces reordered, split at an inner point into touching or overlapping pieces, written as an "
        "intersection, with \\cup / \\cap / Unicode, \\left \\right, blanks, an 'x \\in' prefix, respelled end points. want = same "
        "canonical set; mutants flip an end, move an end, drop, add or merge a piece. Non-trivial: the texts differ.")

INF = 10 ** 9


@st.composite
def scale(draw):
    n = draw(st.integers(2, 6))
    pts = []
    for _ in range(n * 3):
        x = draw(g.exact_small().filter(lambda n: abs(n.val()) < 100))
        if all(g.clear(x, y) for y in pts):
            pts.append(x)
        if len(pts) == n:
            break
    return sorted(pts, key=lambda p: p.val())


# a piece: (lo, lo_open, hi, hi_open) over indices; -1 and INF for the infinities
def canon(pieces):
    """maximal pieces, sorted"""
    ps = sorted(pieces, key=lambda p: (p[0], p[1]))
    out = []
    for lo, lop, hi, hop in ps:
        if out:
            a, ao, b, bo = out[-1]
            if lo < b or (lo == b and not (lop and bo)):
                if hi > b or (hi == b and not hop):
                    out[-1] = (a, ao, hi, hop if hi > b else (hop and bo))
                continue
        out.append((lo, lop, hi, hop))
    return out


@st.composite
def pieces(draw, n):
    res = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
        lo = draw(st.integers(-1, n - 2))
        hi = draw(st.integers(lo + 1, n - 1))
        if hi == n - 1 and draw(st.integers(0, 3)) == 0:
            hi = INF
        if lo == -1 and draw(st.booleans()):
            lo = 0
            hi = max(hi, 1)
        res.append((lo, lo == -1 or draw(st.booleans()), hi, hi == INF or draw(st.booleans())))
    return canon(res)


@st.composite
def rewrite(draw, ps, n):
    """the same set from other pieces"""
    ps = list(ps)
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(ps) - 1))
        lo, lop, hi, hop = ps[i]
        mids = [k for k in range(n) if lo < k < hi]
        if not mids or len(ps) > 3:
            continue
        m = draw(st.sampled_from(mids))
        f = draw(st.integers(0, 3))
        if f == 0:
            ps[i:i + 1] = [(lo, lop, m, True), (m, False, hi, hop)]
        elif f == 1:
            ps[i:i + 1] = [(lo, lop, m, False), (m, True, hi, hop)]
        elif f == 2:
            ps[i:i + 1] = [(lo, lop, m, False), (m, False, hi, hop)]
        else:
            m2 = draw(st.sampled_from(mids))
            a, b = min(m, m2), max(m, m2)
            ps[i:i + 1] = [(lo, lop, b, draw(st.booleans()) if b > a else False), (a, draw(st.booleans()) if b > a else True, hi, hop)]
    return list(draw(st.permutations(ps)))


def end(draw, k, pts):
    if k == -1:
        return draw(st.sampled_from(["-\\infty", "-\\infty", "- \\infty"]))
    if k == INF:
        return draw(st.sampled_from(["\\infty", "\\infty", "+\\infty"]))
    return g.spell(draw, pts[k], collection=True, rounding=False)


def one(draw, p, pts):
    lo, lop, hi, hop = p
    o, c = "(" if lop else "[", ")" if hop else "]"
    if draw(st.integers(0, 3)) == 0:
        o, c = "\\left" + o, "\\right" + c
    return o + end(draw, lo, pts) + draw(st.sampled_from([", ", ",", " , "])) + end(draw, hi, pts) + c


def piece_text(draw, p, pts, n):
    lo, lop, hi, hop = p
    if draw(st.integers(0, 5)) == 0:
        # as an intersection of two larger ones
        lo2 = draw(st.integers(-1, lo))
        hi2 = INF if hi == INF else draw(st.sampled_from([INF] + list(range(hi, n))))
        lop2 = True if lo2 == -1 else (draw(st.booleans()) if lo2 < lo else (lop and draw(st.booleans())))
        hop2 = True if hi2 == INF else (draw(st.booleans()) if hi2 > hi else (hop and draw(st.booleans())))
        hi3 = INF if draw(st.booleans()) else hi2
        hop3 = True if hi3 == INF else hop2
        a = (lo, lop, hi3, hop3) if (hi3, hop3) != (hi, hop) or True else p
        b = (lo2, lop2, hi, hop)
        if draw(st.booleans()):
            a, b = b, a
        return one(draw, a, pts) + draw(st.sampled_from([" \\cap ", "\\cap", " ∩ "])) + one(draw, b, pts)
    return one(draw, p, pts)


def write(draw, ps, pts, n):
    sep = draw(st.sampled_from([" \\cup ", "\\cup", " ∪ ", "∪", "\\cup "]))
    s = sep.join(piece_text(draw, p, pts, n) for p in ps)
    k = draw(st.integers(0, 5))
    if k == 0:
        s = draw(st.sampled_from(["x \\in ", "x\\in", "t \\in ", "y\\in "])) + s
    elif k == 1:
        s = "$" + s + "$"
    return s


@st.composite
def case(draw):
    pts = draw(scale())
    n = len(pts)
    if n < 2:
        return None
    ps = draw(pieces(n))
    qs = list(ps)
    how = draw(st.sampled_from(["same", "same", "flip", "move", "drop", "add", "inf"]))
    i = draw(st.integers(0, len(qs) - 1))
    lo, lop, hi, hop = qs[i]
    if how == "flip":
        if lo != -1 and (hi == INF or draw(st.booleans())):
            lop = not lop
        elif hi != INF:
            hop = not hop
        qs[i] = (lo, lop, hi, hop)
    elif how == "move":
        if draw(st.booleans()) and lo != -1:
            lo2 = draw(st.integers(-1, min(hi, n - 1)))
            if lo2 < hi:
                qs[i] = (lo2, True if lo2 == -1 else lop, hi, hop)
        elif hi != INF:
            hi2 = draw(st.integers(max(lo, 0), n - 1))
            if hi2 > lo:
                qs[i] = (lo, lop, hi2, hop)
    elif how == "inf":
        qs[i] = (lo, lop, INF, True) if draw(st.booleans()) else (-1, True, hi, hop)
    elif how == "drop" and len(qs) > 1:
        qs.pop(i)
    elif how == "add":
        a = draw(st.integers(0, n - 2))
        qs.append((a, draw(st.booleans()), draw(st.integers(a + 1, n - 1)), draw(st.booleans())))
    qs = canon(qs)
    want = qs == ps
    a = write(draw, draw(rewrite(ps, n)), pts, n)
    b = write(draw, draw(rewrite(qs, n)), pts, n)
    if re.search(r"\d ?, ?\d{3}", a) or re.search(r"\d ?, ?\d{3}", b):
        return None
    return {"a": a, "b": b, "want": want, "how": ("same" if want else how) + " %d" % len(ps)}


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"], case["how"])
    expect_equiv(case["b"], case["a"], case["want"], case["how"])
    return [case["how"]]


SUBS = [Sub("sets", check_pair, lambda: case().filter(bool), nontrivial=lambda c: c["a"] != c["b"], quick=1000, chunk=40)]
