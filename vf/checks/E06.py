"""Matrix answers compare entry by entry."""
import re
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_ans as g, gen_sym
from vf.checks.E04 import write, number, expr, values_differ

PROPERTY = "E06"
RULE = ("A matrix (2-4 x 2-4) or vector (length 2-4) of numbers in any notation and polynomial expressions is written twice "
        "independently: environment matrix/pmatrix/bmatrix/Bmatrix/array (with column specification)/cases for columns, delimiters "
        "around a plain matrix, nested list, for vectors row, column, list or list of lists; blanks, line breaks, ended last row; "
        "must match both ways. Mutants: one entry clearly changed, transposed, two rows or columns exchanged, row or column dropped "
        "or repeated, entries reshaped; must match neither way (checked against the entry-wise reference). Non-trivial: texts differ.")

ENVS = ["matrix", "pmatrix", "bmatrix", "Bmatrix", "pmatrix", "bmatrix"]


def env(draw, rows):
    k = draw(st.integers(0, 7))
    amp = draw(st.sampled_from(["&", " & ", " &"]))
    nl = draw(st.sampled_from(["\\\\", " \\\\ ", "\\\\\n"]))
    pad = draw(st.sampled_from(["", " ", ""]))
    body = pad + nl.join(amp.join(r) for r in rows) + pad
    if draw(st.integers(0, 7)) == 0:
        body += "\\\\"
    if k == 0:
        spec = draw(st.sampled_from(["c", "r", "l"])) * len(rows[0])
        o, c = draw(st.sampled_from([("\\left(", "\\right)"), ("\\left[", "\\right]"), ("", "")]))
        return o + "\\begin{array}{" + spec + "}" + body + "\\end{array}" + c
    if k == 1:
        o, c = draw(st.sampled_from([("\\left(", "\\right)"), ("\\left[", "\\right]"), ("(", ")")]))
        return o + "\\begin{matrix}" + body + "\\end{matrix}" + c
    e = draw(st.sampled_from(ENVS))
    return "\\begin{%s}%s\\end{%s}" % (e, body, e)


def lst(draw, rows):
    sep = draw(st.sampled_from([",", ", "]))
    return "[" + sep.join("[" + sep.join(r) + "]" for r in rows) + "]"


def produce(draw, rows):
    cells = [[write(draw, x) for x in r] for r in rows]
    if len(rows) == 1:
        flat = cells[0]
        k = draw(st.integers(0, 4))
        if k == 0:
            return env(draw, [flat])
        if k == 1:
            return env(draw, [[x] for x in flat])
        if k == 2:
            return "[" + draw(st.sampled_from([",", ", "])).join(flat) + "]"
        if k == 3:
            return lst(draw, [[x] for x in flat])
        return lst(draw, [flat])
    if draw(st.integers(0, 3)) == 0:
        return lst(draw, cells)
    return env(draw, cells)


def differ(a, b):
    if len(a) != len(b) or len(a[0]) != len(b[0]):
        return True
    return any(values_differ(x, y) for r, s in zip(a, b) for x, y in zip(r, s))


def surely_same(a, b):
    return len(a) == len(b) and all(len(r) == len(s) and all(x is y for x, y in zip(r, s)) for r, s in zip(a, b))


@st.composite
def case(draw):
    vec = draw(st.integers(0, 2)) == 0
    R, C = (1, draw(st.integers(2, 4))) if vec else (draw(st.integers(2, 3)), draw(st.integers(2, 3)))
    entry = number() if draw(st.integers(0, 2)) else st.one_of(number(), number(), expr())
    M = [[draw(entry) for _ in range(C)] for _ in range(R)]
    B = [list(r) for r in M]
    how = draw(st.sampled_from(["same", "same", "same", "entry", "entry", "transpose", "swaprows", "swapcols", "drop", "extra", "reshape"]))
    if how == "entry":
        i, j = draw(st.integers(0, R - 1)), draw(st.integers(0, C - 1))
        old = B[i][j]
        if old[0] == "n":
            new = ("n", draw(g.mutant(old[1])))
            if abs(new[1].val()) >= 100:
                new = ("n", g.N(old[1].r + 1, old[1].c, old[1].d))
        else:
            new = ("p", draw(gen_sym.mutate(old[1])))
        if not values_differ(old, new):
            return None
        B[i][j] = new
    elif how == "transpose":
        if vec:
            how = "same"
        else:
            B = [list(r) for r in zip(*B)]
    elif how == "swaprows" and R > 1:
        B[0], B[-1] = B[-1], B[0]
    elif how == "swapcols":
        for r in B:
            r[0], r[-1] = r[-1], r[0]
    elif how == "drop":
        if R > 2:
            B.pop()
        elif C > 2:
            for r in B:
                r.pop()
    elif how == "extra":
        for r in B:
            r.append(draw(entry))
    elif how == "reshape":
        flat = [x for r in B for x in r]
        B = [flat] if R > 1 else [flat[:2], flat[2:]] if C == 4 else B
    if surely_same(M, B):
        want = True
    elif differ(M, B):
        want = False
    else:
        return None
    a, b = produce(draw, M), produce(draw, B)
    if "\\begin" not in a and "\\begin" not in b and len(M) == 1:
        # [[1,2]] against [1,2]: neither is written as a matrix
        b = env(draw, [[write(draw, x) for x in r] for r in B])
    bad = lambda s: re.search(r"\d, ?\d{3}", s)
    if bad(a) or bad(b):
        return None
    return {"a": a, "b": b, "want": want, "how": ("vector " if vec else "matrix ") + ("same" if want else how)}


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"], case["how"])
    expect_equiv(case["b"], case["a"], case["want"], case["how"])
    return [case["how"]]


SUBS = [Sub("matrices", check_pair, lambda: case().filter(bool), nontrivial=lambda c: c["a"] != c["b"], quick=900, chunk=30)]
