"""Malformed LaTeX is refused, and well-formed text parses as before afterwards."""
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_all
from vf.textoks import *

PROPERTY = "P10"
RULE = ("well-formed texts of the whole language (functions, exact arithmetic, relations, lists, calculus, matrices, accents, placeholders) and from each of them: truncation: "
        "every prefix at a token boundary that is incomplete by TeX's own rules (an opened group, environment or bar not closed, a trailing operator, comma or "
        "command that takes an argument, a function, root, fraction, sum, limit or integral without its argument); corruption: one binary operator, relation, caret or "
        "underscore inserted at the beginning, after an opening bracket, after another operator, or before a closing bracket or at the end; one closing bracket or \\end deleted; "
        "one unknown character or command inserted between two tokens. Every such text must raise; in between and afterwards the well-formed text must "
        "give the result it gave before. Non-trivial: at least three malformed texts were tried.")

UNKNOWN = ["#", "@", "?", "`", "§", "π", "°", "\"", "é", "数", "\\foo", "\\qux", "\\unknown", "\\wibble", "\\Zeta", "\\zz", "\\#", "\\@", "²", "×", "\\ "]
INSERT = ["*", "/", "\\cdot ", "\\times ", "\\div ", ":", "\\mod ", "^", "_", " = ", " < ", " > ", "\\le ", "\\geq ", "\\ne "]


def show(r):
    return [show(x) for x in r] if isinstance(r, (list, tuple)) else sympy.srepr(r)


def refused(tex, why):
    try:
        r = latex2sympy(tex)
    except Exception:
        return
    raise Violation("%r (%s) is accepted and gives %s" % (tex, why, r))


def glue(a, b):
    """b after a without letters of b joining a command at the end of a"""
    return a + (" " if a and b and re_cmd(a) and b[0].isalpha() else "") + b


def re_cmd(a):
    i = a.rfind("\\")
    return i >= 0 and i + 1 < len(a) and a[i + 1:].isalpha()


def truncations(tex, toks):
    for k in range(len(toks)):
        pre = [t for _, t in toks[:k]]
        why = incomplete(pre)
        if why:
            yield tex[:toks[k][0]], why


def between(tex, toks, k, what):
    p = toks[k][0] if k < len(toks) else len(tex)
    return glue(tex[:p], " " + what + " ") + tex[p:]


def corruptions(tex, toks):
    n = len(toks)
    names = [t for _, t in toks]
    for k in range(n + 1):
        prev, nxt = names[k - 1] if k else None, names[k] if k < n else None
        free = prev not in ("\\operatorname", "\\mathit", "\\begin", "\\end") and nxt not in ("\\begin", "\\end")
        if prev is None or opens(prev):
            if free:
                yield "first", k
        elif prev in BINARY | SIGNS | {","}:
            yield "doubled", k
        elif nxt is None or closes(nxt):
            yield "last", k


def check_truncation(case):
    tex = case["tex"]
    try:
        want = show(latex2sympy(tex))
    except Exception:
        raise Discard()
    toks = split(tex)
    cut = list(truncations(tex, toks))
    pick = [cut[i % len(cut)] for i in case["picks"]] if cut else []
    for t, why in dict.fromkeys(pick):
        refused(t, "stops early: " + why)
    again(tex, want, [t for t, _ in pick])
    return [why for _, why in set(pick)] + ([case["kind"]] if len(set(pick)) > 2 else [])


def again(tex, want, tried):
    try:
        got = show(latex2sympy(tex))
    except Exception as e:
        raise Violation("%r is refused (%s: %s) after %s" % (tex, type(e).__name__, str(e)[:100], tried))
    if got != want:
        raise Violation("%r gives %s after %s, before it gave %s" % (tex, got, tried, want))


def check_corruption(case):
    tex = case["tex"]
    try:
        want = show(latex2sympy(tex))
    except Exception:
        raise Discard()
    toks = split(tex)
    sites = list(corruptions(tex, toks))
    closers = [k for k, (_, t) in enumerate(toks) if closes(t)]
    tried, tags = [], set()
    for kind, i, what in case["edits"]:
        if kind == "operator":
            where, k = sites[i % len(sites)]
            t, why = between(tex, toks, k, INSERT[what % len(INSERT)]), where
        elif kind == "sign":
            ends = [k for w, k in sites if w == "last"]
            if "\\lim" in tex or "\\xr" in tex.lower() or not ends:
                continue
            t, why = between(tex, toks, ends[i % len(ends)], "+-"[what % 2]), "last"
        elif kind == "close":
            if not closers:
                continue
            k = closers[i % len(closers)]
            p = toks[k][0]
            t, why = tex[:p] + " " + tex[p + len(toks[k][1]):], "closing bracket deleted"
        else:
            k = i % (len(toks) + 1)
            t, why = between(tex, toks, k, UNKNOWN[what % len(UNKNOWN)]), "unknown"
        refused(t, why)
        tried.append(t)
        tags.add(why)
    again(tex, want, tried)
    return sorted(tags) + ([case["kind"]] if len(set(tried)) > 2 else [])


def lots():
    return st.lists(st.integers(0, 200), min_size=3, max_size=8)


@st.composite
def truncation(draw):
    c = draw(gen_all.text())
    return {**c, "picks": draw(lots())}


@st.composite
def corruption(draw):
    c = draw(gen_all.text())
    e = st.tuples(st.sampled_from(["operator", "operator", "sign", "close", "unknown"]), st.integers(0, 60), st.integers(0, 60))
    return {**c, "edits": [list(x) for x in draw(st.lists(e, min_size=3, max_size=8))]}


SUBS = [
    Sub("truncation", check_truncation, truncation, nontrivial=lambda c: len(set(c["picks"])) > 2, quick=1100),
    Sub("corruption", check_corruption, corruption, nontrivial=lambda c: len(c["edits"]) > 2, quick=1100),
]
