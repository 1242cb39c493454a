"""Cosmetic rewriting of a real annotated answer keeps it correct; changing one number makes it wrong."""
import json
import os
import re
from hypothesis import strategies as st
from vf.repo import *
from vf.gen_text import REPO

PROPERTY = "E14"
RULE = ("The annotated answers of the MATH test set (every kind, weighted towards the structured ones). cosmetic: 1-4 meaning-preserving edits "
        "(spaces and thin spaces around operators and commas, spaces dropped, \\dfrac / \\tfrac, \\left \\right added or dropped, braces "
        "around single exponents / subscripts / fraction parts added or dropped, $ wrapping, padding, spellings of degree and percent, "
        "pmatrix / bmatrix, trailing zeros and thousands separators of whole-number answers, x= prefix) must stay correct in both orders, also when the "
        "original is one of several annotated answers; altered: one number of the answer replaced by a clearly different one must be "
        "incorrect. Non-trivial: the text changed and the answer is not a bare integer.")

_data = None


def data():
    global _data
    if _data is None:
        d = json.load(open(os.path.join(REPO, "data", "math_testset_annotation.json")))
        seen = {}
        for r in d:
            for a in ([r["answer"]] if isinstance(r["answer"], str) else r["answer"]):
                if len(re.findall("<|>|\\\\le|\\\\ge", a.replace("\\left", ""))) < 2:       # chains of relations are compared as text
                    seen[a] = str(r["human_type"])
        plain = sorted(a for a in seen if re.fullmatch(r"-?\d+", a))
        _data = {"plain": plain, "rich": sorted(a for a in seen if not re.fullmatch(r"-?\d+", a)), "type": seen}
    return _data


TOKEN = re.compile(r"\\text\{[^{}]*\}|\\mbox\{[^{}]*\}|\\begin\{\w+\}(?:\{[lcr|]+\})?|\\end\{\w+\}|\\\\|\\[a-zA-Z]+|\\.|\d+(?:,\d{3})+(?!\d)|\d+(?:\.\d+)?|\.\d+|[a-zA-Z]|\s+|.", re.S)


def toks(s):
    return TOKEN.findall(s)


OPS = {"+", "-", "=", "<", ">", "(", ")", "[", "]", "\\cdot", "\\cup", "\\pi", "\\sqrt", "\\pm", "\\le", "\\ge", "\\times"}
SPACES = [" ", "  ", "\\,", "\\!", "\\;", "~", "\\ "]


def gap_ok(l, r):
    """a space may stand (or go) between these two tokens"""
    if l is None or r is None:
        return False
    if l in ("^", "_", "\\left", "\\right", "\\frac", "\\sqrt", "\\dfrac") or r in ("^", "_", "!", "'"):
        return False
    if (l in "([" and len(l) == 1) or (r in ")]" and len(r) == 1) or l in OPS and l not in (")", "]") or r in OPS and r not in ("(", "["):
        return True
    return False


def spaces(draw, t):
    n = draw(st.integers(1, 3))
    idx = [i for i in range(1, len(t)) if gap_ok(t[i - 1], t[i]) and not t[i - 1].isspace() and not t[i].isspace()]
    if "\\begin" in "".join(t) or "\\text" in "".join(t):
        pass
    for i in sorted(draw(st.lists(st.sampled_from(idx), min_size=1, max_size=n, unique=True)), reverse=True) if idx else []:
        t.insert(i, draw(st.sampled_from(SPACES[:2] * 3 + SPACES)))
    return t


def commas(draw, t):
    """, -> ',  ' unless it would split or make a thousands separator"""
    out = []
    for i, x in enumerate(t):
        out.append(x)
        if x == "," and i + 1 < len(t) and not t[i + 1].isspace():
            nxt = t[i + 1]
            if not re.fullmatch(r"\d{3}.*|\}", nxt):
                out.append(draw(st.sampled_from([" ", "\\,", "\\ "])))
    return out


def drop_spaces(draw, t):
    out = []
    for i, x in enumerate(t):
        if x.isspace() and 0 < i < len(t) - 1 and (gap_ok(t[i - 1], t[i + 1])) and not (t[i - 1].startswith("\\") and t[i + 1][:1].isalpha()):
            continue
        out.append(x)
    return out


def wide(draw, t):
    return [draw(st.sampled_from([" ", "  "])) if x == " " else x for x in t]


def fracs(draw, t):
    return [draw(st.sampled_from(["\\dfrac", "\\tfrac", "\\frac"])) if x in ("\\frac", "\\dfrac", "\\tfrac") else x for x in t]


def leftright(draw, t):
    if "\\left" in t:
        return [x for x in t if x not in ("\\left", "\\right")]
    o = [i for i, x in enumerate(t) if x in "([" and len(x) == 1]
    c = [i for i, x in enumerate(t) if x in ")]" and len(x) == 1]
    if len(o) != len(c) or any(i > j for i, j in zip(o, c)):
        return t
    out = []
    for i, x in enumerate(t):
        if i in o:
            out.append("\\left")
        if i in c:
            out.append("\\right")
        out.append(x)
    return out


def braces(draw, t):
    s = "".join(t)
    k = draw(st.integers(0, 4))
    if k == 0:
        s = re.sub(r"([\^_])(\d)(?!\d)", r"\1{\2}", s)
    elif k == 1:
        s = re.sub(r"([\^])\{(\d)\}(?!\d)", r"\1\2", s)
    elif k == 2:
        s = re.sub(r"\\([dt]?)frac\{(\d)\}\{(\d)\}", r"\\\1frac\2\3", s)
    elif k == 3:
        s = re.sub(r"\\sqrt\{(\d)\}(?!\d)", r"\\sqrt\1", s)
    else:
        s = re.sub(r"\\sqrt(\d)(?!\d)", r"\\sqrt{\1}", s)
    return toks(s)


def degrees(draw, t):
    s = "".join(t)
    s = re.sub(r"\^\\circ(?![a-z])|\^\{\\circ\}", lambda m: draw(st.sampled_from(["^{\\circ}", "^\\circ", "^{\\circ }"])), s)
    s = s.replace("\\%", draw(st.sampled_from(["\\%", "%", " \\%"]))) if re.fullmatch(r"-?[\d.]+\\%", s) else s
    return toks(s)


def matrices(draw, t):
    s = "".join(t)
    if "\\begin" not in s:
        return t
    env = draw(st.sampled_from(["pmatrix", "bmatrix"]))
    s = re.sub(r"\\(begin|end)\{[pb]matrix\}", r"\\\1{%s}" % env, s)
    k = draw(st.integers(0, 2))
    if k == 0:
        s = re.sub(r"\s*\\\\\s*", lambda m: draw(st.sampled_from([" \\\\\\\\ ", "\\\\\\\\", "\\\\\\\\\n"])).replace("\\\\", "\\"), s)
    elif k == 1:
        s = re.sub(r"\s*&\s*", lambda m: draw(st.sampled_from([" & ", "&", "& "])), s)
    return toks(s)


def whole(draw, t):
    s = "".join(t)
    m = re.fullmatch(r"(-?)(\d{1,3}(?:,\d{3})+|\d+)", s.strip())
    if not m:
        return t
    sign, n = m.group(1), m.group(2).replace(",", "")
    k = draw(st.integers(0, 4))
    if k == 0:
        n += draw(st.sampled_from([".0", ".00", ".", ".000"]))
    elif k == 1 and len(n) > 3 and n[0] != "0":
        sep = draw(st.sampled_from([",", "{,}", "\\,", ",\\!"]))
        n = re.sub(r"(?<=\d)(?=(?:\d{3})+$)", lambda m: sep, n)
    elif k == 2:
        n = "{" + n + "}"
    elif k == 3:
        n = "(" + n + ")" if sign else n
    return [sign + n]


EDITS = {"spaces": spaces, "commas": commas, "drop": drop_spaces, "wide": wide, "frac": fracs, "leftright": leftright, "braces": braces, "degrees": degrees,
         "matrices": matrices, "whole": whole}


def wrap(draw, s):
    k = draw(st.integers(0, 11))
    if k == 0:
        return "$" + s + "$"
    if k == 1:
        return " " + s + "  "
    if k == 3:
        return "$ " + s + " $"
    if k == 5 and re.fullmatch(r"-?(\d+|\\frac\{\d+\}\{\d+\}|\d+\\pi|\d*\\sqrt\{\d+\})", s):
        return draw(st.sampled_from(["x=", "n = ", "y =", "\\theta="])) + s
    if k == 6:
        return "\n" + s + "\n"
    return s


def edit(draw, s):
    t = toks(s)
    names = draw(st.lists(st.sampled_from(sorted(EDITS)), min_size=1, max_size=4, unique=True))
    for nm in names:
        t = toks("".join(EDITS[nm](draw, t)))
    return wrap(draw, "".join(t))


def pick(draw):
    d = data()
    if draw(st.integers(0, 7)) == 0:
        return draw(st.sampled_from(d["plain"]))
    return draw(st.sampled_from(d["rich"]))


@st.composite
def cosmetic(draw):
    a = pick(draw)
    return {"a": a, "b": edit(draw, a), "want": True}


def numbers(s):
    """spans of the numbers whose change must change the answer"""
    out = []
    pos = 0
    for x in toks(s):
        if re.fullmatch(r"\d+(\.\d+)?|\.\d+|\d+(,\d{3})+", x):
            out.append((pos, pos + len(x)))
        pos += len(x)
    return out


@st.composite
def altered(draw):
    a = pick(draw)
    spans = numbers(a)
    if not spans:
        return None
    i, j = draw(st.sampled_from(spans))
    n = a[i:j]
    before = a[:i]
    if re.search(r"(\\[dt]?frac|\\sqrt)\s*\d*$", before) or re.search(r"_$", before):
        new = str((int(n[-1]) * 2 + 1) % 9 + 1) if n.isdigit() else None         # unbraced: keep the number of digits
        if new is None or new == n[-1]:
            return None
        new = n[:-1] + new
    elif "," in n or "." in n:
        k = draw(st.integers(1, 9))
        first = re.search(r"\d", n).start()
        f = (int(n[first]) + k - 1) % 9 + 1
        if f == int(n[first]):
            return None
        new = n[:first] + str(f) + n[first + 1:]
    else:
        v = int(n)
        new = str(draw(st.sampled_from([2 * v + 1, 3 * v + 2, 10 * v + 3, v // 2 if v > 5 else v + 2])))
    b = a[:i] + new + a[j:]
    if re.search(r"\\(mbox|text)\{[^{}]*\}\s*\^\s*\{?\d*$", a[:j]) or re.search(r"\.\d*_", a) or re.search(r"\\\{-1\\\} \\cup", a):       # powers of units are dropped with the unit; see E05
        return None
    return {"a": a, "b": b, "want": False}


def check(case):
    for x, y in ((case["a"], case["b"]), (case["b"], case["a"])):
        expect_equiv(x, y, case["want"], "(annotated answer %r)" % case["a"])


NT = lambda c: c["a"] != c["b"] and not re.fullmatch(r"-?\d+", c["a"])
SUBS = [
    Sub("cosmetic", check, cosmetic, nontrivial=NT, quick=1280, chunk=80),
    Sub("altered", check, lambda: altered().filter(bool), nontrivial=NT, quick=640, chunk=40),
]
