"""Purely typographic variants parse alike."""
import re
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf.core import patient
from vf import gen_all
from vf.textoks import TOKEN, TWO, ONE, FUNCS, OPEN, CLOSE, BINARY, SIGNS

PROPERTY = "P07"
RULE = ("one: a generated well-formed text of the whole language (functions, arithmetic, relations, lists, calculus, matrices, names, placeholders) and one kind of typographic edit applied at generated places: spaces, "
        "tabs, newlines; \\, \\quad \\qquad ~ \\displaystyle; $ or $$ around it; \\left\\right, \\mleft\\mright or bare delimiters; \\dfrac/\\tfrac; braces around an operand, an exponent, a subscript or the "
        "parenthesised argument of a function; \\mathrm{d}, {\\rm d}; \\mathrm{T}. many: several kinds at once. The edited text must parse to the same object (srepr, kind, members) as the original. Texts that the parser "
        "refuses are discarded (they are judged by P01-P06). Non-trivial: the edited text differs in at least two places.")

SPACE = [" ", "  ", "\t", "\n", " \t\n", "\r\n"]
WIDE = ["\\,", "\\quad ", "\\qquad ", "~", "\\displaystyle "]
NAMED = {"\\operatorname", "\\mathit", "\\text", "\\textit", "\\mathrm", "\\mathbf", "\\mathbb", "\\mathcal", "\\mathfrak", "\\mathring", "\\mathsf", "\\mathtt", "\\mathscr", "\\mathnormal", "\\bm", "\\boldsymbol",
         "\\hat", "\\bar", "\\overline", "\\vec", "\\tilde", "\\dot", "\\ddot", "\\acute", "\\grave", "\\check", "\\breve", "\\widetilde", "\\overrightarrow", "\\widecheck"}
SIDED = {"(": ")", "[": "]", "\\{": "\\}", "\\lfloor": "\\rfloor", "\\lceil": "\\rceil"}
FUNCTION = {f for f in FUNCS if f not in ("\\int", "\\sum", "\\prod", "\\lim", "\\max", "\\min", "\\gcd", "\\lcm", "\\det")}


class Text:
    """tokens, in which white space is kept, with the places that must not be touched"""

    def __init__(self, tex):
        self.toks = [m.group() for m in TOKEN.finditer(tex)]
        n = len(self.toks)
        self.closed = [False] * (n + 1)              # no insertion before token i
        self.arg = [False] * (n + 1)                 # token i is a TeX argument or delimiter: only plain space before it
        i = 0
        while i < n:
            t = self.toks[i]
            if t in NAMED or t in ("\\xrightarrow", "\\xRightarrow", "\\char"):
                j = self.group(i + 1)
                for k in range(i + 1, j):
                    self.closed[k] = True
                if t.startswith("\\xr") or t.startswith("\\xR"):
                    pass
                i = max(j - 1, i)
            i += 1
        for i in range(1, n):
            a, b = self.toks[i - 1], self.toks[i]
            if a in TWO or a in ONE or a in ("^", "_", "\\left", "\\right", "\\mleft", "\\mright", "\\mathit", "\\sqrt"):
                self.arg[i] = True
            if "\\rm" in (a, b) or re.search(r"\\rm\s+d\s*$", "".join(self.toks[max(0, i - 5):i])):
                self.arg[i] = True
            if a == "]" or a == "}":
                self.arg[i] = True                   # may be the second argument of a fraction or the one of a root
            if a in "!=" and b in "=<>" or a in "<=>" and b in "=>-" or a == "-" and b == ">":
                self.closed[i] = True
            if a in (" ",) or a.isspace():
                self.arg[i] = self.arg[i] or i > 1 and self.arg[i - 1]
            if a in "Ee" and b in "+-" or b in "Ee" and a[-1:].isdigit() or a in "Ee" and b[:1].isdigit():
                self.closed[i] = True
            if a == "." or b == "." or a[-1:].isdigit() and b[:1].isdigit():
                self.closed[i] = True
            if b == "_" and i > 1 and self.toks[i - 2] == "d":
                self.closed[i] = True                # d x_1 is one token of the language

    def group(self, i):
        """index after the group or token at i"""
        while i < len(self.toks) and self.toks[i].isspace():
            i += 1
        if i < len(self.toks) and self.toks[i] == "[":
            while i < len(self.toks) and self.toks[i] != "]":
                i += 1
            i += 1
        if i < len(self.toks) and self.toks[i] == "{":
            d = 0
            for j in range(i, len(self.toks)):
                d += (self.toks[j] == "{") - (self.toks[j] == "}")
                if d == 0:
                    return j + 1
        return min(i + 1, len(self.toks))

    def prev(self, i):
        i -= 1
        while i >= 0 and self.toks[i].isspace():
            i -= 1
        return self.toks[i] if i >= 0 else ""

    def next(self, i):
        i += 1
        while i < len(self.toks) and self.toks[i].isspace():
            i += 1
        return self.toks[i] if i < len(self.toks) else ""

    def pairs(self):
        """matched delimiters (i, j)"""
        out, stack = [], []
        for i, t in enumerate(self.toks):
            if t in OPEN or t.startswith("\\begin{"):
                stack.append(i)
            elif t in CLOSE or t.startswith("\\end{"):
                if stack:
                    j = stack.pop()
                    if SIDED.get(self.toks[j]) == t:
                        out.append((j, i))
        return out

    def braces(self):
        out, stack = [], []
        for i, t in enumerate(self.toks):
            if t == "{":
                stack.append(i)
            elif t == "}" and stack:
                out.append((stack.pop(), i))
        return out


def join(toks):
    out = ""
    for t in toks:
        if t and t[0].isalpha() and re.search(r"\\[a-zA-Z]+$", out):
            out += " "
        out += t
    return out


# ---------------------------------------------------------------- edits: (text, picks) -> text, number of places
def at(places, picks):
    return sorted({places[p % len(places)] for p in picks}) if places else []


def edit_space(tex, picks, what=SPACE):
    T = Text(tex)
    places = [i for i in range(len(T.toks) + 1) if not T.closed[i] and (what is SPACE or not T.arg[i])]
    chosen = at(places, picks)
    out = []
    for i in range(len(T.toks) + 1):
        if i in chosen:
            out.append(what[(i + picks[0]) % len(what)])
        if i < len(T.toks):
            out.append(T.toks[i])
    return join(out), len(chosen)


def edit_wide(tex, picks):
    return edit_space(tex, picks, WIDE)


def edit_dollar(tex, picks):
    d = ["$", "$$", " $"][picks[0] % 3]
    return d + tex + d.strip(), 2


def edit_sides(tex, picks):
    """delimiters with other \\left \\right marks"""
    T = Text(tex)
    places = []
    for i, j in T.pairs():
        if T.closed[i] or T.closed[j]:
            continue
        p = T.prev(i)
        if p in ("\\sqrt", "\\xrightarrow", "\\xRightarrow", "^", "_") or p in TWO or p in ONE:
            continue
        if T.toks[i] == "[" and T.prev(i) in NAMED:
            continue
        if T.next(i).startswith("\\begin{") or T.prev(j).startswith("\\end{"):
            continue
        if T.toks[i] == "(" and T.next(j) == "_":   # (n)_{k}
            continue
        places.append((i, j))
    chosen = at(places, picks)
    toks = list(T.toks)
    for i, j in chosen:
        new = [("", ""), ("\\left", "\\right"), ("\\mleft", "\\mright")][(i + picks[0]) % 3]
        for k, n in ((i, new[0]), (j, new[1])):
            m = k - 1
            while m >= 0 and toks[m].isspace():
                m -= 1
            if m >= 0 and toks[m] in ("\\left", "\\right", "\\mleft", "\\mright"):
                toks[m] = n
            else:
                toks[k] = n + toks[k]
    return join(toks), 2 * len(chosen)


def edit_frac(tex, picks):
    T = Text(tex)
    places = [i for i, t in enumerate(T.toks) if t in ("\\frac", "\\dfrac", "\\tfrac")]
    chosen = at(places, picks)
    toks = list(T.toks)
    for i in chosen:
        toks[i] = ["\\frac", "\\dfrac", "\\tfrac"][(i + picks[0]) % 3]
    return join(toks), len(chosen)


def edit_brace(tex, picks):
    """braces around an operand, an exponent, or the parenthesised argument of a function"""
    T = Text(tex)
    places = []
    sub = "sum" in tex or "prod" in tex or "lim" in tex or "int" in tex
    for i, t in enumerate(T.toks):
        if T.closed[i] or T.closed[i + 1] and i + 1 < len(T.toks) and not T.toks[i + 1].isspace():
            continue
        p, n = T.prev(i), T.next(i)
        atom = re.fullmatch(r"[a-zA-Z]|\d[\d,]*(\.\d+)?|\\(alpha|beta|gamma|theta|phi|pi)", t)
        before = T.prev(max(k for k in range(i) if T.toks[k] == p)) if p else ""
        if t == "T" and p == "^" or p == "}" and re.search(r"(\\mathrm\{d|\\rm d)\}\s*$", "".join(T.toks[:i])):
            continue
        if p in ("{", "(") and before in ("_", "^") or p == "(" and (before[-1:].isalnum() and before[:1] != "\\" or before in ("}", "'") or before[:1] == "\\" and before not in SIGNS and before not in BINARY):
            continue                                 # \mathrm{T}, braced subscripts; f(x) takes a bare operand
        if re.search(r"\d[Ee]", tex) or atom and "," in t or t in ("d", "E") or p == "d" or p in TWO or p in ONE or p in NAMED or p == "\\sqrt" or t == "e":
            continue
        if atom and p == "^":
            places.append((i, i))
        elif atom and p == "_" and t[0].isdigit() and len(t) == 1 and n != "d" and not sub:
            places.append((i, i))
        elif atom and p not in ("_", "\\right", "\\left", "\\partial", "\\rm") and n not in ("_", "(", "[", "{", "\\left", "\\mleft", "'", "\\lgroup", "\\lbrack", "\\{", "\\lbrace", "!", "\\%", "\\over", "\\choose") and not sub \
                and not re.search(r"\)\s*_|[\^_].*[\^_]", tex) and (p in SIGNS or p in BINARY or p in ("", "(", "[", "{", ",") or t[0].isdigit() is False) and not p[-1:].isdigit() and not n[:1].isdigit() and "'" not in tex and p != "\\operatorname":
            if not (p and (p.isalpha() and len(p) == 1) and t.isalpha() and False):
                places.append((i, i))
    for i, j in T.pairs():
        if T.toks[i] != "(" or T.closed[i] or T.closed[j]:
            continue
        a, b = i, j
        if T.prev(i) in ("\\left", "\\mleft"):
            a = max(k for k in range(i) if T.toks[k] == T.prev(i))
            b = j
        p = T.prev(a)
        if p in FUNCTION and T.next(j) not in ("^", "_", "!", "'"):
            places.append((a, b))
        elif p in SIGNS and T.next(j) not in ("_", "'"):
            places.append((a, b))
    chosen = at(places, picks)
    toks = list(T.toks)
    for i, j in chosen:
        toks[i] = "{" + (" " if False else "") + toks[i]
        toks[j] = toks[j] + "}"
    return join(toks), 2 * len(chosen)


def edit_d(tex, picks):
    """another d in differentials"""
    T = Text(tex)
    if not any(x in tex for x in ("\\int", "\\frac{d", "\\frac{\\mathrm{d", "{\\rm d")):
        return tex, 0
    plain = tex.replace("\\mathrm{d}", "d").replace("{\\rm d}", "d")
    T = Text(plain)
    places = [i for i, t in enumerate(T.toks) if t == "d" and not T.closed[i]]
    chosen = at(places, picks)
    toks = list(T.toks)
    for i in chosen:
        toks[i] = ["\\mathrm{d}", "{\\rm d}", "\\mathrm{d} "][(i + picks[0]) % 3]
    return join(toks), len(chosen)


def edit_t(tex, picks):
    T = Text(tex)
    places = [i for i, t in enumerate(T.toks) if t == "T" and (T.prev(i) in ("^", "{")) and not T.closed[i]]
    chosen = at(places, picks)
    toks = list(T.toks)
    for i in chosen:
        toks[i] = "\\mathrm{T}"
    return join(toks), len(chosen)


EDITS = {"space": edit_space, "wide": edit_wide, "dollar": edit_dollar, "sides": edit_sides, "frac": edit_frac, "brace": edit_brace, "d": edit_d, "T": edit_t}


def show(r):
    return [show(x) for x in r] if isinstance(r, (list, tuple)) else sympy.srepr(r)


def read(tex):
    try:
        return show(latex2sympy(tex))
    except RecursionError:
        raise Discard()
    except Exception as e:
        return e


@patient(60)
def check(case):
    tex = case["tex"]
    want = read(tex)
    if isinstance(want, Exception):
        raise Discard()
    out, total, used = tex, 0, []
    for name, picks in case["edits"]:
        out, n = EDITS[name](out, picks)
        total += n
        if n:
            used.append(name)
    if out == tex:
        raise Discard()
    got = read(out)
    if isinstance(got, Exception):
        raise Violation("%r is read as %s, but its typographic variant %r (%s) is refused: %s" % (tex, want, out, ", ".join(used), str(got)[:150]))
    if got != want:
        raise Violation("%r is read as %s, but its typographic variant %r (%s) as %s" % (tex, want, out, ", ".join(used), got))
    return used


PICKS = st.lists(st.integers(0, 60), min_size=1, max_size=4)


@st.composite
def one(draw):
    t = draw(gen_all.text(2))
    names = ["space", "space", "wide", "dollar", "sides", "sides", "brace", "brace"] + (["frac"] * 2 if "frac" in t["tex"] else []) + (["d"] * 3 if t["kind"] == "calc" else []) + (["T"] * 4 if "T" in t["tex"] else [])
    return dict(t, edits=[[draw(st.sampled_from(names)), draw(PICKS)]])


@st.composite
def many(draw):
    t = draw(gen_all.text(2))
    names = draw(st.lists(st.sampled_from(["brace", "sides", "frac", "d", "T", "space", "wide", "dollar"]), min_size=2, max_size=5, unique=True))
    order = ["brace", "sides", "frac", "d", "T", "wide", "space", "dollar"]
    return dict(t, edits=[[k, draw(PICKS)] for k in order if k in names])


SUBS = [
    Sub("one", check, one, nontrivial=lambda c: len(c["tex"]) > 2, quick=900),
    Sub("many", check, many, nontrivial=lambda c: len(c["tex"]) > 2, quick=500),
]
