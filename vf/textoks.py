"""Tokens of LaTeX text by the usual TeX rules (independent of the grammar of the code under test)."""
import re

TOKEN = re.compile(r"\\(?:begin|end)\{[a-z]*matrix\}|\\variable\{[^{}]*\}(?:\\%)?|\\char\"[0-9A-F]+|\\[a-zA-Z]+|\\.|\d[\d,]*(?:\.\d+)?|\s+|.", re.S)
OPEN = {"(", "[", "{", "\\{", "\\lbrace", "\\lgroup", "\\lbrack", "\\lfloor", "\\llcorner", "\\lceil", "\\ulcorner", "\\lvert"}
CLOSE = {")", "]", "}", "\\}", "\\rbrace", "\\rgroup", "\\rbrack", "\\rfloor", "\\lrcorner", "\\rceil", "\\urcorner", "\\rvert"}
RELS = {"=", "<", ">", "\\le", "\\leq", "\\leqslant", "\\ge", "\\geq", "\\geqslant", "\\ne", "\\neq", "\\equiv", "\\in"}
SIGNS = {"+", "-"}
BINARY = {"*", "\\cdot", "\\times", "/", "\\div", ":", "\\mod", "\\over", "^", "_"} | RELS
TRIG = ["sin", "cos", "tan", "csc", "sec", "cot", "arcsin", "arccos", "arctan", "arccsc", "arcsec", "arccot", "sinh", "cosh", "tanh", "arsinh", "arcosh", "artanh", "arcsinh",
        "arccosh", "arctanh"]
FUNCS = {"\\" + f for f in TRIG + ["log", "ln", "exp", "floor", "ceil", "det", "gcd", "lcm", "max", "min", "int", "sum", "prod", "lim"]}
TWO = {"\\frac", "\\dfrac", "\\tfrac", "\\binom", "\\tbinom", "\\dbinom"}
ONE = {"\\sqrt", "\\xrightarrow", "\\xRightarrow", "\\mathit", "\\text", "\\hat", "\\bar", "\\overline", "\\vec", "\\tilde", "\\mathrm", "\\mathbf", "\\operatorname"}


def split(tex):
    out = [(m.start(), m.group()) for m in TOKEN.finditer(tex)]
    return [(p, t) for p, t in out if not t.isspace()]


def opens(t):
    return t in OPEN or t.startswith("\\begin{")


def closes(t):
    return t in CLOSE or t.startswith("\\end{")


def depth(toks):
    d = 0
    for t in toks:
        d += opens(t) - closes(t)
    return d


def bars(toks):
    """number of | that are not evaluation bars; None when that is ambiguous"""
    n = 0
    for i, t in enumerate(toks):
        if t in ("|", "\\vert", "\\|"):
            if i + 1 < len(toks) and toks[i + 1] in ("_", "^"):
                return None
            n += 1
    return n


def argument(toks, i):
    """index after the argument that starts at i, None when it is not complete"""
    if i >= len(toks):
        return None
    if toks[i] == "{":
        d = 0
        for j in range(i, len(toks)):
            d += opens(toks[j]) - closes(toks[j])
            if d == 0:
                return j + 1
        return None
    if toks[i] in TWO:
        j = argument(toks, i + 1)
        return None if j is None else argument(toks, j)
    return i + 1


def incomplete(toks):
    """a reason why the text stops too early, or None"""
    if not toks:
        return "empty"
    if depth(toks) > 0:
        return "open group"
    last = toks[-1]
    if last in BINARY | SIGNS | {","}:
        return "operator"
    if last in FUNCS | TWO | ONE | {"\\left", "\\right", "\\mleft", "\\mright", "\\choose"}:
        return "command"
    b = bars(toks)
    if b is not None and b % 2:
        return "open bar"
    for i, t in enumerate(toks):
        j = i + 1
        if t in TWO:
            if t.endswith("frac") and toks[j][0].isdigit() and len(toks[j]) > 1:
                continue
            j = argument(toks, j)
            if j is None or j >= len(toks):
                return "command"
            continue
        if t in FUNCS or t == "\\operatorname":
            if t == "\\operatorname":
                j = argument(toks, j)
                if j is None or j >= len(toks):
                    return "function"
            for _ in range(2):
                if j < len(toks) and toks[j] in ("_", "^"):
                    j = argument(toks, j + 1)
                    if j is None or j >= len(toks):
                        return "function"
            continue
        if t == "\\sqrt" or t.startswith("\\xr") or t.startswith("\\xR"):
            if toks[j] == "[":
                d = 0
                for m in range(j, len(toks)):
                    d += opens(toks[m]) - closes(toks[m])
                    if d == 0:
                        break
                if m + 1 >= len(toks):
                    return "command"
    return None


SAFE = {"alpha", "beta", "gamma", "delta", "epsilon", "theta", "phi", "pi", "infty", "ell", "hbar", "partial", "lambda", "omega"}


def variable_d(tex, old):
    """the text with the one-letter variable old written d, None when that could be read as a differential"""
    toks = split(tex)
    out, last, done = "", 0, False
    for i, (p, t) in enumerate(toks):
        if t != old:
            continue
        nxt = toks[i + 1][1] if i + 1 < len(toks) else ""
        if nxt[:1].isalpha() or nxt.lstrip("\\").lower() in SAFE or nxt[:2] in ("\\v",) and nxt.startswith("\\var") or nxt == "_" or nxt in ("\\mathrm", "\\,", "~", "\\quad", "\\qquad", "\\displaystyle", "$", "{"):
            return None
        out += tex[last:p] + "d"
        last, done = p + 1, True
    return out + tex[last:] if done else None
