"""Conventional LaTeX for mtree expression trees, with drawn style choices."""
from fractions import Fraction
from hypothesis import strategies as st


class T:
    __slots__ = ("s", "lvl", "open", "sumlike")

    def __init__(self, s, lvl, open=False, sumlike=False):
        # lvl 0 sum or sign, 1 explicit product / slash, 2 juxtaposition, 3 power, 4 atom
        self.s, self.lvl, self.open, self.sumlike = s, lvl, open, sumlike


FRAC = ["\\frac", "\\frac", "\\dfrac", "\\tfrac"]
PAR = [("(", ")"), ("(", ")"), ("\\left(", "\\right)")]
FN = {"sin": "\\sin", "cos": "\\cos", "tan": "\\tan", "cot": "\\cot", "sec": "\\sec", "csc": "\\csc", "ln": "\\ln",
      "exp": "\\exp", "asin": "\\arcsin", "acos": "\\arccos", "atan": "\\arctan", "sinh": "\\sinh", "cosh": "\\cosh",
      "tanh": "\\tanh"}


def par(draw, x):
    o, c = draw(st.sampled_from(PAR))
    return T(o + x.s + c, 4)


def isnum(t, v=None):
    return t[0] == "num" and (v is None or Fraction(t[1]) == v)


def negate_of(t):
    """(sign, positive part)"""
    if t[0] == "neg":
        s, u = negate_of(t[1])
        return not s, u
    if t[0] == "num" and Fraction(t[1]) < 0:
        return True, ["num", str(-Fraction(t[1]))]
    if t[0] == "*" and isnum(t[1]) and Fraction(t[1][1]) < 0:
        return True, ["*", ["num", str(-Fraction(t[1][1]))]] + t[2:]
    return False, t


def flat(t, op):
    if t[0] == op:
        r = []
        for x in t[1:]:
            r += flat(x, op)
        return r
    if op == "+" and t[0] == "-":
        return flat(t[1], "+") + [["neg", x] for x in flat(t[2], "+")]
    return [t]


def render(draw, t, shuffle=True):
    k = t[0]
    if k == "num":
        q = Fraction(t[1])
        if q < 0:
            return T("-" + render(draw, ["num", str(-q)]).s, 0)
        if q.denominator == 1:
            return T(str(q.numerator), 4)
        if q.denominator in (2, 4, 5, 10) and draw(st.integers(0, 3)) == 0:
            s = "%.4f" % float(q)
            return T(s.rstrip("0"), 4)
        return T("%s{%d}{%d}" % (draw(st.sampled_from(FRAC)), q.numerator, q.denominator), 3)
    if k == "sym":
        return T(t[1], 4)
    if k == "pi":
        return T("\\pi", 4)
    if k == "e":
        return T("e", 4)
    if k == "neg":
        x = render(draw, t[1], shuffle)
        if x.lvl == 0:
            x = par(draw, x)
        return T("-" + x.s, 0, x.open)
    if k in "+-" and k:
        terms = flat(t, "+")
        if shuffle:
            terms = draw(st.permutations(terms))
        s = ""
        last = None
        for i, u in enumerate(terms):
            n, v = negate_of(u)
            x = render(draw, v, shuffle)
            if x.lvl == 0:
                x = par(draw, x)
            s += ("-" if n else ("+" if i else "")) + x.s
            last = x
        if draw(st.integers(0, 3)) == 0:
            s = s[0] + s[1:].replace("+", " + ") if "{" not in s else s
        return T(s, 0, last.open, True)
    if k == "*":
        fs = flat(t, "*")
        neg = False
        nums, rest = [], []
        for f in fs:
            n, v = negate_of(f)
            neg ^= n
            (nums if v[0] == "num" else rest).append(v)
        if not rest:
            parts = [render(draw, x) for x in nums]
            s = "\\cdot ".join(p.s for p in parts)
            return T(("-" if neg else "") + s, 0 if neg else 1)
        if shuffle and len(rest) > 1:
            rest = draw(st.permutations(rest))
        nums = [x for x in nums if not isnum(x, 1)]
        # functions last, so that an argument without parentheses swallows nothing
        rest = [x for x in rest if x[0] not in ("fn", "log")] + [x for x in rest if x[0] in ("fn", "log")]
        parts = []
        for i, x in enumerate(nums + rest):
            r = render(draw, x, shuffle)
            if r.lvl < 3 or (r.open and i < len(nums + rest) - 1):
                r2 = par(draw, r)
                r2.sumlike = r.sumlike
                r = r2
            parts.append(r)
        s = parts[0].s
        lvl = 2
        for a, b in zip(parts, parts[1:]):
            need = b.s[0].isdigit() or b.s.startswith((".", "\\frac", "\\dfrac", "\\tfrac")) or (b.s[0] in "(" or b.s.startswith("\\left(")) and not b.sumlike
            if a.s[-1].isalpha() and not a.s.startswith("\\") and (b.s[0] == "(" or b.s.startswith("\\left(")):
                need = need or draw(st.booleans())
            if need or draw(st.integers(0, 4)) == 0:
                s += draw(st.sampled_from(["\\cdot ", "\\times ", "*", " \\cdot "])) + b.s
                lvl = 1
            else:
                sp = "" if not (s[-1].isalpha() and b.s[0].isalpha() and "\\" in s[-8:]) else " "
                s += (sp or draw(st.sampled_from(["", "", " "]))) + b.s
        return T(("-" if neg else "") + s, 0 if neg else lvl, parts[-1].open)
    if k == "/":
        a, b = render(draw, t[1], shuffle), render(draw, t[2], shuffle)
        if draw(st.integers(0, 3)) == 0:
            if a.lvl < 2 or a.open:
                a = par(draw, a)
            if b.lvl < 2 or b.open or b.lvl == 2:
                b = par(draw, b)
            return T(a.s + "/" + b.s, 1)
        return T("%s{%s}{%s}" % (draw(st.sampled_from(FRAC)), a.s, b.s), 3)
    if k == "^":
        e = t[2]
        if isnum(e, Fraction(1, 2)) and draw(st.integers(0, 3)) > 0:
            return T("\\sqrt{%s}" % render(draw, t[1], shuffle).s, 4)
        if isnum(e, Fraction(1, 3)) and draw(st.booleans()):
            return T("\\sqrt[3]{%s}" % render(draw, t[1], shuffle).s, 4)
        if isnum(e, -1) and draw(st.booleans()):
            return T("%s{1}{%s}" % (draw(st.sampled_from(FRAC)), render(draw, t[1], shuffle).s), 3)
        es = render(draw, e, shuffle).s
        if t[1][0] == "fn" and t[1][1] in ("sin", "cos", "tan", "cot", "sec", "csc") and isnum(e) and Fraction(e[1]) > 1 and draw(st.booleans()):
            arg = render(draw, t[1][2], shuffle)
            return T("%s^{%s}(%s)" % (FN[t[1][1]], es, arg.s), 4)
        b = render(draw, t[1], shuffle)
        if b.lvl < 4 or b.open or t[1][0] in ("fn", "log", "abs"):
            b = par(draw, b)
        if len(es) == 1 and draw(st.booleans()):
            return T(b.s + "^" + es, 3)
        return T(b.s + "^{" + es + "}", 3)
    if k == "root":
        return T("\\sqrt[%s]{%s}" % (Fraction(t[2][1]), render(draw, t[1], shuffle).s), 4)
    if k == "abs":
        return T("|%s|" % render(draw, t[1], shuffle).s, 4)
    if k == "log":
        return T("\\log_{%s}(%s)" % (render(draw, t[2], shuffle).s, render(draw, t[1], shuffle).s), 4)
    if k == "fn":
        a = render(draw, t[2], shuffle)
        if t[1] == "exp" and draw(st.integers(0, 2)) > 0:
            return T("e^{%s}" % a.s, 3)
        if t[1] == "sqrt":
            return T("\\sqrt{%s}" % a.s, 4)
        f = FN[t[1]]
        if a.lvl == 4 and t[2][0] in ("sym", "num", "pi") and draw(st.booleans()):
            return T(f + (" " if a.s[0].isalnum() else "") + a.s, 4, open=True)
        o, c = draw(st.sampled_from(PAR))
        return T(f + o + a.s + c, 4)
    raise KeyError(k)


def text(draw, t, shuffle=True):
    return render(draw, t, shuffle).s
