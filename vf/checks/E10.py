"""Typed comparison extends the untyped one and never raises."""
from fractions import Fraction
from hypothesis import strategies as st
from vf.repo import *
from vf.pairs import pair
from vf.gen_text import anything
from vf import gen_ans as g, gen_sym
from vf.texout import text

PROPERTY = "E10"
RULE = ("extends: pairs from the generators of all other comparison properties under every label (none, the documented labels, several at "
        "once, unknown ones): accepted untyped => accepted typed; total: arbitrary texts and None under every label: a truth value, never an "
        "exception; vector / set: the same pairwise clearly different numbers in any two of ( ), [ ], { }, \\{ \\}, bare list, \\left\\right, "
        "matrix columns (vector), in order or permuted, or with one changed / dropped / added; function: definitions under different "
        "left sides against equal or clearly different bodies. (Complex labels: see E09.) Non-trivial: two different texts.")
LABELS = ["Complex", "Set", "Vector", "Function", "Real", "Interval(s)", "Matrix", "Expression", "Equation", "Inequality", "Others",
          "Vector, Set", "Function or Expression", "The type is Set.", "set", "", "???", "[", "Complex\n"]
KNOWN = LABELS[:11]


def truth(r):
    if not isinstance(r, bool) and r is not None:
        bool(r)
    return bool(r)


def check_extends(case):
    a, b = case["a"], case["b"]
    plain = equiv(a, b)
    for label in case["labels"]:
        r = truth(equiv_type(a, b, label) if label != "-" else equiv_type(a, b))
        if plain and not r:
            raise Violation("is_equiv_type(%r, %r, %r) = %r but is_equiv is True" % (a, b, label, r))
        if label in ("-", None, "", "???", "Real", "Interval(s)", "Matrix", "Expression", "Equation", "Inequality", "Others", "set") and r and not plain:
            raise Violation("is_equiv_type(%r, %r, %r) = True but is_equiv is False, and the label adds nothing" % (a, b, label))
    return [case["src"], "match" if plain else "no match"]


@st.composite
def extends(draw):
    c = draw(pair())
    c["labels"] = draw(st.lists(st.sampled_from(LABELS + ["-", None]), min_size=2, max_size=3, unique=True))
    return c


def check_total(case):
    a, b = case["a"], case["b"]
    r = truth(equiv_type(a, b, case["label"]))
    if a is None or b is None:
        if r is not (a is None and b is None):
            raise Violation("is_equiv_type(%r, %r, %r) = %r" % (a, b, case["label"], r))
    elif (not a.strip()) != (not b.strip()) and r:
        raise Violation("is_equiv_type(%r, %r, %r) = %r: a blank matches a non-blank answer" % (a, b, case["label"], r))
    elif a == b and not r:
        raise Violation("is_equiv_type(%r, itself, %r) is not True" % (a, case["label"]))
    return [str(case["label"])]


@st.composite
def total(draw):
    a, b = draw(anything()), draw(st.one_of(anything(), st.sampled_from(["", " "])))
    k = draw(st.integers(0, 12))
    if k == 0:
        a = None
    elif k == 1:
        b = None
    elif k == 2:
        b = a
    return {"a": a, "b": b, "label": draw(st.sampled_from(LABELS[:4] * 3 + LABELS + [None]))}


@st.composite
def members(draw):
    n = draw(st.integers(2, 4))
    out = []
    for _ in range(4 * n):
        x = draw(g.exact_small().filter(lambda n: abs(n.val()) < 100))
        if all(g.clear(x, y) for y in out):
            out.append(x)
        if len(out) == n:
            return out
    return None


WRAP = ["(%s)", "[%s]", "\\{%s\\}", "{%s}", "%s", "\\left(%s\\right)", "\\left[%s\\right]", "\\left\\{%s\\right\\}", "( %s )", "$(%s)$"]
ORDERED = ("(", "[", "\\left(", "\\left[", "$(")


def write(draw, ms, wrap):
    return wrap % draw(st.sampled_from([",", ", "])).join(g.spell(draw, m, True, False) for m in ms)


def bad(s):
    import re
    return re.search(r"\d, ?\d{3}", s)


@st.composite
def listlike(draw, label):
    ms = draw(members())
    if not ms:
        return None
    wa, wb = draw(st.sampled_from(WRAP)), draw(st.sampled_from(WRAP))
    how = draw(st.sampled_from(["same", "same", "permuted", "permuted", "change", "drop", "add"]))
    other = list(ms)
    if how == "permuted":
        other = list(draw(st.permutations(ms)))
        if other == ms:
            how = "same"
    elif how == "change":
        i = draw(st.integers(0, len(ms) - 1))
        new = draw(g.mutant(ms[i]))
        if abs(new.val()) >= 100 or not all(g.clear(new, m) for m in ms):
            return None
        other[i] = new
    elif how == "drop":
        other.pop(draw(st.integers(0, len(ms) - 1)))
    elif how == "add":
        new = draw(g.exact_small().filter(lambda n: abs(n.val()) < 100))
        if not all(g.clear(new, m) for m in ms):
            return None
        other.insert(draw(st.integers(0, len(ms))), new)
    want = how == "same" or (how == "permuted" and label == "Set")
    if not want and how == "permuted" and not wa.startswith(ORDERED) and not wb.startswith(ORDERED):
        return None                        # two unordered texts match already without a label
    if how == "drop" and len(other) == 1:
        wb = draw(st.sampled_from(WRAP[1:2] + WRAP[4:5]))
    a, b = write(draw, ms, wa), write(draw, other, wb)
    if label == "Vector" and want and draw(st.integers(0, 5)) == 0:
        env = draw(st.sampled_from(["pmatrix", "bmatrix"]))
        sep = draw(st.sampled_from(["\\\\", " \\\\ ", "&"]))
        b = "\\begin{%s}" % env + sep.join(g._w_simple(draw, abs(m.r)).join(["-" if m.r < 0 else "", ""]) if m.rational else g.spell(draw, m, True, False) for m in ms) + "\\end{%s}" % env
        if not wa.startswith(ORDERED):
            return None
    if bad(a) or bad(b):
        return None
    full = draw(st.sampled_from([label, label, label + "\n", "Type: " + label, label + " of numbers"]))
    return {"a": a, "b": b, "want": want, "label": full, "how": label + " " + how}


@st.composite
def function(draw):
    vs = draw(gen_sym.variables(draw(st.sampled_from([1, 1, 2]))))
    vs = [v for v in vs if v not in ("y", "h", "t")] or ["x"]
    k = draw(st.integers(0, 2))
    if k == 0:
        l, r = draw(gen_sym.identity(vs))
        if not gen_sym.agree(l, r):
            return None
    else:
        l = r = gen_sym.ptree(draw(gen_sym.poly(len(vs), 3, 3, frac=True)), vs)
    how = draw(st.sampled_from(["same", "same", "change"]))
    if how == "change":
        r = draw(gen_sym.mutate(r))
        if not gen_sym.differ_clearly(l, r) or any(v in gen_sym.mtree.syms(r) for v in ("y", "h", "t")):
            return None
    arg = ",".join(vs)
    names = ["f(%s)" % arg, "g(%s)" % arg, "y", "P(%s)" % arg, "f^{-1}(%s)" % arg, "h(%s) " % arg, None] if len(vs) == 1 else ["y", "y ", None]
    na, nb = draw(st.sampled_from(names)), draw(st.sampled_from(names))
    eq = draw(st.sampled_from(["=", " = "]))
    a = (na + eq if na else "") + text(draw, l)
    b = (nb + eq if nb else "") + text(draw, r)
    return {"a": a, "b": b, "want": how == "same", "label": "Function", "how": "Function " + how}


def check_typed(case):
    for x, y in ((case["a"], case["b"]), (case["b"], case["a"])):
        r = truth(equiv_type(x, y, case["label"]))
        if r is not case["want"]:
            raise Violation("is_equiv_type(%r, %r, %r) = %r, expected %r (%s)" % (x, y, case["label"], r, case["want"], case["how"]))
    return [case["how"]]


NT = lambda c: c["a"] is not None and c["b"] is not None and c["a"].strip() != c["b"].strip()
SUBS = [
    Sub("extends", check_extends, extends, nontrivial=NT, quick=240, chunk=15),
    Sub("total", check_total, total, nontrivial=NT, quick=400, chunk=25),
    Sub("vector", check_typed, lambda: listlike("Vector").filter(bool), nontrivial=NT, quick=200, chunk=20),
    Sub("set", check_typed, lambda: listlike("Set").filter(bool), nontrivial=NT, quick=200, chunk=20),
    Sub("function", check_typed, lambda: function().filter(bool), nontrivial=NT, quick=160, chunk=20),
]
