"""Relations and lists keep operator, order and members."""
import re
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf.same import same
from vf.gen_func import fexpr
from vf import mtree

PROPERTY = "P04"
RULE = ("relation: two generated expressions (functions, fractions, powers, groups, numbers, symbols; also the same expression twice, and constants) "
        "around every spelling of the relation operators: the parse is an unevaluated relation of that class, left and right sides with "
        "the values of the generator's trees at up to three points. list: 2-6 members, expressions or relations, comma or semicolon "
        "separated, bare or in each delimiter the grammar has: a Python list with exactly these members in order. Also lists of look-alike "
        "members (equal, permuted, nested groups). Non-trivial: relation: the two sides differ; list: at least two different members.")

OPS = {"=": sympy.Eq, " = ": sympy.Eq, "==": sympy.Eq, "\\equiv ": sympy.Eq, "<": sympy.StrictLessThan, " < ": sympy.StrictLessThan, ">": sympy.StrictGreaterThan,
       "\\le ": sympy.LessThan, "\\leq ": sympy.LessThan, "\\leqslant ": sympy.LessThan, "\\ge ": sympy.GreaterThan, "\\geq ": sympy.GreaterThan, "\\geqslant ": sympy.GreaterThan,
       "\\ne ": sympy.Ne, "\\neq ": sympy.Ne, "!=": sympy.Ne, "!==": sympy.Ne, "\\not\\equiv ": sympy.Ne}
OPNAMES = sorted(OPS)
DELIMS = [("", ""), ("", ""), ("[", "]"), ("{", "}"), ("\\{", "\\}"), ("\\left[", "\\right]"), ("\\left\\{", "\\right\\}"), ("\\mleft[", "\\mright]"), ("\\mleft\\{", "\\mright\\}")]


def plain(draw):
    """short members: numbers, symbols, signed and powers of them"""
    k = draw(st.integers(0, 5))
    n = draw(st.integers(0, 99))
    v = draw(st.sampled_from(["x", "y", "a_1", "\\theta", "n", "A", "t"]))
    if k == 0:
        return str(n), ["num", str(n)]
    if k == 1:
        return "-" + str(n), ["num", str(-n)]
    if k == 2:
        return v, ["sym", v]
    if k == 3:
        return "-" + v, ["neg", ["sym", v]]
    if k == 4:
        return "%d%s" % (n, v), ["*", ["num", str(n)], ["sym", v]]
    return v + "^2", ["^", ["sym", v], ["num", "2"]]


@st.composite
def side(draw):
    if draw(st.integers(0, 2)) == 0:
        t, tree = plain(draw)
    else:
        f = draw(fexpr(draw(st.sampled_from([1, 2]))))
        t, tree = f.tex, f.tree
    if draw(st.integers(0, 11)) == 0 and not t.endswith(("!", "}")) and re.fullmatch(r"\d|n", t):
        return t + "!", tree, True
    return t, tree, False


@st.composite
def relation(draw):
    l = draw(side())
    r = draw(side()) if draw(st.integers(0, 5)) else l
    op = draw(st.sampled_from(OPNAMES))
    lt = l[0]
    if op.startswith("!") and lt.endswith("!") or op.startswith("=") and lt.endswith("!"):
        op = " " + op
    return {"k": "r", "tex": lt + op + r[0], "op": op, "l": l[1], "lf": l[2], "r": r[1], "rf": r[2]}


def operator(op):
    return OPS.get(op) or OPS[op.strip()] if op.strip() in OPS else OPS[op]


def part(tex, got, tree, fact, what):
    if fact:
        if not isinstance(got, sympy.factorial):
            raise Violation("%r: %s is %s, expected a factorial" % (tex, what, got))
        got = got.args[0]
    if getattr(got, "is_Boolean", False) or isinstance(got, (bool, list)):
        raise Violation("%r: %s is evaluated to %r" % (tex, what, got))
    return same(tex, got, tree, what)


def member(tex, got, m, what):
    if m["k"] == "e":
        return part(tex, got, m["l"], m["lf"], what)
    if isinstance(got, bool) or not isinstance(got, sympy.core.relational.Relational):
        raise Violation("%r: %s is %r (%s), expected a relation" % (tex, what, got, type(got).__name__))
    want = operator(m["op"])
    if type(got) is not want:
        raise Violation("%r: %s is a %s, expected %s" % (tex, what, type(got).__name__, want.__name__))
    return part(tex, got.args[0], m["l"], m["lf"], what + " left side") + part(tex, got.args[1], m["r"], m["rf"], what + " right side")


def check_relation(case):
    n = member(case["tex"], parse(case["tex"]), case, "the relation")
    if not n:
        raise Discard()
    return [operator(case["op"]).__name__]


@st.composite
def expression(draw):
    t, tree, f = draw(side())
    return {"k": "e", "tex": t, "l": tree, "lf": f}


@st.composite
def lists(draw):
    kind = draw(st.integers(0, 3))
    ms = draw(st.lists(relation() if kind == 0 else expression() if kind < 3 else st.one_of(relation(), expression()), min_size=2, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        ms = ms + [draw(st.sampled_from(ms)) for _ in range(draw(st.integers(1, 2)))]
    sep = draw(st.sampled_from([",", ", ", ",", ";", "; ", " , ", ",\\,", ",~", ",\\quad "]))
    o, c = draw(st.sampled_from(DELIMS))
    tex = o + sep.join(m["tex"] for m in ms) + c
    if re.search(r"\d[\s~]*(\\,|\\quad)?,[\s~]*(\\,|\\quad)?\s*\d\d\d", tex):
        return None
    return {"tex": tex, "ms": ms, "delims": o + c}


def check_list(case):
    got = parse(case["tex"])
    if not isinstance(got, (list, tuple)):
        raise Violation("%r parsed to a %s: %s" % (case["tex"], type(got).__name__, got))
    if len(got) != len(case["ms"]):
        raise Violation("%r parsed to %d members %s, written with %d" % (case["tex"], len(got), got, len(case["ms"])))
    n = sum(member(case["tex"], g, m, "member %d" % (i + 1)) for i, (g, m) in enumerate(zip(got, case["ms"])))
    if not n:
        raise Discard()
    return [case["delims"] or "bare", "%d members" % len(got)]


SUBS = [
    Sub("relation", check_relation, relation, nontrivial=lambda c: c["l"] != c["r"], quick=1200),
    Sub("list", check_list, lambda: lists().filter(bool), nontrivial=lambda c: len({m["tex"] for m in c["ms"]}) > 1, quick=900),
]
