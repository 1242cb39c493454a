"""Equations, functions and inequalities compare by meaning."""
from fractions import Fraction
from hypothesis import strategies as st
from vf.repo import *
from vf import gen_sym as g
from vf.texout import text

PROPERTY = "E07"
RULE = ("Relations L op R between polynomials in 1-3 variables (coefficients integers and fractions), op one of =, <, >, <=, >=, != in all "
        "spellings. same: sides swapped (direction mirrored), any terms moved across, all signs changed, rewritten term order and "
        "coefficients, inequalities also as the condition of a set {x | ...}; definitions f(x)=R, y=R, f^{-1}(x)=R against respelled, renamed, swapped or bare R. different: a term of "
        "the difference L-R changed so that it is clearly neither L-R nor R-L, or op changed (strictness, direction, equation, "
        "disequality). Non-trivial: the texts differ.")

OPS = {"=": ["=", " = "], "<": ["<", " < ", "\\lt "], ">": [">", " > ", "\\gt "], "<=": ["\\le ", "\\leq ", " \\leq ", "\\leqslant ", "<="],
       ">=": ["\\ge ", "\\geq ", " \\geq ", "\\geqslant ", ">="], "!=": ["\\ne ", "\\neq ", " \\neq "]}
MIRROR = {"=": "=", "<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(a, b):
    return g.padd(a, neg(b))


def write(draw, L, op, R, vs):
    return text(draw, g.ptree(L, vs)) + draw(st.sampled_from(OPS[op])) + text(draw, g.ptree(R, vs))


def nonconst(p):
    return any(any(m) for m in p)


@st.composite
def relation(draw):
    vs = draw(g.variables())
    L = draw(g.poly(len(vs), 2, 3, frac=True))
    R = draw(g.poly(len(vs), 2, 2, frac=True)) if draw(st.integers(0, 2)) == 0 else {(0,) * len(vs): Fraction(draw(st.integers(-20, 20)))}
    R = {m: c for m, c in R.items() if c}
    if not nonconst(sub(L, R)):
        return None
    return vs, L, R


@st.composite
def rewritten(draw, D, op, vs):
    """a relation with difference D (op) written from scratch"""
    if draw(st.booleans()):
        D, op = neg(D), MIRROR[op]
    terms = sorted(D.items())
    right = [draw(st.booleans()) for _ in terms]
    L = {m: c for (m, c), r in zip(terms, right) if not r}
    R = {m: -c for (m, c), r in zip(terms, right) if r}
    if draw(st.integers(0, 3)) == 0:
        # something added on both sides
        x = draw(g.poly(len(vs), 1, 1))
        L, R = g.padd(L, x), g.padd(R, x)
    return L, op, R


@st.composite
def changed(draw, D, vs):
    D2 = dict(D)
    k = draw(st.integers(0, 3))
    m = draw(st.sampled_from(sorted(D)))
    zero = (0,) * len(vs)
    if k == 0:
        D2[m] = D2[m] + draw(st.sampled_from([1, -1, 2]))
    elif k == 1:
        D2[m] = -D2[m]
    elif k == 2:
        D2[zero] = D2.get(zero, 0) + draw(st.sampled_from([1, -1, 3, 10]))
    else:
        D2.pop(m)
    return {m: c for m, c in D2.items() if c}


def clear(D, D2, vs, both):
    t, u = g.ptree(D, vs), g.ptree(D2, vs)
    return g.differ_clearly(t, u) and (not both or g.differ_clearly(g.ptree(neg(D), vs), u))


@st.composite
def rel_case(draw):
    x = draw(relation())
    if not x:
        return None
    vs, L, R = x
    D = sub(L, R)
    op = draw(st.sampled_from(["=", "=", "=", "<", ">", "<=", ">="]))
    a = write(draw, L, op, R, vs)
    how = draw(st.sampled_from(["same", "same", "change", "op"]))
    D2, op2 = D, op
    if how == "change":
        D2 = draw(changed(D, vs))
        if not nonconst(D2) or not clear(D, D2, vs, op == "="):
            return None
    elif how == "op":
        op2 = draw(st.sampled_from([o for o in OPS if o != op]))
        if op2 == "!=" and op == "=" or op == "=":
            pass
        elif op2 == MIRROR[op] and not clear(D, neg(D), vs, False):
            return None
    L2, op3, R2 = draw(rewritten(D2, op2, vs))
    b = write(draw, L2, op3, R2, vs)
    if op not in ("=", "!=") and op3 not in ("=", "!=") and draw(st.integers(0, 4)) == 0:
        # the set of all x with ... is written for ...
        bar = draw(st.sampled_from(["|", " | ", "\\in \\mathbb{R} | "]))
        a, b = ["\\{%s%s%s\\}" % (vs[0], bar, t) if wrap else t for t, wrap in zip((a, b), draw(st.sampled_from([(True, False), (False, True), (True, True)])))]
    return {"a": a, "b": b, "want": how == "same", "how": op + " " + (how if how != "op" else "to " + op2)}


@st.composite
def ne_case(draw):
    x = draw(relation())
    if not x:
        return None
    vs, L, R = x
    a = write(draw, L, "!=", R, vs)
    how = draw(st.sampled_from(["same", "same", "left", "right", "op"]))
    op = "!="
    L2, R2 = L, R
    if how == "left":
        L2 = draw(changed(L, vs))
        if not clear(L, L2, vs, False) or not clear(R, L2, vs, False):
            return None
    if how == "right":
        R2 = g.padd(R, {(0,) * len(vs): Fraction(draw(st.integers(1, 5)))})
        if not clear(R, R2, vs, False) or not clear(L, R2, vs, False):
            return None
    if how == "op":
        op = draw(st.sampled_from(["=", "<", "<=", ">"]))
    if draw(st.booleans()):
        L2, R2 = R2, L2
    if not nonconst(sub(L2, R2)):
        return None
    b = write(draw, L2, op, R2, vs)
    return {"a": a, "b": b, "want": how == "same", "how": "!= " + how}


@st.composite
def def_case(draw):
    vs = draw(g.variables(draw(st.sampled_from([1, 1, 2]))))
    vs = [v for v in vs if v not in ("y", "h", "t")] or ["x"]
    k = draw(st.integers(0, 3))
    if k == 0:
        l, r = draw(g.identity(vs))
    else:
        p = draw(g.poly(len(vs), 3, 3, frac=True))
        l = r = g.ptree(p, vs)
    arg = ",".join(vs)
    names = ["f(%s)" % arg, "g(%s)" % arg, "h(%s)" % arg, "f^{-1}(%s)" % arg, "y", "f(%s) " % arg, "y "]
    if len(vs) > 1:
        names = ["y", "y "]
    na = draw(st.sampled_from(names))
    nb = draw(st.sampled_from(names + [None, None]))
    how = draw(st.sampled_from(["same", "same", "change"]))
    if how == "same":
        if not g.agree(l, r):
            return None
    else:
        r = draw(g.mutate(r))
        if not g.differ_clearly(l, r) or any(v in g.mtree.syms(r) for v in ("y", "h", "t")):
            return None
    eq = draw(st.sampled_from(["=", " = "]))
    a = na + eq + text(draw, l)
    b = text(draw, r) if nb is None else nb + eq + text(draw, r)
    if nb is not None and na == nb and na.strip() == "y" and how == "same" and l is r and draw(st.booleans()):
        b = text(draw, r) + eq + nb
    return {"a": a, "b": b, "want": how == "same", "how": "definition " + how}


def check_pair(case):
    expect_equiv(case["a"], case["b"], case["want"], case["how"])
    expect_equiv(case["b"], case["a"], case["want"], case["how"])
    return [case["how"]]


NT = lambda c: c["a"] != c["b"]
SUBS = [
    Sub("relations", check_pair, lambda: rel_case().filter(bool), nontrivial=NT, quick=600, chunk=30),
    Sub("disequalities", check_pair, lambda: ne_case().filter(bool), nontrivial=NT, quick=160, chunk=20),
    Sub("definitions", check_pair, lambda: def_case().filter(bool), nontrivial=NT, quick=300, chunk=20),
]
