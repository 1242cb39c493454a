"""Function notation denotes the named function."""
from fractions import Fraction
import mpmath
import sympy
from vf.repo import *
from vf import textoks, mtree, ev
from vf.gen_func import fexpr, call, NAMES, SPELL, VARS
from hypothesis import strategies as st
import re

PROPERTY = "P02"
RULE = ("call: one application of every function name/spelling with every kind of exponent, base and argument form; expr: "
        "expressions of depth 3 built from such calls. The reference is an mpmath evaluation (30 digits) of the generator's own "
        "tree at up to three sample points inside the real domain; the parsed tree is evaluated by an independent walk and must "
        "agree to 1e-10, and may contain only the written symbols. Cases with no point in the domain are discarded. Non-trivial: "
        "call: all; expr: at least two function or structure commands.")

POINTS = ["3/10", "7/10", "17/10", "13/5", "-2/5", "-9/5", "31/10", "1/2"]


def symbol(tex):
    m = re.match(r"^\\?([A-Za-z]+)(?:_\{?(\d+)\}?)?$", tex)
    name, subs = m.group(1), m.group(2)
    if subs:
        name += "_" + subs if len(subs) == 1 else "_{%s}" % subs
    return sympy.Symbol(name)


def envs(names, k):
    names = sorted(names)
    for i in range(k):
        yield {n: POINTS[(i + 3 * j) % len(POINTS)] for j, n in enumerate(names)}


def numeric(e, env):
    return ev.num(sympy.sympify(e), {symbol(n): Fraction(v) for n, v in env.items()})


def check(case):
    tex, tree = case["tex"], case["tree"]
    r = parse(tex)
    n = 0
    want_syms = {symbol(s) for s in mtree.syms(tree)}
    if not isinstance(r, sympy.Expr):
        raise Violation("%r parsed to a %s" % (tex, type(r).__name__))
    if not r.free_symbols <= want_syms:
        raise Violation("%r parsed with symbols %s, written with %s" % (tex, r.free_symbols, want_syms))
    for env in envs(mtree.syms(tree), 8):
        try:
            want = mtree.val(tree, env)
        except mtree.Undefined:
            continue
        if abs(want) > 1e6:
            continue
        n += 1
        try:
            got = numeric(r, env)
        except Violation:
            raise
        except Exception as e:
            raise Violation("%r parsed to %s which cannot be evaluated at %s: %r" % (tex, r, env, e))
        if not mtree.close(got, want, 1e-10):
            raise Violation("%r parsed to %s: value %s at %s, expected %s" % (tex, r, got, env, mpmath.nstr(want, 15)))
        if n >= 3 or not env:
            break
    if n == 0:
        raise Discard()
    return [m for m in re.findall(r"\\(?:operatorname\{)?[a-zA-Z]+", tex)][:6]


def to_case(f):
    return {"tex": f.tex, "tree": f.tree}


@st.composite
def with_d(draw):
    f = draw(fexpr(3))
    old = draw(st.sampled_from(["x", "y", "t"]))
    tex = textoks.variable_d(f.tex, old)
    return None if tex is None else {"tex": tex, "tree": rename(f.tree, old)}


def rename(tree, old):
    if isinstance(tree, list):
        return ["sym", "d"] if tree == ["sym", old] else [rename(t, old) for t in tree]
    return "d" if tree == old else tree


SUBS = [
    Sub("call", check, lambda: call(2).map(to_case), quick=2000),
    Sub("d", check, lambda: with_d().filter(bool), nontrivial=lambda c: "d\\" in c["tex"] or "d \\" in c["tex"], quick=400),
    Sub("expr", check, lambda: fexpr(3).map(to_case), nontrivial=lambda c: len(re.findall(r"\\[a-z]{3}", c["tex"])) >= 2, quick=900),
]
