"""Does a parsed tree have the value of a reference tree (vf.mtree) and only its symbols?"""
import re
from fractions import Fraction
import mpmath
import sympy
from vf.repo import Violation
from vf import mtree, ev

POINTS = ["3/10", "7/10", "17/10", "13/5", "-2/5", "-9/5", "31/10", "1/2"]


def symbol(tex):
    m = re.match(r"^\\?([A-Za-z]+)(?:_\{?([A-Za-z0-9]+)\}?)?$", tex)
    name, subs = m.group(1), m.group(2)
    if name in ("ell", "hbar") and tex[0] == "\\":
        name = "\\" + name
    if subs:
        name += "_" + subs if len(subs) == 1 else "_{%s}" % subs
    return sympy.Symbol(name)


def envs(names, k):
    names = sorted(names)
    for i in range(k):
        yield {n: POINTS[(i + 3 * j) % len(POINTS)] for j, n in enumerate(names)}


def same(tex, r, tree, what="", scalar=True):
    """Violation unless r has the reference value at up to three points; returns the number of points compared."""
    want_syms = {symbol(s) for s in mtree.syms(tree)}
    if scalar and (not isinstance(r, sympy.Expr) or getattr(r, "is_Matrix", False)):
        raise Violation("%r: %s parsed to a %s: %s" % (tex, what, type(r).__name__, r))
    if not r.free_symbols <= want_syms:
        raise Violation("%r: %s parsed with symbols %s, written with %s" % (tex, what, r.free_symbols, want_syms))
    n = 0
    for env in envs(mtree.syms(tree), 8):
        try:
            want = mtree.val(tree, env)
        except mtree.Undefined:
            continue
        if abs(want) > 1e6:
            continue
        n += 1
        try:
            got = ev.num(sympy.sympify(r), {symbol(k): Fraction(v) for k, v in env.items()})
        except Violation:
            raise
        except Exception as e:
            raise Violation("%r: %s parsed to %s which cannot be evaluated at %s: %r" % (tex, what, r, env, e))
        if not mtree.close(got, want, 1e-10):
            raise Violation("%r: %s parsed to %s: value %s at %s, expected %s" % (tex, what, r, got, env, mpmath.nstr(want, 15)))
        if n >= 3 or not env:
            break
    return n
