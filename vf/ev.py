"""Independent evaluation of sympy trees produced by the parser (exact where possible)."""
from fractions import Fraction
import math
import sympy
from vf.core import Violation


class Inexact(Exception):
    pass


def exact(e):
    """Value of a constant sympy tree as a Fraction, walking the tree node by node.

    Only the node's own meaning is used, so it does not matter whether the
    parser returned an evaluated or an unevaluated tree."""
    if isinstance(e, (int,)):
        return Fraction(e)
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e.is_Float:
        r = sympy.Rational(str(e))
        return Fraction(int(r.p), int(r.q))
    f = e.func
    if f is sympy.Add:
        return sum((exact(a) for a in e.args), Fraction(0))
    if f is sympy.Mul:
        r = Fraction(1)
        for a in e.args:
            r *= exact(a)
        return r
    if f is sympy.Pow:
        b, x = exact(e.args[0]), exact(e.args[1])
        if x.denominator == 1:
            if abs(x) > 400:
                raise Inexact("huge exponent")
            if b == 0 and x < 0:
                raise Violation("division by zero in the parsed tree %s" % sympy.srepr(e)[:300])
            return b ** int(x)
        return _root(b, x)
    if f is sympy.factorial:
        n = exact(e.args[0])
        if n.denominator != 1 or n < 0 or n > 500:
            raise Inexact("factorial of %s" % n)
        return Fraction(math.factorial(int(n)))
    if f is sympy.Abs:
        return abs(exact(e.args[0]))
    if f is sympy.floor:
        return Fraction(math.floor(exact(e.args[0])))
    if f is sympy.ceiling:
        return Fraction(math.ceil(exact(e.args[0])))
    if f is sympy.Mod:
        a, b = exact(e.args[0]), exact(e.args[1])
        return a - b * math.floor(a / b)
    if f is sympy.Max:
        return max(exact(a) for a in e.args)
    if f is sympy.Min:
        return min(exact(a) for a in e.args)
    if f is sympy.binomial:
        n, k = exact(e.args[0]), exact(e.args[1])
        if n.denominator == 1 and k.denominator == 1 and n >= 0 and k >= 0:
            return Fraction(math.comb(int(n), int(k)))
        raise Inexact("binomial")
    if f.__name__ == "UnevaluatedExpr":
        return exact(e.args[0])
    raise Inexact("no exact rule for %s" % f.__name__)


def _root(b, x):
    if b < 0:
        raise Inexact("root of negative")
    q = x.denominator

    def iroot(n):
        r = round(n ** (1.0 / q))
        for c in (r - 1, r, r + 1):
            if c >= 0 and c ** q == n:
                return c
        raise Inexact("irrational root")
    return Fraction(iroot(b.numerator), iroot(b.denominator)) ** x.numerator


def same_fraction(tex, got, want):
    try:
        v = exact(got)
    except Inexact as ex:
        try:
            vv = sympy.nsimplify(got.doit()) if hasattr(got, "doit") else got
            if vv.is_Rational:
                v = Fraction(int(vv.p), int(vv.q))
            else:
                raise Violation("%r parsed to %s, expected the number %s (%s)" % (tex, got, want, ex))
        except Violation:
            raise
        except Exception as e2:
            raise Violation("%r parsed to %r, expected the number %s (%s)" % (tex, got, want, ex))
    except Violation:
        raise
    except Exception as ex:
        raise Violation("%r parsed to %r, expected the number %s (%s: %s)" % (tex, got, want, type(ex).__name__, ex))
    if v != want:
        raise Violation("%r parsed to %s = %s, expected %s" % (tex, sympy.srepr(got)[:300], v, want))


# ---------------------------------------------------------------- numeric walk
import mpmath  # noqa: E402
from mpmath import mp, mpf  # noqa: E402

mp.dps = 30

_FN = {n: getattr(mpmath, n) for n in
       ["sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh",
        "tanh", "coth", "sech", "csch", "asinh", "acosh", "atanh", "exp", "factorial", "gamma", "floor", "sign"]}
_FN["ceiling"] = mpmath.ceil
_FN["Abs"] = abs
_FN["re"] = mpmath.re
_FN["im"] = mpmath.im
_FN["conjugate"] = mpmath.conj
_FN["exp_polar"] = mpmath.exp


def floor_(v):
    """floor of a quotient that is an integer up to rounding is that integer"""
    n = mpmath.nint(v)
    return n if abs(v - n) < mpf(10) ** -18 else mpmath.floor(v)


class NoRule(Exception):
    pass


def num(e, env):
    """Numeric value (mpf/mpc) of a sympy tree; env maps sympy symbols to Fractions/numbers."""
    if isinstance(e, (int,)):
        return mpf(e)
    if e in env:
        v = env[e]
        if isinstance(v, Fraction):
            return mpf(v.numerator) / v.denominator
        return mpmath.mpmathify(v)
    if e.is_Rational:
        return mpf(int(e.p)) / int(e.q)
    if e.is_Float:
        return mpf(str(e))
    if e is sympy.pi:
        return +mp.pi
    if e is sympy.E:
        return +mp.e
    if e is sympy.I:
        return mpmath.mpc(0, 1)
    if e is sympy.oo:
        return mpmath.inf
    if e is -sympy.oo:
        return -mpmath.inf
    if e.is_Symbol:
        raise Violation("unexpected symbol %s" % e)
    f = e.func
    if f is sympy.Add:
        return mpmath.fsum(num(a, env) for a in e.args)
    if f is sympy.Mul:
        return mpmath.fprod(num(a, env) for a in e.args)
    if f is sympy.Pow:
        b, x = num(e.args[0], env), num(e.args[1], env)
        if b == 0 and x == 0:
            return mpf(1)
        return mpmath.power(b, x)
    if f is sympy.exp:
        return mpmath.exp(num(e.args[0], env))
    if f is sympy.log:
        if len(e.args) == 2:
            return mpmath.log(num(e.args[0], env)) / mpmath.log(num(e.args[1], env))
        return mpmath.log(num(e.args[0], env))
    if f is sympy.Max:
        return max(num(a, env) for a in e.args)
    if f is sympy.Min:
        return min(num(a, env) for a in e.args)
    if f is sympy.Mod:
        a, b = num(e.args[0], env), num(e.args[1], env)
        return a - b * floor_(a / b)
    if f is sympy.binomial:
        return mpmath.binomial(num(e.args[0], env), num(e.args[1], env))
    if f.__name__ == "UnevaluatedExpr":
        return num(e.args[0], env)
    if f.__name__ in _FN and len(e.args) == 1:
        return _FN[f.__name__](num(e.args[0], env))
    if f.__name__ in _BINDERS:
        return _BINDERS[f.__name__](e, env)
    r = e.xreplace({k: (sympy.Rational(v.numerator, v.denominator) if isinstance(v, Fraction) else sympy.sympify(v)) for k, v in env.items()})
    r = r.doit()
    if r.is_number:
        v = sympy.N(r, 25)
        return mpf(str(v)) if v.is_Float or v.is_Rational else mpmath.mpmathify(complex(v))
    raise NoRule(f.__name__)


# ---------------------------------------------------------------- calculus operators (surrogates of vf.calc)
from vf import calc  # noqa: E402


def _nested(e, env, one):
    """limits innermost first"""
    def level(i, env):
        if i < 0:
            return num(e.args[0], env)
        lim = e.args[1 + i]
        return one(lim, lambda v: level(i - 1, {**env, lim[0]: v}), env)
    return level(len(e.args) - 2, env)


def _integral(e, env):
    def one(lim, f, env):
        if len(lim) == 1:
            return calc.indefinite(f, num(lim[0], env))
        if len(lim) != 3:
            raise NoRule("integral with %d bounds" % (len(lim) - 1))
        return calc.integral(f, num(lim[1], env), num(lim[2], env))
    return _nested(e, env, one)


def _sum(fun):
    return lambda e, env: _nested(e, env, lambda lim, f, env: fun(f, num(lim[1], env), num(lim[2], env)))


def _derivative(e, env):
    vs = [v for v, n in e.variable_count for _ in range(int(n))]

    def level(vs, env):
        if not vs:
            return num(e.expr, env)
        v = vs[-1]
        if v not in env:
            raise Violation("derivative with respect to %s which is not written" % v)
        return calc.derivative(lambda t: level(vs[:-1], {**env, v: t}), num(v, env))
    return level(vs, env)


def _limit(e, env):
    body, v, p, d = e.args
    return calc.limit(lambda t: num(body, {**env, v: t}), num(p, env), str(d))


def _subs(e, env):
    return num(e.expr, {**env, **{v: num(p, env) for v, p in zip(e.variables, e.point)}})


_BINDERS = {"Integral": _integral, "Sum": _sum(calc.summation), "Product": _sum(calc.product), "Derivative": _derivative,
            "Limit": _limit, "Subs": _subs}


# ---------------------------------------------------------------- Gaussian rationals
class G:
    """Exact complex number with Fraction parts."""
    __slots__ = ("a", "b")

    def __init__(self, a, b=0):
        self.a, self.b = Fraction(a), Fraction(b)

    def __add__(s, o): return G(s.a + o.a, s.b + o.b)
    def __neg__(s): return G(-s.a, -s.b)
    def __mul__(s, o): return G(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    def __eq__(s, o): return s.a == o.a and s.b == o.b
    def __repr__(s): return "%s+%si" % (s.a, s.b)

    def inv(s):
        d = s.a * s.a + s.b * s.b
        if d == 0:
            raise ZeroDivisionError
        return G(s.a / d, -s.b / d)

    def pow(s, n):
        r, b = G(1), (s if n >= 0 else s.inv())
        for _ in range(abs(n)):
            r = r * b
        return r


def exactc(e):
    if e is sympy.I:
        return G(0, 1)
    f = e.func
    if f is sympy.Add:
        r = G(0)
        for a in e.args:
            r = r + exactc(a)
        return r
    if f is sympy.Mul:
        r = G(1)
        for a in e.args:
            r = r * exactc(a)
        return r
    if f is sympy.Pow:
        x = exactc(e.args[1])
        if x.b == 0 and x.a.denominator == 1 and abs(x.a) < 60:
            return exactc(e.args[0]).pow(int(x.a))
    if f is sympy.conjugate:
        v = exactc(e.args[0])
        return G(v.a, -v.b)
    return G(exact(e))
