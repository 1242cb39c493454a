"""JSON expression trees with an mpmath reference evaluator and sympy constructor.

["num","p/q"] ["sym",name] ["+",a,b..] ["-",a,b] ["*",a,b..] ["/",a,b] ["neg",a] ["^",a,b]
["fn",name,a] ["log",a,b] (base b) ["root",a,n] ["abs",a] ["pi"] ["e"] """
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
from vf import calc

mp.dps = 30


class Undefined(Exception):
    pass


def q(s):
    if isinstance(s, mpf):
        return s
    f = Fraction(s)
    return mpf(f.numerator) / f.denominator


_ONE = {
    "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "csc": mpmath.csc, "sec": mpmath.sec, "cot": mpmath.cot,
    "asin": mpmath.asin, "acos": mpmath.acos, "atan": mpmath.atan,
    "acsc": lambda x: mpmath.asin(1 / x), "asec": lambda x: mpmath.acos(1 / x), "acot": lambda x: mpmath.atan(1 / x),
    "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh,
    "asinh": mpmath.asinh, "acosh": mpmath.acosh, "atanh": mpmath.atanh,
    "exp": mpmath.exp, "ln": mpmath.log, "log10": lambda x: mpmath.log(x) / mpmath.log(10),
    "floor": mpmath.floor, "ceil": mpmath.ceil, "sqrt": mpmath.sqrt, "fact": mpmath.factorial,
}


def val(t, env):
    """Real value of the tree at env; Undefined outside the real domain."""
    try:
        v = _val(t, env)
    except (ZeroDivisionError, ValueError, OverflowError) as e:
        raise Undefined(str(e))
    return v


def _chk(v):
    if isinstance(v, mpmath.mpc):
        raise Undefined("complex")
    if v != 0 and abs(v) < mpf(10) ** -18:
        raise Undefined("rounding")
    if not mpmath.isfinite(v) or abs(v) > mpf(10) ** 9:
        raise Undefined("range")
    return v


def _val(t, env):
    k = t[0]
    if k == "num":
        return q(t[1])
    if k == "sym":
        return q(env[t[1]])
    if k == "pi":
        return mp.pi + 0
    if k == "e":
        return mp.e + 0
    if k == "inf":
        return mpmath.inf
    if k in BIND:
        return _chk(_binder(t, env))
    a = [_val(x, env) if isinstance(x, list) else x for x in t[1:]]
    if k == "+":
        r = sum(a[1:], a[0])
    elif k == "-":
        r = a[0] - a[1]
    elif k == "*":
        r = a[0]
        for x in a[1:]:
            r = r * x
    elif k == "/":
        if abs(a[1]) < mpf(10) ** -6:
            raise Undefined("denominator")
        r = a[0] / a[1]
    elif k == "neg":
        r = -a[0]
    elif k == "abs":
        r = abs(a[0])
    elif k == "^":
        if abs(a[1]) > 40:
            raise Undefined("exponent")
        if a[0] == 0 and a[1] <= 0:
            raise Undefined("0^0")
        r = a[0] ** a[1]
    elif k in ("max", "min"):
        r = (max if k == "max" else min)(a)
    elif k == "binom":
        r = mpmath.binomial(*a)
    elif k == "mod":
        q_ = a[0] / a[1]
        n = mpmath.nint(q_)
        r = a[0] - a[1] * (n if abs(q_ - n) < mpf(10) ** -18 else mpmath.floor(q_))
    elif k == "root":
        r = a[0] ** (1 / a[1])
    elif k == "log":
        if a[1] <= 0 or abs(a[1] - 1) < 1e-3 or a[0] <= 0:
            raise Undefined("log")
        r = mpmath.log(a[0]) / mpmath.log(a[1])
    elif k == "fn":
        x = a[1]
        if a[0] in ("floor", "ceil") and abs(x - mpmath.nint(x)) < mpf(10) ** -8:
            # exactly integral is fine, nearly integral is not decidable numerically
            if x != mpmath.nint(x):
                raise Undefined("floor edge")
        if a[0] in ("ln", "log10") and x <= 0:
            raise Undefined("log")
        if a[0] in ("tan", "sec") and abs(mpmath.cos(x)) < 1e-4 or a[0] in ("cot", "csc") and abs(mpmath.sin(x)) < 1e-4:
            raise Undefined("pole")
        r = _ONE[a[0]](x)
    else:
        raise KeyError(k)
    return _chk(r)


BIND = ("diff", "int", "iint", "sum", "prod", "lim", "at")


def _bound(t, env):
    if t == ["neg", ["inf"]]:
        return -mpmath.inf
    return _val(t, env)


def _binder(t, env):
    """["diff",body,v] ["int",body,v] ["iint",body,v,lo,hi] ["sum"|"prod",body,v,lo,hi] ["lim",body,v,p,dir] ["at",body,v,value]"""
    k, body, v = t[:3]
    f = lambda x: _val(body, {**env, v: x})
    if k == "diff":
        return calc.derivative(f, q(env[v]))
    if k == "int":
        return calc.indefinite(f, q(env[v]))
    if k == "at":
        return f(_val(t[3], env))
    if k == "lim":
        return calc.limit(f, _bound(t[3], env), t[4])
    lo, hi = _bound(t[3], env), _bound(t[4], env)
    return {"iint": calc.integral, "sum": calc.summation, "prod": calc.product}[k](f, lo, hi)


def syms(t):
    """symbols whose values matter (bound variables are not among them)"""
    if t[0] == "sym":
        return {t[1]}
    if t[0] in ("diff", "int"):
        return syms(t[1]) | {t[2]}
    if t[0] in BIND:
        s = syms(t[1]) - {t[2]}
        for x in t[3:]:
            if isinstance(x, list):
                s |= syms(x)
        return s
    s = set()
    for x in t[1:]:
        if isinstance(x, list):
            s |= syms(x)
    return s


def close(a, b, rel=1e-12):
    a, b = mpmath.mpmathify(a), mpmath.mpmathify(b)
    return abs(a - b) <= rel * max(1, abs(b))
