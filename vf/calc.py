"""Numeric surrogates of the calculus operators, applied alike to reference trees and to parsed objects.

Each surrogate is a functional of (body as a function of the bound variable, bounds): finite sums and products are exact,
integrals are a fixed 12-point Gauss rule between the bounds (from 1/2 to the variable's value if indefinite), derivatives
a central difference, limits the body close to the point on the written side.  They are linear where the operator is, they
depend on the variable, the bounds, their order and the direction, and they are applied to both sides, so two different
trees of the same operator agree and different operators, bounds, variables or bodies disagree at generic points."""
import mpmath
from mpmath import mpf

INF = mpf("17.123")          # stands for an infinite bound
_X, _W = None, None


def _rule():
    global _X, _W
    if _X is None:
        n = 12
        _X, _W = [], []
        for i in range(1, n + 1):
            x = mpmath.cos(mpmath.pi * (i - mpf(1) / 4) / (n + mpf(1) / 2))
            for _ in range(20):
                p0, p1 = mpf(1), x
                for k in range(2, n + 1):
                    p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
                dp = n * (x * p1 - p0) / (x * x - 1)
                dx = p1 / dp
                x -= dx
                if abs(dx) < mpf(10) ** -28:
                    break
            _X.append(x)
            _W.append(2 / ((1 - x * x) * dp * dp))
    return _X, _W


def fin(v):
    if isinstance(v, mpmath.mpc):
        v = v.real
    if mpmath.isinf(v):
        return INF if v > 0 else -INF
    return v


def integral(f, lo, hi):
    lo, hi = fin(lo), fin(hi)
    X, W = _rule()
    h, m = (hi - lo) / 2, (hi + lo) / 2
    return h * mpmath.fsum(w * f(m + h * x) for x, w in zip(X, W))


def indefinite(f, x):
    return integral(f, mpf(1) / 2, x)


def steps(lo, hi):
    if mpmath.isinf(hi):
        hi = lo + 6
    if hi - lo > 40:
        raise ValueError("long range")
    k = lo
    while k <= hi + mpf(10) ** -12:
        yield k
        k = k + 1


def summation(f, lo, hi):
    return mpmath.fsum(f(k) for k in steps(fin(lo), hi))


def product(f, lo, hi):
    return mpmath.fprod(f(k) for k in steps(fin(lo), hi))


def derivative(f, x):
    h = mpf(10) ** -6
    return (f(x + h) - f(x - h)) / (2 * h)


def limit(f, p, direction):
    if mpmath.isinf(p):
        return f(mpf(1000) if p > 0 else mpf(-1000))
    h = mpf(1) / 128
    return f(p + h) if direction == "+" else f(p - h)
