"""Matrix LaTeX denotes the matrix it displays."""
from fractions import Fraction
import sympy
import mpmath
from hypothesis import strategies as st
from vf.repo import *
from vf import ev, gen_mat as gm
from vf.gen_mat import X0, matrix, scalar, literal, transforms, nosym

PROPERTY = "P05"
RULE = ("literal: matrices up to 3x3 in every environment, entries numbers, fractions, decimals, small expressions, a symbol; eye, zeros, ones, diag; "
        "one or more elementary row and column operations above and below an arrow in every spelling. matrix: expressions of depth 1-2 over them (sum, difference, "
        "negation, scalar and matrix products in every notation, division by a scalar, powers, inverse, transposes in seven spellings, rref, hstack, vstack). scalar: "
        "det (two forms), trace, rank, norms of such expressions, inside of arithmetic. list: rows, cols, nullspace, eigenvalues, eigenvectors, diagonalisation, "
        "orthogonalisation, singular value decomposition. declared: the same with matrices declared under names (indexed, Greek), evaluated by substituting the declarations. Reference: exact linear algebra in Fractions on the generator's values; decompositions are checked by their "
        "defining equations. Non-trivial: literal, list: all; matrix: at least two operations; scalar, declared: at least one.")
SUBX = {sympy.Symbol(v): sympy.Rational(X0.numerator, X0.denominator) for v in "xd"}


def fr(v):
    return [[str(x) for x in r] for r in v]


def unfr(v):
    return [[Fraction(x) for x in r] for r in v]


def explicit(tex, r):
    try:
        r = r.doit() if hasattr(r, "doit") else r
        if isinstance(r, sympy.MatrixExpr) and not isinstance(r, sympy.MatrixBase):
            r = r.as_explicit()
    except Exception as e:
        raise Violation("%r parsed to %s, which cannot be evaluated: %s: %s" % (tex, r, type(e).__name__, e))
    if not isinstance(r, sympy.MatrixBase):
        raise Violation("%r parsed to a %s, not to a matrix: %s" % (tex, type(r).__name__, r))
    return r


def same_matrix(tex, r, want, what=""):
    r = explicit(tex, r)
    if r.shape != gm.shape(want):
        raise Violation("%r: %s is a %s matrix, expected %s" % (tex, what, r.shape, gm.shape(want)))
    for i, row in enumerate(want):
        for j, w in enumerate(row):
            e = sympy.sympify(r[i, j])
            if not e.free_symbols <= set(SUBX):
                raise Violation("%r: entry (%d,%d) is %s" % (tex, i + 1, j + 1, e))
            ev.same_fraction("%s %s entry (%d,%d)" % (tex, what, i + 1, j + 1), e.xreplace(SUBX), w)


def same_scalar(tex, r, want):
    if isinstance(want, (list, tuple)):
        q = Fraction(want[1])
        try:
            v = ev.num(sympy.sympify(r).doit(), {s: X0 for s in SUBX})
        except Violation:
            raise
        except Exception as e:
            raise Violation("%r parsed to %s, expected the number sqrt(%s): %r" % (tex, r, q, e))
        if abs(v - mpmath.sqrt(mpmath.mpf(q.numerator) / q.denominator)) > 1e-10 * max(1, abs(v)):
            raise Violation("%r parsed to %s, expected sqrt(%s)" % (tex, r, q))
        return
    r = sympy.sympify(r)
    if getattr(r, "is_Matrix", False) or isinstance(r, (list, tuple, dict)):
        raise Violation("%r parsed to a %s: %s" % (tex, type(r).__name__, r))
    ev.same_fraction(tex, r.doit().xreplace(SUBX), Fraction(want))


@st.composite
def mcase(draw, depth):
    m = draw(matrix(draw(st.integers(1, 3)), draw(st.integers(1, 3)), depth))
    return {"tex": m.tex, "val": fr(m.val), "n": m.n}


def check_matrix(case):
    same_matrix(case["tex"], parse(case["tex"]), unfr(case["val"]))
    return [o for o in ("xrightarrow", "xRightarrow", "^{-", "^T", "frac", "rref", "hstack", "vstack", "diag", "eye") if o in case["tex"]]


@st.composite
def scase(draw):
    t, v, n = draw(scalar(draw(st.integers(0, 2))))
    k = draw(st.integers(0, 7))
    if isinstance(v, tuple) or k <= 3:
        return {"tex": t, "val": list(map(str, v)) if isinstance(v, tuple) else str(v), "n": n}
    if k == 4:
        t, v = "2" + t + "+1", 2 * v + 1
    elif k == 5:
        t, v = t + "^2", v * v
    elif k == 6:
        t2, v2, n2 = draw(scalar(0))
        if isinstance(v2, tuple):
            v2, t2 = Fraction(2), "2"
        t, v = t + "-" + t2, v - v2
    else:
        t, v = "\\frac{%s}{3}" % t, v / 3
    return {"tex": t, "val": str(v), "n": n + 1}


def check_scalar(case):
    same_scalar(case["tex"], parse(case["tex"]), case["val"])
    return [o for o in ("det", "vmatrix", "tr", "rank", "norm", "\\|") if o in case["tex"]]


# ------------------------------------------------------------------ operators with several results
LISTS = ["rows", "cols", "nullspace", "eigenvals", "eigenvalues", "eigenvects", "eigenvectors", "eig", "eigen", "diagonalize",
         "orth", "ortho", "orthogonal", "orthogonalize", "svd", "SVD"]
SPECTRAL = ("eigenvals", "eigenvalues", "eigenvects", "eigenvectors", "eig", "eigen", "diagonalize")


@st.composite
def lcase(draw):
    op = draw(st.sampled_from(LISTS))
    n = draw(st.integers(1, 3))
    if op in SPECTRAL:
        # P D P^-1 with small integers
        D = [[Fraction(0)] * n for _ in range(n)]
        for i in range(n):
            D[i][i] = Fraction(draw(st.integers(-3, 3)))
        P = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for _ in range(draw(st.integers(0, 3))):
            if n > 1:
                i = draw(st.integers(0, n - 1))
                j = draw(st.integers(0, n - 1).filter(lambda j: j != i))
                P = gm.apply(P, ("r", "add", i, j, Fraction(draw(st.integers(-2, 2)))))
        A = gm.mul(gm.mul(P, D), gm.inv(P))
        if op in SPECTRAL[:4] and n > 1 and draw(st.integers(0, 3)) == 0:      # not diagonalisable
            A = [[D[0][0] if i == j else Fraction(int(j == i + 1)) for j in range(n)] for i in range(n)]
        t = [[(str(x), x) for x in r] for r in A]
        tex, val = gm.write(draw, t, draw(st.sampled_from(gm.ENVS))), A
    elif op.startswith("orth"):
        c = draw(st.integers(1, n))
        A = [[Fraction(draw(st.integers(-4, 4))) for _ in range(c)] for _ in range(n)]
        if gm.rank(A) < c:
            A = [[Fraction(int(i == j)) + (i > j) for j in range(c)] for i in range(n)]
        val = A
        env = draw(st.sampled_from(gm.ENVS))
        if draw(st.booleans()) and c > 1:
            tex = ",".join(gm.write(draw, [[(str(r[j]), r[j])] for r in A], env) for j in range(c))
        else:
            tex = gm.write(draw, [[(str(x), x) for x in r] for r in A], env)
    elif op in ("svd", "SVD"):
        A = [[Fraction(draw(st.integers(-3, 3))) for _ in range(2)] for _ in range(2)]
        if gm.rank(A) < 2:
            A = [[Fraction(2), Fraction(1)], [Fraction(0), Fraction(3)]]
        tex, val = gm.write(draw, [[(str(x), x) for x in r] for r in A], draw(st.sampled_from(gm.ENVS))), A
    else:
        m = draw(matrix(n, draw(st.integers(1, 3)), draw(st.integers(0, 1)), False))
        if not nosym(m):
            m = draw(literal(n, 2, False, False))
        tex, val = m.tex, m.val
    return {"op": op, "tex": "\\operatorname{%s}(%s)" % (op, tex), "val": fr(val)}


def fmat(tex, m):
    m = explicit(tex, m)
    return [[m[i, j] for j in range(m.cols)] for i in range(m.rows)]


def frac_matrix(tex, m):
    return [[ev.exact(sympy.sympify(x)) for x in r] for r in fmat(tex, m)]


def numeric(tex, m):
    return mpmath.matrix([[mpmath.mpmathify(sympy.N(x, 30)) for x in r] for r in fmat(tex, m)])


def charpoly_mult(A, lam):
    """algebraic and geometric multiplicity of lam"""
    n = len(A)
    B = gm.add(A, gm.scale(-lam, gm.eye(n)))
    return n - gm.rank(gm.power(B, n)), n - gm.rank(B)


def check_list(case):
    tex, op, A = case["tex"], case["op"], unfr(case["val"])
    r = parse(tex)
    r_, c_ = gm.shape(A)

    def need(t):
        if not isinstance(r, t):
            raise Violation("%r gives a %s: %s" % (tex, type(r).__name__, r))
    if op in ("rows", "cols"):
        need(list)
        want = [[list(x)] for x in A] if op == "rows" else [[[x[j]] for x in A] for j in range(c_)]
        if len(r) != len(want):
            raise Violation("%r gives %d members, expected %d" % (tex, len(r), len(want)))
        for i, (g, w) in enumerate(zip(r, want)):
            same_matrix(tex, g, w, "member %d" % (i + 1))
    elif op == "nullspace":
        need(list)
        k = c_ - gm.rank(A)
        if len(r) != k:
            raise Violation("%r gives %d vectors, the nullspace has dimension %d" % (tex, len(r), k))
        vs = [frac_matrix(tex, v) for v in r]
        for v in vs:
            if gm.shape(v) != (c_, 1) or any(x != 0 for q in gm.mul(A, v) for x in q):
                raise Violation("%r: %s is not in the nullspace" % (tex, v))
        if k and gm.rank(gm.tr([sum(gm.tr(v), []) for v in vs])) != k:
            raise Violation("%r: the vectors are dependent" % tex)
    elif op in ("eigenvals", "eigenvalues"):
        need(dict)
        tot = 0
        for lam, m in r.items():
            l = ev.exact(sympy.sympify(lam))
            if charpoly_mult(A, l)[0] != m or m == 0:
                raise Violation("%r: eigenvalue %s with multiplicity %s, expected %s" % (tex, lam, m, charpoly_mult(A, l)[0]))
            tot += m
        if tot != r_:
            raise Violation("%r: multiplicities %s do not sum to %d" % (tex, r, r_))
    elif op in ("eigenvects", "eigenvectors"):
        need(list)
        tot = 0
        for lam, m, vs in r:
            l = ev.exact(sympy.sympify(lam))
            a, g = charpoly_mult(A, l)
            if m != a or a == 0 or len(vs) != g:
                raise Violation("%r: eigenvalue %s: multiplicity %s with %d vectors, expected %d with %d" % (tex, lam, m, len(vs), a, g))
            for v in vs:
                w = frac_matrix(tex, v)
                if gm.mul(A, w) != gm.scale(l, w) or all(x[0] == 0 for x in w):
                    raise Violation("%r: %s is no eigenvector of %s" % (tex, v, lam))
            tot += m
        if tot != r_:
            raise Violation("%r: multiplicities do not sum to %d" % (tex, r_))
    elif op in SPECTRAL:
        need(tuple)
        if len(r) != 2:
            raise Violation("%r gives %d matrices" % (tex, len(r)))
        P, D = frac_matrix(tex, r[0]), frac_matrix(tex, r[1])
        if any(D[i][j] for i in range(r_) for j in range(r_) if i != j) or gm.inv(P) is None or gm.mul(gm.mul(P, D), gm.inv(P)) != A:
            raise Violation("%r gives P=%s, D=%s, which is no diagonalisation" % (tex, P, D))
    elif op.startswith("orth"):
        need(list)
        if len(r) != c_:
            raise Violation("%r gives %d vectors, expected %d" % (tex, len(r), c_))
        Q = [numeric(tex, v) for v in r]
        a = mpmath.matrix([[mpmath.mpf(x.numerator) / x.denominator for x in q] for q in A])
        for i, v in enumerate(Q):
            for j, w in enumerate(Q):
                if abs((v.T * w)[0] - (i == j)) > 1e-15:
                    raise Violation("%r: vectors %d and %d are not orthonormal: %s" % (tex, i + 1, j + 1, r))
            # Gram-Schmidt: column i is a combination of the first i+1 vectors
            s = a[:, i]
            for w in Q[:i + 1]:
                s = s - w * (w.T * a[:, i])[0]
            if max(abs(x) for x in s) > 1e-15:
                raise Violation("%r: column %d is not in the span of the first %d vectors" % (tex, i + 1, i + 1))
    else:
        need(tuple)
        U, S, V = [numeric(tex, x) for x in r]
        a = mpmath.matrix([[mpmath.mpf(x.numerator) / x.denominator for x in q] for q in A])
        E = U * S * V.T - a
        one = mpmath.eye(2)
        if max(abs(x) for x in E) > 1e-12 or max(abs(x) for x in U.T * U - one) > 1e-12 or max(abs(x) for x in V.T * V - one) > 1e-12 or abs(S[0, 1]) + abs(S[1, 0]) > 1e-15 or min(S[0, 0], S[1, 1]) < 0:
            raise Violation("%r gives %s, which is no singular value decomposition" % (tex, r))
    return [op]


# ------------------------------------------------------------------ declared matrix variables
NAMES = {"A": "A", "B": "B", "M": "M", "A_1": "A_1", "X_{12}": "X_{12}", "\\Sigma": "Sigma", "c": "c"}


@st.composite
def declared(draw):
    n = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from(sorted(NAMES)), min_size=1, max_size=3, unique=True))
    vals = {}
    for nm in names:
        c = draw(st.sampled_from([n, n, 1, 2]))
        vals[nm] = [[Fraction(draw(st.integers(-5, 5))) for _ in range(c)] for _ in range(n)]
    gm.NAMED.clear()
    for nm, v in vals.items():
        gm.NAMED.setdefault(gm.shape(v), []).append((nm, v))
    try:
        r, c = draw(st.sampled_from(sorted(gm.NAMED)))
        k = draw(st.integers(0, 3))
        if k == 0:
            t, v, ops = draw(scalar(draw(st.integers(0, 1))))
            v = list(map(str, v)) if isinstance(v, tuple) else str(v)
        else:
            m = draw(matrix(r, c, draw(st.integers(0, 2))))
            t, v, ops = m.tex, fr(m.val), m.n
    finally:
        gm.NAMED.clear()
    return {"tex": t, "val": v, "n": ops, "kind": k, "vars": {nm: fr(v) for nm, v in vals.items()}}


def check_declared(case):
    tex = case["tex"]
    try:
        set_variances({sympy.Symbol(NAMES[k]): sympy.Matrix([[sympy.Rational(x) for x in r] for r in v]) for k, v in case["vars"].items()})
        r = parse(tex)
        try:
            r = r.subs(l2s_mod.variances).doit()
        except Exception as e:
            raise Violation("%r with %s parsed to %s, which cannot be evaluated: %s: %s" % (tex, case["vars"], r, type(e).__name__, e))
        if case["kind"] == 0:
            same_scalar(tex, r, case["val"])
        else:
            same_matrix(tex, r, unfr(case["val"]), "with %s" % case["vars"])
    finally:
        set_variances({})
    return ["scalar" if case["kind"] == 0 else "matrix"]


SUBS = [
    Sub("literal", check_matrix, lambda: mcase(0), quick=500),
    Sub("matrix", check_matrix, lambda: st.integers(1, 2).flatmap(mcase), nontrivial=lambda c: c["n"] >= 2, quick=600),
    Sub("scalar", check_scalar, scase, nontrivial=lambda c: c["n"] >= 1, quick=500),
    Sub("list", check_list, lcase, quick=350),
    Sub("declared", check_declared, declared, nontrivial=lambda c: c["n"] >= 1, quick=400),
]
