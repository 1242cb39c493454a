"""Parsing is a function of the input and the declared variables."""
import json
import os
import pickle
import re
import signal
import subprocess
import sys
import sympy
from hypothesis import strategies as st
from vf.repo import *
from vf.gen_func import fexpr
from vf import gen_all, gen_calc, gen_mat, worker

PROPERTY = "P08"
RULE = ("history: 3-9 calls, each one of: parse of a generated text (elementary functions, calculus, matrices, placeholders with and without values, declared "
        "names, derivatives without argument and other malformed or truncated text), latex2latex, printing, an equivalence or typed equivalence check, set_real, "
        "set_variances with matrices and numbers (or nothing), a declaration by \\\\in. The history runs in a forked child of a process that never called the code; "
        "the result (the tree as text, or the class of the exception) of each call is compared with the same call made alone in a fresh fork under the settings in force "
        "(the set_real and set_variances calls and the declarations since the last set_variances). Arguments must be unchanged afterwards. Results of latex2latex are "
        "compared up to the fraction style, which the property lets depend on the last input. Non-trivial: at least one call was preceded by a failing parse, a "
        "declaration, a substitution or a setting that has been undone. hashseed: 36 texts (the generators of all parsing properties, evaluation bars, substitutions and functions of several symbols, malformed text) "
        "are parsed by two new interpreters with different PYTHONHASHSEED and must give the same trees or exceptions. Non-trivial: six texts with two or more symbols.")

NAMES = ["A", "B", "x", "y", "n", "M"]


def forked(fn):
    """fn() in a fork of this process; returns its pickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return None
    return pickle.loads(data)


def show(r):
    if isinstance(r, (list, tuple)):
        return [type(r).__name__] + [show(x) for x in r]
    if isinstance(r, dict):
        return ["dict"] + sorted([show(k), show(v)] for k, v in r.items())
    if isinstance(r, (bool, str, int)) or r is None:
        return repr(r)
    return sympy.srepr(r)


def value(v):
    return sympy.Matrix([[sympy.Rational(x) for x in r] for r in v]) if isinstance(v, list) else sympy.Rational(v)


def style(s):
    return s.replace("\\dfrac", "\\frac").replace("\\tfrac", "\\frac") if isinstance(s, str) else s


def run(op):
    """one call; (result as text, problem)"""
    k = op["op"]
    try:
        if k == "parse":
            if op["values"] is None:
                return show(latex2sympy(op["tex"])), None
            vals = {n: value(v) if isinstance(v, list) else sympy.Rational(v) if v[-1] != "s" else v[:-1] for n, v in op["values"].items()}
            keep = dict(vals)
            r = latex2sympy(op["tex"], vals)
            return show(r), None if vals == keep and list(vals) == list(keep) else "the values passed in became %s" % vals
        if k == "l2l":
            return style(latex2latex(op["tex"])), None
        if k == "print":
            return style(latex(sympy.sympify(op["expr"]))), None
        if k == "equiv":
            return repr(is_equiv(op["a"], op["b"])), None
        if k == "type":
            return repr(is_equiv_type(op["a"], op["b"], op["type"])), None
        if k == "real":
            set_real(op["value"])
            return "set", None
        if k == "vars":
            set_variances({sympy.Symbol(n, real=op["real"]): value(v) for n, v in op["vars"].items()})
            return "set", None
        raise AssertionError(k)
    except AssertionError:
        raise
    except Exception as e:
        return "raises %s" % type(e).__name__, None


def is_decl(op):
    return op["op"] == "parse" and "\\in " in op["tex"]


def settings(ops):
    """the calls that make up the settings in force"""
    out = []
    for o in ops:
        if o["op"] == "real":
            out = [x for x in out if x["op"] != "real" or any(is_decl(y) for y in out)] + [o]
        elif o["op"] == "vars":
            out = [x for x in out if x["op"] == "real"] + [o]
        elif is_decl(o):
            out = out + [o]
    reals = [x for x in out if x["op"] == "real"]
    if reals and not any(is_decl(x) or x["op"] == "vars" for x in out):
        out = reals[-1:]
    return out


_cache = {}
_warm = []


def warm():
    """fill the parser tables without calling the code under test, forks inherit them"""
    if _warm:
        return
    _warm.append(1)
    try:
        from antlr4 import InputStream, CommonTokenStream
        from latex2sympy.latex2sympy2 import PSLexer, PSParser
        for t in ["x^2+1", "\\frac{1}{2}x-\\sin(x)", "\\int_0^1 x dx", "\\frac{d}{dx}x^2", "\\begin{matrix}1&2\\\\3&4\\end{matrix}^T", "\\sum_{k=1}^n k", "[1,2]", "x=1",
                  "\\lim_{x\\to 0}\\frac{1}{x}", "\\variable{a}+1", "e^{x}\\cdot\\ln x", "|x|+\\sqrt{2}", "(x+1)(y-2)", "\\log_2 8"]:
            p = PSParser(CommonTokenStream(PSLexer(InputStream(t))))
            p.removeErrorListeners()
            p.math()
    except Exception:
        pass


def baseline(ops, op):
    s = settings(ops)
    key = json.dumps([s, op], sort_keys=True)
    if key not in _cache:
        if len(_cache) > 3000:
            _cache.clear()

        def alone():
            for o in s:
                run(o)
            return run(op)[0]
        _cache[key] = forked(alone)
    return _cache[key]


def check(case):
    warm()
    ops = case["ops"]

    def all_of_them():
        out, dicts = [], []
        for o in ops:
            if o["op"] == "vars":
                d = {sympy.Symbol(n, real=o["real"]): value(v) for n, v in o["vars"].items()}
                dicts.append((d, dict(d)))
                try:
                    set_variances(d)
                    out.append(("set", None))
                except Exception as e:
                    out.append(("raises %s" % type(e).__name__, None))
            else:
                out.append(run(o))
        bad = [str(d) for d, k in dicts if d != k]
        return out, bad
    got = forked(all_of_them)
    if got is None:
        raise Violation("the process died in %s" % ops)
    out, bad = got
    if bad:
        raise Violation("set_variances: a dictionary passed in became %s" % bad[0])
    for i, (o, (r, problem)) in enumerate(zip(ops, out)):
        if problem:
            raise Violation("call %d %s: %s" % (i + 1, o, problem))
        if o["op"] in ("real", "vars"):
            if r != "set":
                raise Violation("call %d %s %s" % (i + 1, o, r))
            continue
        want = baseline(ops[:i], o)
        if r != want:
            raise Violation("call %d %s gives %s after %s, alone it gives %s" % (i + 1, o, r, ops[:i], want))
    return ["raises" if str(r).startswith("raises") else "ok" for r, _ in out]


# ------------------------------------------------------------------ generator
BAD = ["\\frac{d}{dx}", "\\frac{\\partial}{\\partial x}", "x+", "\\frac{1}{", "(x", "x=", "\\sin", "\\int", "\\begin{matrix}1&2\\\\3\\end{matrix}", "\\operatorname{rank}(x)",
       "\\begin{matrix}1&2\\\\3&4\\end{matrix}\\begin{matrix}1&2&3\\end{matrix}", "\\frac{d}{dx}\\frac{1}{", "\\variable{a", "\\unknown", "#", "\\sum_{k=1}^3", "\\frac{d (x}{dx}", "", "2\\frac{d}{dx}",
       "\\operatorname{rows}(\\begin{matrix}1&2\\\\3&4\\end{matrix})x", "\\mathrm{d}", "\\xrightarrow{r_1}", "\\begin{matrix}1\\end{matrix}\\xrightarrow{q_1}", "x \\in y"]
FIXED = ["x", "A", "A B", "A+B", "x+y", "xy", "A^2", "A^T", "\\det(A)", "n x", "M-A", "\\operatorname{trace}(A)", "x_1+A_1", "\\operatorname{rows}(\\begin{matrix}1&2\\\\3&4\\end{matrix})",
         "\\frac{d}{dx}x^2", "\\frac{d x^2}{dx}", "\\frac{\\partial x y}{\\partial y}", "\\frac{1}{2}", "\\dfrac{x}{3}", "\\tfrac12", "\\begin{vmatrix}n&1\\\\2&x\\end{vmatrix}", "\\sqrt{x^2}", "|x|", "\\int x dx",
         "\\frac{y}{x}", "\\frac{d}{x}", "\\frac{dy}{dx}", "\\variable{a}", "\\variable{a}+\\variable{b}", "\\variable{a}\\%", "\\variable{x}x", "(5)_{2}", "\\lim_{x\\to 0}\\frac{1}{x}", "\\sum_{n=1}^{3}n"]


@st.composite
def text(draw):
    k = draw(st.integers(0, 9))
    if k <= 3:
        return draw(st.sampled_from(FIXED))
    if k == 4:
        return draw(st.sampled_from(BAD))
    if k == 5:
        return draw(fexpr(2)).tex
    if k == 6:
        return draw(gen_calc.calc(0)).tex
    if k == 7:
        return draw(gen_mat.matrix(draw(st.integers(1, 2)), draw(st.integers(1, 2)), 1)).tex
    if k == 8:
        t = draw(st.one_of(st.sampled_from(FIXED), fexpr(2).map(lambda f: f.tex), gen_calc.calc(0).map(lambda f: f.tex)))
        return t[:draw(st.integers(0, len(t)))]
    t = draw(st.sampled_from(["\\variable{%s}", "\\variable{%s}^2+1", "\\frac{\\variable{%s}}{2}x", "\\frac{d}{dx}\\variable{%s}x", "\\frac{d \\variable{%s}x}{dx}", "\\max(\\variable{%s},1)", "\\variable{%s}\\%%", "f(\\variable{%s},x)"]))
    return t % draw(st.sampled_from(["a", "b", "x", "long name"]))


@st.composite
def values(draw):
    if draw(st.booleans()):
        return None
    return {n: draw(st.sampled_from(["0", "1", "-2", "1/2", "3s", "x+1s", [["1", "2"], ["3", "4"]]])) for n in draw(st.lists(st.sampled_from(["a", "b", "x", "long name"]), max_size=3, unique=True))}


PRINTS = ["x/2", "Matrix([[1,2],[3,4]])", "log(x)", "sqrt(2)", "x**2+1", "1/3", "[1,x/2]"]
PAIRS = [("1/2", "0.5"), ("x", "x"), ("x+1", "1+x"), ("\\frac{1}{3}", "\\dfrac13"), ("A", "B"), ("x=1", "1"), ("(1,2)", "[1,2]"), ("\\{1,2\\}", "2,1"), ("\\begin{pmatrix}1\\\\2\\end{pmatrix}", "(1,2)"),
         ("x \\in [0,1]", "[0,1]"), ("\\sqrt{x^2}", "|x|"), ("i", "I"), ("e^{i}", "e^i"), ("2y=x", "x=2y"), ("x<1", "1>x"), ("\\frac{d}{dx}", "d"), ("[1", "[1"), ("", "x")]


@st.composite
def operation(draw):
    k = draw(st.integers(0, 15))
    if k <= 7:
        return {"op": "parse", "tex": draw(text()), "values": draw(values())}
    if k == 8:
        return {"op": "l2l", "tex": draw(st.sampled_from([t for t in FIXED if "lim" not in t] + BAD))}
    if k == 9:
        return {"op": "print", "expr": draw(st.sampled_from(PRINTS))}
    if k == 10:
        a, b = draw(st.sampled_from(PAIRS))
        return {"op": "equiv", "a": a, "b": b}
    if k == 11:
        a, b = draw(st.sampled_from(PAIRS))
        return {"op": "type", "a": a, "b": b, "type": draw(st.sampled_from(["Real", "Expression", "Set", "Matrix", "Equation", "Interval(s)"]))}
    if k == 12:
        return {"op": "real", "value": draw(st.sampled_from([None, True, None, False]))}
    if k <= 14:
        vs = {n: draw(st.sampled_from([[["1", "2"], ["3", "4"]], [["0", "1"], ["1", "0"]], [["1", "2", "3"]], [["5"]], "3", "1/2"])) for n in draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True))}
        return {"op": "vars", "vars": vs, "real": draw(st.sampled_from([None, None, True]))}
    x = draw(st.sampled_from(["x", "A", "y"]))
    return {"op": "parse", "tex": "%s \\in \\mathbb{R}^{%s}" % (x, draw(st.sampled_from(["n\\times m", "n \\times n", "2\\times 3", "n"]))), "values": None}


def history():
    return st.lists(operation(), min_size=3, max_size=9).map(lambda ops: {"ops": ops})


def nontrivial(case):
    seen = False
    for o in case["ops"]:
        if seen and o["op"] not in ("real", "vars"):
            return True
        seen = seen or is_decl(o) or o["op"] == "parse" and (o["values"] or o["tex"] in BAD) or o["op"] == "vars"
    return False


# ------------------------------------------------------------------ hash seed
def spawned(texts, hashseed):
    p = subprocess.run([sys.executable, worker.__file__], input=json.dumps({"texts": texts}), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), timeout=300)
    return json.loads(p.stdout) if p.stdout else None


def check_hash(case):
    a, b = [spawned(case["texts"], s) for s in case["seeds"]]
    if a is None or b is None:
        raise Discard()
    for t, x, y in zip(case["texts"], a, b):
        if x is not None and y is not None and x != y:
            raise Violation("%r is %s with PYTHONHASHSEED=%d, but %s with PYTHONHASHSEED=%d" % (t, x, case["seeds"][0], y, case["seeds"][1]))
    return ["slow" if x is None else "raises" if x.startswith("raises") else "ok" for x in a]


SYMS = ["x", "y", "z", "a", "b", "n", "t", "\\alpha", "\\theta", "x_1", "x_2", "y_1", "\\beta", "u", "w"]


@st.composite
def several(draw):
    """texts of several symbols"""
    v = draw(st.lists(st.sampled_from(SYMS), min_size=2, max_size=4, unique=True))
    ops = draw(st.lists(st.sampled_from(["+", "-", "\\cdot ", "/", "^2+", "^{2}-"]), min_size=len(v) - 1, max_size=len(v) - 1))
    e = v[0] + "".join(o + x for o, x in zip(ops, v[1:]))
    w = draw(st.permutations(v))
    f = w[0] + draw(st.sampled_from(["+", "-", "\\cdot "])) + w[1]
    return draw(st.sampled_from(["%s|_{%s}" % (e, f), "\\left.%s\\right|_{%s=1}" % (e, f), "(%s)|_{%s}^{%s}" % (e, f, w[0]), "%s|_{%s=2}" % (e, w[0]), "f(%s)" % ",".join(w), "\\{%s\\}" % ",".join(w), "\\max(%s)" % ",".join(w),
                                 "\\min(%s,%s)" % (e, f), "\\gcd(%s)" % ",".join(w), "\\operatorname{lcm}(%s)" % ",".join(w), "%s=%s" % (e, f), "%s<%s" % (e, f), "%s,%s" % (e, f), "\\frac{d(%s)}{d%s}" % (e, w[0]), "\\frac{%s}{%s}" % (e, f),
                                 "\\int (%s) d%s" % (e, w[0]), "\\lim_{%s\\to %s}(%s)" % (w[0], w[1], e), "\\sum_{%s=1}^{%s}(%s)" % (w[0], w[1], e), "\\begin{pmatrix}%s&%s\\\\%s&%s\\end{pmatrix}" % (e, f, w[0], w[1]),
                                 "\\frac{\\partial^2 %s}{\\partial %s\\partial %s}" % (w[0], w[0], w[1]), "(%s)(%s)" % (e, f), "(%s) \\mod (%s)" % (e, f), "|%s|" % e, "\\sqrt{%s}" % e, "\\variable{a}%s" % e]))


def hash_case():
    t = st.one_of(several(), several(), gen_all.text(1).map(lambda c: c["tex"]), text())
    return st.fixed_dictionaries({"texts": st.lists(t, min_size=36, max_size=36, unique=True), "seeds": st.lists(st.integers(0, 2 ** 32 - 1), min_size=2, max_size=2, unique=True)})


def hash_nontrivial(case):
    return sum(len(set(re.findall(r"(?<![a-zA-Z\\])[a-z](?![a-zA-Z])", t))) >= 2 for t in case["texts"]) >= 6


SUBS = [
    Sub("history", check, history, nontrivial=nontrivial, quick=480, chunk=20),
    Sub("hashseed", check_hash, hash_case, nontrivial=hash_nontrivial, quick=16, thorough=640, chunk=2),
]
