"""Answer comparison is total and never raises."""
from hypothesis import strategies as st
from vf.repo import *
from vf.gen_text import anything, answers, soup, damaged

PROPERTY = "E01"
RULE = ("Pairs of texts: unicode noise, soups of LaTeX/answer tokens, real benchmark answers after 1-3 cuts, insertions, repetitions and "
        "splices, nesting up to 1000 deep, blanks, None, and numbers that are too big to write out. Checked: comparison (both entry points) returns a "
        "truth value within 200 CPU seconds without raising, self-match, self-match after padding with blanks, None rules, blank "
        "predictions. Non-trivial: two different non-blank texts.")
PADS = ["", " ", "  ", "\n", "\t", " \n "]


def blank(s):
    return s is not None and not s.strip()


def check_pair(case):
    a, b = case["a"], case["b"]
    r = equiv(a, b)
    if r is not None and not isinstance(r, bool) and not (hasattr(r, "__bool__") and bool(r) in (True, False)):
        raise Violation("is_equiv(%r, %r) = %r is not a truth value" % (a, b, r))
    bool(r)
    if a is None or b is None:
        if bool(r) is not (a is None and b is None):
            raise Violation("is_equiv(%r, %r) = %r" % (a, b, r))
        return ["none"]
    if blank(a) != blank(b) and r:
        raise Violation("is_equiv(%r, %r) = %r: a blank matches a non-blank answer" % (a, b, r))
    for x in (a, b):
        if not equiv(x, x):
            raise Violation("is_equiv(%r, itself) is not True" % (x,))
    p = case["pads"]
    for x, y in ((a, p[0] + a + p[1]), (p[1] + b + p[0], b)):
        if not equiv(x, y):
            raise Violation("is_equiv(%r, %r): not equal after adding surrounding blanks" % (x, y))
    try:
        v = are_equal_under_sympy(a, b)
        bool(v)
    except Exception as e:
        raise Violation("are_equal_under_sympy(%r, %r) raised %s: %s" % (a, b, type(e).__name__, str(e)[:200]))
    return ["match" if r else "no match"]


@st.composite
def pair(draw):
    a = draw(anything())
    k = draw(st.integers(0, 7))
    if k == 0:
        b = draw(st.sampled_from(["", " ", "\n", "\t "]))
    elif k == 1:
        b = a + draw(soup())
    elif k <= 3:
        b = draw(st.sampled_from(answers()))
    else:
        b = draw(anything())
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "pads": [draw(st.sampled_from(PADS)), draw(st.sampled_from(PADS))]}


@st.composite
def none_pair(draw):
    x = draw(st.one_of(st.none(), anything()))
    y = None
    if draw(st.booleans()):
        x, y = y, x
    return {"a": x, "b": y, "pads": ["", ""]}


BIG = ["9^9^9", "9**9**9", "9^(9^9)", "factorial(10**8)", "2^{10^{10}}", "999999999!", "1e999999999", "7^{12345678}", "10^{10^{10}}", "x^{10^8}",
       "fibonacci(10**10)", "\\binom{10^9}{5*10^8}", "\\sqrt{2^{10^9}}", "0.1^{10^9}", "binomial(10**9,10**8)", "((9)^9)^9^9"]


def big_cases(tier, seed):
    xs = BIG if tier == "thorough" else [BIG[(seed + k) % len(BIG)] for k in range(0, 20, 4)]
    return [{"a": x, "b": ["5", "x"][i % 2], "pads": [" ", ""]} for i, x in enumerate(xs)]


def check_big(case):
    # the watchdog of the runner reports a hang (the code limits each of its steps to 15 s)
    r = equiv(case["a"], case["b"])
    if r:
        raise Violation("is_equiv(%r, %r) = %r" % (case["a"], case["b"], r))
    if not equiv(case["a"], " " + case["a"]):
        raise Violation("is_equiv(%r, itself) is not True" % case["a"])
    return ["big"]


NT = lambda c: c["a"] is not None and c["b"] is not None and c["a"].strip() and c["b"].strip() and c["a"] != c["b"]
SUBS = [
    Sub("big", check_big, cases=big_cases, chunk=1),
    Sub("pairs", check_pair, pair, nontrivial=NT, quick=1200, chunk=50),
    Sub("none", check_pair, none_pair, nontrivial=lambda c: c["a"] or c["b"], quick=60, chunk=30),
]
