"""Arbitrary texts: unicode noise, LaTeX token soup, damaged real answers, deep nesting."""
import json
import os
from hypothesis import strategies as st
from vf.core import REPO

TOKENS = (r"\frac \dfrac \tfrac \sqrt \left \right \left( \right) \left[ \right] \{ \} { } ( ) [ ] , ; : . + - * / ^ _ = < > ! ' | \| & \\ \cdot "
          r"\times \div \pm \mp \pi \infty \in \cup \cap \emptyset \text{ \mbox{ \mathrm{ \begin{pmatrix} \end{pmatrix} \begin{cases} \end{cases} "
          r"\begin{array}{cc} \end{array} \begin \end \sum \int \lim \prod \to \log \ln \sin \cos \tan \binom \choose \over \bar \vec \hat \mod \leq \ge \neq "
          r"\circ ^\circ \degree \% % $ \$ \, \; \! \: \quad ~ \  and or \text{and} \text{or} million am pm a.m. p.m. cm mph degrees units dollars "
          r"0 1 2 3 10 12 100 0.5 1,000 12:30 8:05 1e5 2.5e-3 10_2 101_{2} x y z a b i e E I d dx f(x) x\in \angle \triangle \operatorname{rank} "
          r"\variable{x} \det \gcd \max( \floor \lfloor \rfloor \lceil \rceil |_{ \Re \mathbb{R} \ldots \dots ... √ π ° ∞ ∪ ∈ − ≤ ½ ² × ").split(" ")
TOKENS = [t for t in TOKENS if t] + [" ", "  ", "\t", "\n", "\r", "\f", "\b", "\a", "\0", "\\ ", "__", "lambda", "import", "'", '"', "#", ":=", "None", "True"]

_answers = None


def answers():
    global _answers
    if _answers is None:
        d = json.load(open(os.path.join(REPO, "data", "math_testset_annotation.json")))
        out = []
        for r in d:
            out.extend([r["answer"]] if isinstance(r["answer"], str) else r["answer"])
        _answers = sorted(set(a for a in out if len(a) <= 60))
    return _answers


@st.composite
def soup(draw):
    toks = draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=9))
    sep = draw(st.sampled_from(["", "", " "]))
    return sep.join(toks)


@st.composite
def damaged(draw):
    s = draw(st.sampled_from(answers()))
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 6))
        i = draw(st.integers(0, len(s)))
        j = draw(st.integers(0, len(s)))
        if i > j:
            i, j = j, i
        if k == 0:
            s = s[:i]
        elif k == 1:
            s = s[:i] + draw(st.sampled_from(TOKENS)) + s[i:]
        elif k == 2:
            s = s[:i] + s[j:]
        elif k == 3:
            s = s[:j] + s[i:j] + s[j:]
        elif k == 4:
            s = s[i:]
        elif k == 5:
            s = s[:i] + draw(st.characters()) + s[i + 1:]
        else:
            t = draw(st.sampled_from(answers()))
            s = s[:i] + t[draw(st.integers(0, len(t))):]
    return s[:200]


@st.composite
def nested(draw):
    n = draw(st.sampled_from([1, 2, 5, 20, 60, 200, 1000]))
    o, c = draw(st.sampled_from([("(", ")"), ("{", "}"), ("[", "]"), ("\\{", "\\}"), ("\\left(", "\\right)"), ("\\sqrt{", "}"), ("\\frac{1}{", "}"), ("\\text{", "}"),
                                 ("-", ""), ("$", "$"), ("|", "|"), ("(1,", ")"), ("[", ",2]"), ("x^{", "}"), ("\\bar{", "}"), ("1+(", ")"), ("f(", ")"), ("\\begin{pmatrix}", "\\end{pmatrix}"),
                                 (" ", " "), ("1,", ""), ("", "0"), ("9", ""), ("", "!"), ("", "'"), ("0.", "1"), ("x", ""), ("2^", ""), ("\\", ""), ("", "^2"), ("", "%"), ("-1 ", "/2")]))
    if n > 60 and o in ("\\frac{1}{", "x^{", "2^", "\\begin{pmatrix}", "1+(", "f(", "\\bar{", "|", "\\sqrt{") or c in ("!", "^2"):
        n = draw(st.integers(1, 12))
    core = draw(st.sampled_from(["", "1", "x", "1,2", "\\frac12", "a b"]))
    d = draw(st.integers(0, 2))
    return o * n + core + c * (n if d else draw(st.integers(0, n)))


def anything():
    return st.one_of(soup(), soup(), soup(), damaged(), damaged(), damaged(), nested(), st.text(max_size=25),
                     st.sampled_from(TOKENS), st.text(alphabet="0123456789.,eE+-/ %$^_x(){}[]\\", max_size=14), st.sampled_from(["", " ", "\t", "   ", "\n"]))
