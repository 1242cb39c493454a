"""Benchmark scoring counts exactly the correct predictions."""
import contextlib
import io
import json
import os
import re
import runpy
import shutil
import sys
import tempfile
from hypothesis import strategies as st
from vf.repo import *
from vf.pairs import pair
from vf import gen_ans as g

PROPERTY = "E13"
RULE = ("any: demo.is_equiv_MATH on a list of 1-5 annotated answers (numbers in different notations, collections, matrices, ...) whose members match the "
        "prediction or clearly differ from it, in any position: true iff one matches; a plain string annotation: as is_equiv. score: "
        "example_tora_eval.py run as a script over a generated benchmark of 1-10 questions (annotations in another order than the "
        "predictions, single and multiple annotated answers, boxed answers with nested and escaped braces, earlier boxes with other answers in the "
        "same text and in earlier code blocks, text after the box, no box, unclosed box): the printed score is exactly #correct / #all. "
        "Non-trivial: correct and incorrect predictions both occur (score) / both matching and differing members (any).")
REPO_DIR = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO_DIR)
import demo  # noqa: E402
assert os.path.realpath(demo.__file__).startswith(os.path.realpath(REPO_DIR) + os.sep)


@st.composite
def item(draw):
    """annotation (str or list), prediction, want"""
    if draw(st.integers(0, 2)) == 0:
        c = draw(pair(["collection", "interval", "matrix", "expression", "relation"]))
        a = c["a"]
        return {"answer": [a] if draw(st.booleans()) else a, "pred": c["b"], "want": c["want"], "kinds": [c["want"]]}
    n = draw(g.exact_small())
    others = []
    for _ in range(draw(st.integers(0, 4))):
        m = draw(g.mutant(n)) if draw(st.booleans()) else draw(g.exact_small())
        if g.clear(n, m) and g.clear(m, n):
            others.append(m)
    want = draw(st.booleans())
    gts = [g.spell(draw, m) for m in others]
    if want or not gts:
        want = True
        gts.insert(draw(st.integers(0, len(gts))), g.spell(draw, n))
    gts = [s for s in gts]
    ans = gts if len(gts) > 1 or draw(st.booleans()) else gts[0]
    return {"answer": ans, "pred": g.spell(draw, n), "want": want, "kinds": [want] + [False] * len(others)}


def ok(c):
    texts = [c["pred"]] + (c["answer"] if isinstance(c["answer"], list) else [c["answer"]])
    return not any(re.search(r"\d, ?\d{3}", t) for t in texts)


def check_any(case):
    before = json.dumps(case)
    try:
        r = demo.is_equiv_MATH(case["answer"], case["pred"])
    except Exception as e:
        raise Violation("is_equiv_MATH(%r, %r) raised %s: %s" % (case["answer"], case["pred"], type(e).__name__, e))
    if bool(r) is not case["want"]:
        raise Violation("is_equiv_MATH(%r, %r) = %r, expected %r" % (case["answer"], case["pred"], r, case["want"]))
    if json.dumps(case) != before:
        raise Violation("is_equiv_MATH changed its arguments: %s -> %s" % (before, json.dumps(case)))
    return ["list of %d" % len(case["answer"]) if isinstance(case["answer"], list) else "string"]


# -- the script ---------------------------------------------------------------------------------------
WRONG = ["77777", "\\frac{1}{91919}", "\\text{none}", "(8,88)", "\\begin{pmatrix}9\\\\99\\end{pmatrix}", "\\{7,77\\}", "x^{7777}", ""]
AFTER = ["", "$", "$.", " is the answer.", "\n```\n", " where $x>0$ and {a} is a set.", "}", " \\{ \\}", "\n", " $\\text{boxed}$"]
BEFORE = ["", "The answer is $", "$$\n", "So {x} = ", "print(\"\\\\boxed{}\".format(1))\n", "final: $\\text{}$ "]


def balanced(s):
    d = 0
    for ch in re.sub(r"\\.", "", s, flags=re.S):
        d += ch == "{"
        d -= ch == "}"
        if d < 0:
            return False
    return d == 0 and not s.endswith("\\")


@st.composite
def benchmark(draw):
    items = draw(st.lists(item().filter(ok), min_size=1, max_size=10))
    out = []
    for k, it in enumerate(items):
        if not balanced(it["pred"]):
            return None
        before = draw(st.sampled_from(BEFORE))
        for _ in range(draw(st.integers(0, 2))):
            before += "first \\boxed{%s} then " % draw(st.sampled_from(WRONG))
        how = draw(st.sampled_from(["box"] * 8 + ["nobox", "open", "early"]))
        a = it["answer"][0] if isinstance(it["answer"], list) else it["answer"]
        want = it["want"] if how == "box" else False
        if how == "box":
            last = before + "\\boxed{" + it["pred"] + "}" + draw(st.sampled_from(AFTER))
        elif how == "nobox":
            last = "the answer is " + a
        elif how == "open":
            last = before + "\\boxed{" + it["pred"] + draw(st.sampled_from(["", " and", " {x}"]))
        else:
            last = "\\boxed{" + it["pred"] + "} but really \\boxed{77777}"
            want = False
            if not re.fullmatch(r"[-\d. ]*", it["pred"]) or "77777" in str(it):
                return None
            if any(re.sub(r"[^0-9]", "", x) == "77777" for x in (it["answer"] if isinstance(it["answer"], list) else [it["answer"]])):
                return None
        if "\\boxed" in it["pred"] or any("\\boxed" in x for x in ([it["answer"]] if isinstance(it["answer"], str) else it["answer"])):
            return None
        code = ["x = %d\\boxed{%s}" % (k, draw(st.sampled_from(WRONG + [a])))] * draw(st.integers(0, 2)) + [last]
        out.append({"question": "Question %d: find $x$." % k, "answer": it["answer"], "code": code, "want": want, "how": how})
    return {"items": out, "order": list(draw(st.permutations(list(range(len(out))))))}


def run_script(items, order):
    d = tempfile.mkdtemp(prefix="vfE13")
    cwd = os.getcwd()
    argv = sys.argv
    out, err = io.StringIO(), io.StringIO()
    code = 0
    try:
        w = os.path.join(d, "w")
        os.makedirs(os.path.join(w, "data"))
        with open(os.path.join(w, "data", "math_testset_annotation.json"), "w") as f:
            json.dump([{"index": k, "question": it["question"], "answer": it["answer"], "human_type": "Real"} for k, it in enumerate(items)], f)
        if order is not None:
            with open(os.path.join(d, "tora_code_34b_math.jsonl"), "w") as f:
                for k in order:
                    it = items[k]
                    f.write(json.dumps({"idx": k, "question": it["question"], "gt": "77777", "code": it["code"], "prediction": ["77777"], "pred": ["77777"],
                                        "score": [False]}) + "\n")
        os.chdir(w)
        sys.argv = ["example_tora_eval.py"]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(REPO_DIR, "example_tora_eval.py"), run_name="__main__")
            except SystemExit as e:
                code = e.code
    finally:
        os.chdir(cwd)
        sys.argv = argv
        shutil.rmtree(d, ignore_errors=True)
    return out.getvalue(), code


def check_score(case):
    try:
        out, code = run_script(case["items"], case["order"])
    except Exception as e:
        raise Violation("example_tora_eval.py raised %s: %s" % (type(e).__name__, e))
    lines = out.split()
    n, good = len(case["items"]), sum(it["want"] for it in case["items"])
    if code not in (0, None) or not lines:
        raise Violation("example_tora_eval.py exits with %r and prints %r" % (code, out))
    try:
        score = float(lines[-1])
    except ValueError:
        raise Violation("example_tora_eval.py prints %r, not a score" % out)
    if score != good / n:
        raise Violation("score %r for %d correct of %d" % (score, good, n))
    return [it["how"] for it in case["items"]]


def mixed(c):
    return len({it["want"] for it in c["items"]}) == 2


def check_missing(case):
    out, code = run_script(case["items"], None)
    if not code:
        raise Violation("without model output the script exits with %r and prints %r" % (code, out))


SUBS = [
    Sub("any", check_any, lambda: item().filter(ok), nontrivial=lambda c: len(set(c["kinds"])) == 2, quick=360, chunk=30),
    Sub("score", check_score, lambda: benchmark().filter(bool), nontrivial=mixed, quick=120, chunk=10),
    Sub("missing", check_missing, cases=lambda tier, seed: [{"items": [{"question": "q", "answer": "1", "code": ["\\boxed{1}"]}]}], quick=1),
]
