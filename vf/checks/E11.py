"""A verdict depends only on the two answers: not on history, order, hash seed, random state, verbosity or thread."""
import json
import os
import signal
import subprocess
import sys
from hypothesis import strategies as st
from vf.repo import *          # imported here so that every fork starts from a loaded but unused library
from vf.pairs import pair
from vf.gen_text import anything, soup, damaged
from vf import worker

PROPERTY = "E11"
RULE = ("A case is 4-9 answer pairs (generators of the other comparison properties) plus a history of other work: parses, failing parses, "
        "declarations left behind by parsing, comparisons of arbitrary text. The pairs are judged in a fresh fork of the loaded library in one "
        "order; then in fresh forks (a) in another order, each pair twice, with the history before and between, (b) with another random state "
        "and verbose output, (c) in one other thread, (d) in four threads at once with a 1e-5 s switch interval; and (e) in a new interpreter "
        "with another PYTHONHASHSEED. Every verdict must be the same everywhere, for every repetition. Non-trivial: at least one pair matches, "
        "at least one does not, and the history is not empty.")
MODES = ["order", "verbose", "thread", "threads", "hash"]


def forked(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 150)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            sys.stdout = open(os.devnull, "w")
            with os.fdopen(w, "w") as f:
                json.dump(worker.run(req), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def spawned(req, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, worker.__file__], input=json.dumps(req), capture_output=True, text=True, env=env, timeout=300)
    return json.loads(p.stdout) if p.stdout else None


def check_verdicts(case):
    pairs = case["pairs"]
    n = len(pairs)
    base = forked({"pairs": pairs, "order": list(range(n))})
    if base is None:
        raise Discard()
    slow = set(base.get("slow", []))
    order = case["order"]
    runs = []
    for mode in case["modes"]:
        req = {"pairs": pairs, "order": order, "rng": case["rng"]}
        if mode == "order":
            req.update(order=order + order[::-1], history=case["history"], between=case["between"])
        elif mode == "verbose":
            req.update(mode="verbose")
        elif mode in ("thread", "threads"):
            req.update(mode=mode, order=[i for i in order if i not in slow], history=case["history"] if mode == "thread" else [], switch=1e-5)
        out = spawned(req, case["rng"] + 1) if mode == "hash" else forked(req)
        if out is None:
            continue                       # the extra work itself ran out of CPU: nothing to compare
        slow |= set(out.pop("slow", []))
        runs.append((mode, out))
    for mode, out in runs:
        for i in range(n):
            if i in slow:
                continue
            for k, v in enumerate(out.get(str(i), [])):
                if v != base[str(i)][0]:
                    raise Violation("is_equiv(%r, %r) is %r, but %r in the run %r (evaluation %d, order %r)" % (
                        pairs[i][0], pairs[i][1], base[str(i)][0], v, mode, k + 1, order))
    return case["modes"] + ["match" if base[str(i)][0] is True else "no match" for i in range(n)]


HIST = ["x \\in \\mathbb{R}^{n\\times m}", "A_{1} \\in \\mathbb{R}^{2\\times 2}", "\\frac{d}{dx} x^2", "\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}",
        "\\sum_{x=1}^{3} x", "\\int_{0}^{1} x dx", "\\lim_{x \\to 0} \\frac{x}{x}", "\\lambda", "x'", "\\bar{x}", "\\mathrm{i}", "y^T x", "{1,2,3}",
        "a=1", "\\variable{x}", "\\%", "\\begin{pmatrix}x\\\\y", "\\frac{1}{", "x=", "[0,1", "\\pm", "1/0", "\\emptyset", "(1,2", "f(x)=x^2"]


@st.composite
def history(draw):
    out = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 5))
        if k <= 2:
            out.append(["parse", draw(st.sampled_from([h for h in HIST if "mathbb" not in h]))])
        elif k == 3:
            out.append(["parse", draw(st.one_of(soup(), damaged()))])
        elif k == 4:
            out.append(["equiv", draw(anything()), draw(anything())])
        else:
            c = draw(pair())
            out.append(["equiv", c["a"], c["b"]])
    return out


@st.composite
def case(draw):
    ps = draw(st.lists(pair(), min_size=4, max_size=9, unique_by=lambda c: (c["a"], c["b"])))
    modes = draw(st.lists(st.sampled_from(["verbose", "thread", "threads", "threads", "hash"]), min_size=2, max_size=3, unique=True))
    return {"pairs": [[c["a"], c["b"]] for c in ps], "order": list(draw(st.permutations(list(range(len(ps)))))), "history": draw(history()),
            "between": draw(history()), "rng": draw(st.integers(0, 2 ** 16)), "modes": ["order"] + modes, "want": [c["want"] for c in ps]}


SUBS = [Sub("verdicts", check_verdicts, case, nontrivial=lambda c: len(set(c["want"])) > 1 and bool(c["history"] + c["between"]),
            quick=24, chunk=3, thorough=2400)]
