"""Type classification retries faults and reports the first good reply."""
import copy
import re
from hypothesis import strategies as st
from vf.repo import *
from vf.gen_text import anything
from vf.pairs import pair, ALL
from vf import fakellm
fakellm.install()
from math_evaluation.llms import get_llm_type  # noqa: E402

PROPERTY = "L01"
RULE = ("history: a question and an answer (generated answers of every kind, arbitrary text, with and without $ signs, template-like braces), "
        "a prompt type, a number of tries 0-9 and a scripted model: a sequence of faults (exceptions of many classes), non-text replies, "
        "texts without a type marker, and good replies (marker after arbitrary analysis lines, several markers, blanks and new lines around). "
        "A reference model of the retry loop gives the number of calls and the result; every call must get exactly one user message, with "
        "the question verbatim and the answer once between $ signs, the same each time. Non-trivial: a fault before the first good reply.")

EXC = [ValueError, KeyError, RuntimeError, TimeoutError, ConnectionError, OSError, AttributeError, IndexError, TypeError, AssertionError, MemoryError, RecursionError,
       StopIteration, UnicodeDecodeError, NotImplementedError, ZeroDivisionError]
TYPES = ["Real", "Complex", "Set", "Interval(s)", "Vector", "Matrix", "Expression", "Function", "Equation", "Inequality", "Others", "real", "Not sure", "Real.", "$Real$", "Type", "None", "5"]


def line(draw):
    return draw(st.one_of(st.sampled_from(["The answer is a number.", "Analysis: because.", "", "type: Real", "Type - Real", "TYPE: Set", "Types", "The Type is Real", "1. Real", "$x$", "Answer type :", "T ype: Real"]),
                          st.text(max_size=20).filter(lambda s: "Type:" not in s)))


@st.composite
def bad_reply(draw):
    k = draw(st.integers(0, 4))
    if k <= 1:
        return {"raise": draw(st.integers(0, len(EXC) - 1))}
    if k == 2:
        return {"value": draw(st.sampled_from([None, 5, [], ["Type: Real"], {"text": "Type: Real"}, 1.5, True]))}
    t = "\n".join(line(draw) for _ in range(draw(st.integers(0, 3))))
    return {"text": t if "Type:" not in t else "no"}


@st.composite
def good_reply(draw):
    pre = "".join(line(draw) + "\n" for _ in range(draw(st.integers(0, 3))))
    pre += draw(st.sampled_from(["", "", " ", "**", "Answer "]))
    if "Type:" in pre:
        pre = ""
    sep = draw(st.sampled_from([" ", " ", "", "  ", "\n", "\t", " \n ", "\n\n"]))
    ty = draw(st.sampled_from(TYPES))
    post = draw(st.sampled_from(["", "", "\n", "\nThat is all.", " ", "\nType: Set", "  \n\nType: Matrix", " Type: Vector", "\r\n", " (a number)"]))
    if draw(st.integers(0, 9)) == 0:
        ty = ""
    return {"text": pre + "Type:" + sep + ty + post}


def expected(text):
    rest = text.split("Type:", 1)[1].lstrip()
    return rest.split("\n", 1)[0]


@st.composite
def history(draw):
    bads = draw(st.lists(bad_reply(), max_size=8))
    goods = draw(st.lists(good_reply(), max_size=2))
    script = bads + goods
    if draw(st.integers(0, 3)) == 0:
        script = draw(st.permutations(script))
    k = draw(st.integers(0, 4))
    if k == 0:
        a = draw(anything())
    elif k == 1:
        a = draw(st.sampled_from(["", "$", "$$", "x", "$x$", "$$x$$", "$x$ and $y$", "{answer}", "{}", "{{1}}", "\\{1,2\\}", "$x", "x$", "%s", "\\text{A}", "1\n2", "$448,000$", " $x$ ",
                                          "\\$5", "$\\$5$", "\\$1,000 \\text{ and } \\$2", "{question}", "{ground_truth}"]))
    else:
        c = draw(pair(ALL))
        a, b = c["a"], c["b"]
        a = draw(st.sampled_from([a, "$%s$" % a, "$%s$ and $%s$" % (a, b)]))
    q = draw(st.one_of(st.sampled_from(["What is $x$?", "Solve {x} for \\frac{1}{2}.", "{question}", "Type: Real?", "", "Find\nall %d values $k$", "Answer: $5$"]), anything()))
    mt = draw(st.one_of(st.none(), st.integers(0, 9)))
    return {"q": q, "a": a, "script": script, "max_try": mt, "prompt": draw(st.sampled_from([None, 1, 1, 2, 2])), "rest": draw(bad_reply())}


def check(case):
    tries = 5 if case["max_try"] is None else case["max_try"]
    seen, n = [], [0]

    def model(messages, *a, **k):
        if a or k:
            raise Violation("the model is called with further arguments %r %r" % (a, k))
        if len(seen) > tries + 3:
            raise SystemExit("runaway")
        seen.append(copy.deepcopy(messages))
        r = case["script"][n[0]] if n[0] < len(case["script"]) else case["rest"]
        n[0] += 1
        if "raise" in r:
            c = EXC[r["raise"]]
            raise c("utf8", b"x", 0, 1, "bad") if c is UnicodeDecodeError else c("injected")
        return r["text"] if "text" in r else r["value"]

    kw = {}
    if case["max_try"] is not None:
        kw["max_try"] = case["max_try"]
    if case["prompt"] is not None:
        kw["prompt_type"] = case["prompt"]
    try:
        got = get_llm_type(model, case["q"], case["a"], **kw)
    except (Exception, SystemExit) as e:
        raise Violation("get_llm_type raised %s: %s after %d calls (at most %d allowed)" % (type(e).__name__, e, len(seen), tries))
    # reference model of the retry loop
    want, calls = None, 0
    for i in range(tries):
        r = case["script"][i] if i < len(case["script"]) else case["rest"]
        calls += 1
        if isinstance(r.get("text"), str) and "Type:" in r["text"]:
            want = expected(r["text"])
            break
    if len(seen) != calls:
        raise Violation("the model is called %d times, expected %d (at most %d tries)" % (len(seen), calls, tries))
    if got != want:
        raise Violation("returned %r, expected %r" % (got, want))
    plain = re.sub(r"(?<!\\)\$", "", case["a"])
    for m in seen:
        if m != seen[0]:
            raise Violation("the messages of a later try differ: %r, %r" % (m, seen[0]))
        if not isinstance(m, list) or len(m) != 1 or m[0].get("role") != "user" or not isinstance(m[0].get("content"), str):
            raise Violation("messages %r are not one user message" % (m,))
        c = m[0]["content"]
        # the last question of the prompt is ours
        i = c.rfind("Question: " + case["q"] + "\n")
        if i < 0:
            raise Violation("the prompt does not ask the question %r: ...%r" % (case["q"], c[-200:]))
        if ("Answer: $" + plain + "$\n") not in c[i:] + "\n":
            raise Violation("the prompt does not give the answer %r between dollar signs: ...%r" % (case["a"], c[i:][-300:]))
    return ["no good reply" if want is None else "good reply", "prompt %s" % case["prompt"]]


def nontrivial(case):
    s = case["script"]
    return len(s) > 1 and "Type:" not in str(s[0].get("text"))


def check_prompt_type(case):
    try:
        get_llm_type(lambda m: "Type: Real", "q", "a", prompt_type=case["p"])
    except Exception:
        return
    raise Violation("prompt type %r is not refused" % (case["p"],))


SUBS = [
    Sub("history", check, history, nontrivial=nontrivial, quick=3000, chunk=250),
    Sub("prompt type", check_prompt_type, cases=lambda tier, seed: [{"p": p} for p in (0, 3, -1, None, "1", "2", 10)], quick=7),
]
