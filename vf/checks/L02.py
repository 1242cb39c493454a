"""Model clients are wired to the requested provider and model."""
import copy
import json
import os
import subprocess
import sys
import tempfile
from hypothesis import strategies as st
from vf.repo import *
from vf import fakellm
fakellm.install()
import math_evaluation.llms  # noqa: E402
from math_evaluation.llms import create_llm, get_llm_type  # noqa: E402

PROPERTY = "L02"
RULE = ("history: sequences of 2-14 operations over stand-ins of the two provider packages that record every request: create a client "
        "(provider, model, key in its environment variable, set or not), create one for an unknown provider, call one of the clients "
        "created so far with generated messages (several roles, any text), with the provider answering or failing, classify a type through a "
        "client, change keys. A model of the history says which provider is asked, with which key, model, messages and what the caller "
        "gets. script: the shipped example prints one type per question. Non-trivial: at least two clients and two calls.")
MODELS = ["gpt-3.5-turbo", "gpt-4", "qwen-max", "qwen-plus", "m", "a/b:c", ""]
KEYS = ["sk-1", "sk-2", "", "key with blank", "K" * 40]


@st.composite
def messages(draw):
    n = draw(st.integers(0, 3))
    return [{"role": draw(st.sampled_from(["user", "system", "assistant"])), "content": draw(st.one_of(st.text(max_size=12), st.just("{x} %s \\frac{1}{2}")))} for _ in range(n)]


@st.composite
def op(draw):
    k = draw(st.integers(0, 11))
    if k <= 3:
        prov = draw(st.sampled_from(["openai", "tongyi", "openai", "tongyi", None]))
        return {"op": "create", "provider": prov, "model": draw(st.sampled_from(MODELS)) if draw(st.integers(0, 5)) else None, "how": draw(st.booleans())}
    if k == 4:
        return {"op": "unknown", "provider": draw(st.one_of(st.sampled_from(["OpenAI", "OPENAI", "tongyi ", "", "open", "azure", "qwen", "dashscope", "openai,tongyi", "tong"]), st.text(max_size=6)))}
    if k <= 8:
        return {"op": "call", "i": draw(st.integers(0, 9)), "messages": draw(messages()), "reply": draw(st.one_of(st.text(max_size=15), st.sampled_from(["", "Type: Real", None])))}
    if k == 9:
        return {"op": "fail", "i": draw(st.integers(0, 9)), "messages": draw(messages())}
    if k == 10:
        return {"op": "type", "i": draw(st.integers(0, 9)), "fails": draw(st.integers(0, 6)), "q": draw(st.text(max_size=8)), "type": draw(st.sampled_from(["Real", "Set", "Matrix"]))}
    return {"op": "key", "var": draw(st.sampled_from(["OPENAI_API_KEY", "DASHSCOPE_API_KEY"])), "key": draw(st.sampled_from(KEYS + [None]))}


@st.composite
def history(draw):
    return {"ops": [{"op": "create", "provider": draw(st.sampled_from(["openai", "tongyi"])), "model": draw(st.sampled_from(MODELS)), "how": True}] + draw(st.lists(op(), min_size=1, max_size=13))}


class Boom(Exception):
    pass


def check(case):
    saved = {v: os.environ.get(v) for v in ("OPENAI_API_KEY", "DASHSCOPE_API_KEY")}
    fakellm.install()
    del fakellm.LOG[:]
    try:
        for v in saved:
            os.environ.pop(v, None)
        return _history(case["ops"])
    finally:
        for v, x in saved.items():
            os.environ.pop(v, None)
            if x is not None:
                os.environ[v] = x
        fakellm.SCRIPT["reply"] = lambda p, kw: "ok"


def _history(ops):
    log, clients = fakellm.LOG, []
    for o in ops:
        before = len(log)
        if o["op"] == "key":
            os.environ.pop(o["var"], None)
            if o["key"] is not None:
                os.environ[o["var"]] = o["key"]
        elif o["op"] == "create":
            prov = o["provider"] or "openai"
            kw = {}
            if o["provider"]:
                kw["llm"] = o["provider"]
            if o["model"] is not None:
                kw["model"] = o["model"]
            try:
                f = create_llm(*kw.values()) if o["how"] and "llm" in kw else create_llm(**kw)
            except Exception as e:
                raise Violation("create_llm(%r) raised %r" % (kw, e))
            key = os.environ.get({"openai": "OPENAI_API_KEY", "tongyi": "DASHSCOPE_API_KEY"}[prov])
            if prov == "openai":
                new = [l for l in log[before:] if l[0] == "client"]
                if not new and not any(l[0] == "client" for l in log):
                    raise Violation("create_llm(%r) creates no OpenAI client" % kw)
                used = new[-1][2] if new else [l for l in log if l[0] == "client"][-1][2]
            else:
                used = sys.modules["dashscope"].api_key
            if key is not None and used != key:
                raise Violation("create_llm(%r): the client has the key %r, the environment variable is %r" % (kw, used, key))
            if any(l[0] == "call" for l in log[before:]):
                raise Violation("create_llm(%r) already calls the model" % kw)
            ident = None
            if prov == "openai":
                ident = sum(1 for l in log if l[0] == "client") - 1
            clients.append((prov, o["model"] if o["model"] is not None else "gpt-3.5-turbo", f, ident, key))
        elif o["op"] == "unknown":
            if o["provider"] in ("openai", "tongyi"):
                continue
            try:
                create_llm(o["provider"], "m")
            except Exception:
                if len(log) != before:
                    raise Violation("an unknown provider reaches %r" % (log[before:],))
                continue
            raise Violation("create_llm(%r) is not refused" % o["provider"])
        else:
            prov, model, f, ident, key = clients[o["i"] % len(clients)]
            if o["op"] == "type":
                left = [o["fails"]]

                def reply(p, kw):
                    if left[0]:
                        left[0] -= 1
                        raise Boom()
                    return "Because.\nType: " + o["type"]
                fakellm.SCRIPT["reply"] = reply
                got = get_llm_type(f, o["q"], "$1$")
                want = o["type"] if o["fails"] < 5 else None
                if got != want:
                    raise Violation("get_llm_type over a %s client gives %r, expected %r (%d failures first)" % (prov, got, want, o["fails"]))
                new = log[before:]
                if len(new) != min(o["fails"] + 1, 5):
                    raise Violation("get_llm_type makes %d requests, expected %d" % (len(new), min(o["fails"] + 1, 5)))
            else:
                sent = copy.deepcopy(o["messages"])
                arg = copy.deepcopy(o["messages"])
                if o["op"] == "fail":
                    def reply(p, kw):
                        raise Boom()
                    fakellm.SCRIPT["reply"] = reply
                    try:
                        got = f(arg)
                    except Boom:
                        pass
                    except Exception as e:
                        raise Violation("a failing provider surfaces as %r" % e)
                    else:
                        raise Violation("a failing provider gives the reply %r" % (got,))
                else:
                    fakellm.SCRIPT["reply"] = lambda p, kw: o["reply"]
                    try:
                        got = f(arg)
                    except Exception as e:
                        raise Violation("calling the %s client raised %r" % (prov, e))
                    if got != o["reply"]:
                        raise Violation("the %s client returns %r, the model replied %r" % (prov, got, o["reply"]))
                if arg != sent:
                    raise Violation("calling changes the messages: %r" % (arg,))
                new = log[before:]
                if len(new) != 1:
                    raise Violation("one call makes %d requests" % len(new))
                if new[0][3].get("messages") != sent:
                    raise Violation("sent messages %r, given %r" % (new[0][3].get("messages"), sent))
            for kind, p, who, kw in [l for l in new if l[0] == "call"]:
                if p != prov or (prov == "openai" and ident is not None and fakellm_key(who) != fakellm_key(ident)):
                    raise Violation("the request goes to %s (client %r), the client is for %s (%r)" % (p, who, prov, ident))
                if kw.get("model") != model:
                    raise Violation("the request asks the model %r, the client is for %r" % (kw.get("model"), model))
                t = kw.get("temperature")
                if t is None or not 0 <= t <= 0.01:
                    raise Violation("temperature %r" % (t,))
    return ["%d clients" % min(len(clients), 4)]


def fakellm_key(ident):
    """the key of an OpenAI client: clients with the same key are interchangeable"""
    return [l for l in fakellm.LOG if l[0] == "client"][ident][2]


def nontrivial(case):
    return sum(o["op"] == "create" for o in case["ops"]) >= 2 and sum(o["op"] in ("call", "fail", "type") for o in case["ops"]) >= 2


def check_script(case):
    """llm_type.py with stand-in packages on its path"""
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "dashscope.py"), "w") as f:
            f.write("import types, json\napi_key = None\nTYPES = %r\nclass Generation:\n"
                    "    @staticmethod\n    def call(**kw):\n"
                    "        t = TYPES.pop(0)\n        if t is None:\n            raise RuntimeError('busy')\n"
                    "        open(%r, 'a').write(json.dumps({'key': api_key, 'model': kw['model']}) + '\\n')\n"
                    "        return types.SimpleNamespace(output=types.SimpleNamespace(text='Type: ' + t))\n" % (case["types"], os.path.join(d, "log")))
        root = os.environ.get("VF_REPO", "/repo")
        env = dict(os.environ, PYTHONPATH=d + os.pathsep + root, PYTHONDONTWRITEBYTECODE="1")
        env.pop("DASHSCOPE_API_KEY", None)
        if case["key"]:
            env["DASHSCOPE_API_KEY"] = case["key"]
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(root, "llm_type.py")], cwd=d, env=env, capture_output=True, text=True, timeout=150)
        if not case["key"]:
            if p.returncode == 0 or os.path.exists(os.path.join(d, "log")):
                raise Violation("llm_type.py runs without a key: %r" % p.stdout)
            return ["no key"]
        want = [t for t in case["types"] if t][:2]
        if p.returncode != 0 or p.stdout.split() != want:
            raise Violation("llm_type.py (exit %d) prints %r, the model classified %r %s" % (p.returncode, p.stdout, want, p.stderr[-300:]))
        for l in open(os.path.join(d, "log")):
            if json.loads(l)["key"] != case["key"]:
                raise Violation("llm_type.py uses the key %r" % json.loads(l)["key"])
        return ["script"]


SUBS = [
    Sub("history", check, history, nontrivial=nontrivial, quick=2500, chunk=200),
    Sub("script", check_script, cases=lambda tier, seed: [{"key": "k1", "types": ["Vector", "Interval(s)", "Real"]}, {"key": "k2", "types": [None, "Set", None, None, "Real", "Real"]}, {"key": "", "types": ["Real"]}], quick=3),
]
