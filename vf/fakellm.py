"""Stand-ins for the two provider packages; they record what they are asked and never reach a network."""
import sys
import types

LOG = []                 # ("client", provider, key) / ("call", provider, client id, kwargs)
SCRIPT = {"reply": lambda provider, kw: "ok"}


def _openai():
    m = types.ModuleType("openai")

    class OpenAI:
        def __init__(self, *a, **kw):
            self.kw = kw
            self.ident = sum(1 for l in LOG if l[0] == "client" and l[1] == "openai")
            LOG.append(("client", "openai", kw.get("api_key", a[0] if a else None)))
            outer = self

            class _C:
                def create(self, **kw):
                    LOG.append(("call", "openai", outer.ident, dict(kw)))
                    r = SCRIPT["reply"]("openai", kw)
                    return types.SimpleNamespace(choices=[types.SimpleNamespace(message=types.SimpleNamespace(content=r))])
            self.chat = types.SimpleNamespace(completions=_C())
    m.OpenAI = OpenAI
    m.OpenAIError = type("OpenAIError", (Exception,), {})
    return m


def _dashscope():
    m = types.ModuleType("dashscope")
    m.api_key = None

    class Generation:
        @staticmethod
        def call(*a, **kw):
            if a:
                kw = dict(zip(("model", "prompt"), a), **kw)
            LOG.append(("call", "tongyi", m.api_key, dict(kw)))
            r = SCRIPT["reply"]("tongyi", kw)
            return types.SimpleNamespace(status_code=200, output=types.SimpleNamespace(text=r))
    m.Generation = Generation
    return m


def install():
    sys.modules["openai"] = _openai()
    sys.modules["dashscope"] = _dashscope()
