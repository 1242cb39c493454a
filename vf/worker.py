"""Fresh interpreter for history/hash-seed experiments: JSON request on stdin, verdicts on stdout."""
import sys, json, os, random, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("VF_REPO", "/repo"), HERE]


class Slow(BaseException):
    pass


def parse_all(texts):
    """every text parsed in turn by this interpreter: the tree as text, the exception class, or None if it takes too long"""
    import re
    import signal
    import sympy
    from vf.repo import latex2sympy

    def alarm(*_):
        raise Slow()
    signal.signal(signal.SIGPROF, alarm)

    def show(r):
        if isinstance(r, (list, tuple)):
            return "%s[%s]" % (type(r).__name__, ",".join(show(x) for x in r))
        if isinstance(r, (set, frozenset)):
            return "set[%s]" % ",".join(sorted(show(x) for x in r))
        return re.sub(r"dummy_index=\d+", "", sympy.srepr(r)) if isinstance(r, (sympy.Basic, sympy.MatrixBase)) else repr(r)
    out = []
    for t in texts:
        signal.setitimer(signal.ITIMER_PROF, 5)
        try:
            r = show(latex2sympy(t))
        except Slow:
            r = None
        except Exception as e:
            r = "raises %s" % type(e).__name__
        signal.setitimer(signal.ITIMER_PROF, 0)
        out.append(r)
    return out


def run(req):
    if "texts" in req:
        return parse_all(req["texts"])
    from vf.repo import is_equiv, latex2sympy
    random.seed(req.get("rng", 0))
    verdicts = {}
    mode = req.get("mode", "main")

    def one(i):
        a, b = req["pairs"][i]
        t0 = time.process_time()
        try:
            r = bool(is_equiv(a, b, verbose=mode == "verbose"))
        except BaseException as e:
            r = "raised %s: %s" % (type(e).__name__, str(e)[:100])
        verdicts.setdefault(str(i), []).append(r)
        if mode != "threads" and time.process_time() - t0 > 4:
            verdicts.setdefault("slow", []).append(i)

    def history(items):
        for h in items:
            try:
                if h[0] == "parse":
                    latex2sympy(h[1])
                else:
                    is_equiv(h[1], h[2])
            except Exception:
                pass
    history(req.get("history", []))
    if mode == "thread":
        def work():
            for i in req["order"]:
                one(i)
        t = threading.Thread(target=work)
        t.start()
        t.join()
    elif mode == "threads":
        n = 4
        def work(k):
            for i in req["order"][k:] + req["order"][:k]:
                one(i)
        ts = [threading.Thread(target=work, args=(k * len(req["order"]) // n,)) for k in range(n)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(req.get("switch", 1e-4))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
    else:
        for n, i in enumerate(req["order"]):
            one(i)
            if n < len(req.get("between", [])):
                history([req["between"][n]])
    return verdicts


if __name__ == "__main__":
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    req = json.load(sys.stdin)
    os.write(out, json.dumps(run(req)).encode())
