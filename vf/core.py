"""Runner shared by every check: sharded, seeded Hypothesis campaigns.

A check module (vf/checks/<ID>.py) exposes

    PROPERTY   the property id
    RULE       how cases are made and what makes one non-trivial (text)
    SUBS       list of Sub
    ASSUMPTIONS (optional) list of strings

Every Sub is one executable statement of (a part of) the property: a Hypothesis
strategy that yields JSON-able cases, and `check(case)`, which raises Violation
when the real code disagrees with the oracle.  Work is cut into chunks; each
chunk runs in a freshly forked child, with a seed that is a pure function of
(VERIF_SEED, property, sub, chunk number), so a run is a function of the code
under test and VERIF_SEED only.
"""
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CASE_CPU_LIMIT = 200.0      # CPU seconds one case may burn before it counts as a hang
SHRINK_CPU = 25.0           # CPU seconds spent on shrinking one failure


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The case is outside the domain of the property (counted, not judged)."""


class Sub:
    def __init__(self, name, check, strategy=None, cases=None, nontrivial=None,
                 quick=200, thorough=None, chunk=None, known=None, weight=1):
        assert (strategy is None) != (cases is None)
        self.name = name
        self.check = check
        self.strategy = strategy            # callable -> strategy, or strategy
        self.cases = cases                  # callable(tier, seed) -> list of cases (enumerated)
        self.nontrivial = nontrivial or (lambda case: True)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.chunk = chunk or max(10, -(-quick // 16))
        self.known = known                  # optional: case -> finding id (skip: recorded finding)


def stable_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def case_key(case):
    return hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
# child side
# --------------------------------------------------------------------------
class _Stats:
    def __init__(self):
        self.evals = 0
        self.discards = 0
        self.known = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.fail = None          # (size, case, message)
        self.fail_cpu = None


def _run_case(sub, case, st, out):
    """Run one case; returns 'ok' or raises Violation."""
    if sub.known is not None:
        k = sub.known(case)
        if k:
            st.known += 1
            return
    _arm_watchdog(sub, case, out, st)
    try:
        labels = sub.check(case)
    except Discard:
        st.discards += 1
        return
    finally:
        _disarm_watchdog()
    st.evals += 1
    try:
        nt = bool(sub.nontrivial(case))
    except Exception:
        nt = False
    if nt:
        st.keys.add(case_key(case))
        if len(st.samples) < 4:
            st.samples.append(case)
    for l in (labels or ()):
        st.labels[l] = st.labels.get(l, 0) + 1


def _cpu():
    """CPU seconds of this process and of the processes it waited for"""
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


_wd = {}


def _watchdog(signum, frame):
    out, sub, case, st = _wd["out"], _wd["sub"], _wd["case"], _wd["st"]
    res = _result(st)
    res["fail"] = {"case": case, "message": "no answer within %g CPU seconds" % CASE_CPU_LIMIT, "hang": True}
    _send(out, res)
    os._exit(0)


def _arm_watchdog(sub, case, out, st):
    if out is None:
        return
    _wd.update(out=out, sub=sub, case=case, st=st)
    signal.signal(signal.SIGPROF, _watchdog)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)


def _disarm_watchdog():
    left = signal.setitimer(signal.ITIMER_PROF, 0)[0]
    if left and os.environ.get("VF_SLOW") and CASE_CPU_LIMIT - left > 10:
        with open(os.environ["VF_SLOW"], "a") as f:
            f.write("%.0f s %s %s\n" % (CASE_CPU_LIMIT - left, _wd["sub"].name if hasattr(_wd["sub"], "name") else _wd["sub"], json.dumps(_wd["case"])))


class Late(BaseException):
    pass


def patient(seconds):
    """Decorator of checks whose cases may send sympy itself (not the code under test) into minutes of work: such cases are discarded."""
    def deco(f):
        def g(case):
            def late(signum, frame):
                raise Late()
            old = signal.signal(signal.SIGVTALRM, late)
            signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
            try:
                return f(case)
            except Late:
                raise Discard()
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.signal(signal.SIGVTALRM, old)
        return g
    return deco


def _result(st):
    return {"evals": st.evals, "discards": st.discards, "known": st.known, "keys": st.keys,
            "labels": st.labels, "samples": st.samples, "fail": None}


def _send(fd, obj):
    data = pickle.dumps(obj)
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _quiet():
    """The code under test prints; keep that out of our stdout."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, "w")
    if not os.environ.get("VF_DEBUG"):
        os.dup2(dn, 2)
        sys.stderr = open(os.devnull, "w")
    si = os.open(os.devnull, os.O_RDONLY)
    os.dup2(si, 0)


def _child(job, out):
    sub = job["sub"]
    st = _Stats()
    random.seed(job["seed"])
    try:
        if sub.cases is not None:
            for i, case in enumerate(job["cases"]):
                try:
                    _run_case(sub, case, st, out)
                except Violation as v:
                    res = _result(st)
                    res["fail"] = {"case": case, "message": str(v)}
                    _send(out, res)
                    return
            _send(out, _result(st))
            return

        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, given
        strat = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") else sub.strategy
        best = {}

        def test(case):
            if best and _cpu() - best["cpu0"] > SHRINK_CPU:
                return            # shrink budget used up: the best failure so far stands
            try:
                _run_case(sub, case, st, out)
            except Violation as v:
                size = len(json.dumps(case, default=str))
                if not best:
                    best["cpu0"] = _cpu()
                if "size" not in best or size <= best["size"]:
                    best.update(size=size, case=case, message=str(v))
                raise

        t = given(strat)(test)
        t = settings(max_examples=job["n"], database=None, deadline=None, print_blob=False,
                     report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                     suppress_health_check=list(HealthCheck))(t)
        t = hypothesis.seed(job["seed"])(t)
        try:
            t()
        except BaseException as e:
            if not best:
                raise
        res = _result(st)
        if best:
            res["fail"] = {"case": best["case"], "message": best["message"]}
        _send(out, res)
    except BaseException:
        _send(out, {"error": "%s (sub %s, chunk %s)\n%s" % (sys.exc_info()[0].__name__, sub.name, job.get("k"), traceback.format_exc())})


def _fork(job):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if not os.environ.get("VF_NOQUIET"):
                _quiet()
            _child(job, w)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


# --------------------------------------------------------------------------
# parent side
# --------------------------------------------------------------------------
def _run_jobs(jobs, workers, budget, on_result):
    """Run jobs in forked children, `workers` at a time.  Returns number not run."""
    import selectors
    sel = selectors.DefaultSelector()
    t0 = time.time()
    active = {}
    it = iter(jobs)
    left = len(jobs)
    stop = False
    killed = 0
    while True:
        while not stop and len(active) < workers and left and time.time() - t0 < budget:
            job = next(it)
            left -= 1
            pid, r = _fork(job)
            active[r] = (pid, job, bytearray())
            sel.register(r, selectors.EVENT_READ)
        if not active:
            break
        for key, _ in sel.select(timeout=1.0):
            r = key.fd
            pid, job, buf = active[r]
            data = os.read(r, 1 << 20)
            if data:
                buf.extend(data)
                continue
            sel.unregister(r)
            os.close(r)
            del active[r]
            _, status = os.waitpid(pid, 0)
            if buf:
                res = pickle.loads(bytes(buf))
            else:
                res = {"error": "child for sub %s died with status %r" % (job["sub"].name, status)}
            if on_result(job, res):
                stop = True
                for rr, (p2, _, _) in list(active.items()):
                    os.kill(p2, signal.SIGKILL)
                    sel.unregister(rr)
                    os.close(rr)
                    os.waitpid(p2, 0)
                active.clear()
        if time.time() - t0 > budget + 240 and active:
            for rr, (p2, _, _) in list(active.items()):
                os.kill(p2, signal.SIGKILL)
                sel.unregister(rr)
                os.close(rr)
                os.waitpid(p2, 0)
                killed += 1
            active.clear()
    return left + killed


def build_jobs(mod, seed, tier, only=None, scale=1.0):
    jobs = []
    per_sub = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        lst = []
        if sub.cases is not None:
            cases = list(sub.cases(tier, seed))
            step = sub.chunk
            for k in range(0, len(cases), step):
                lst.append({"sub": sub, "k": k // step, "cases": cases[k:k + step],
                            "seed": stable_seed(seed, mod.PROPERTY, sub.name, k // step)})
        else:
            total = int(max(1, round((sub.thorough if tier == "thorough" else sub.quick) * scale)))
            k = 0
            while total > 0:
                n = min(total, sub.chunk if tier == "quick" else sub.chunk * 2)
                lst.append({"sub": sub, "k": k, "n": n,
                            "seed": stable_seed(seed, mod.PROPERTY, sub.name, k)})
                total -= n
                k += 1
        per_sub.append(lst)
    # interleave so that an expensive sub does not end up alone at the end
    i = 0
    while any(per_sub):
        for lst in per_sub:
            if lst:
                jobs.append(lst.pop(0))
    return jobs


WARM = [r"\frac{1}{2}+3\cdot x^{2}-\left(4-2\right)!", r"\sin^{2}(x)+\cos 2x", r"\sqrt[3]{8}+|x-1|",
        r"\begin{pmatrix}1&2\\3&4\end{pmatrix}", r"\int_{0}^{1} x dx", r"\sum_{i=1}^{n} i^2", r"x=1, y=2",
        r"\log_{2}(8)\cdot e^{x}", r"f(x)", r"\lim_{x\to 0}\frac{x}{2}", r"a_1+\alpha\beta", r"[1,2,3]",
        r"\{x+1,y\}", r"-3\frac{1}{2}", r"1,234.5", r"x\leq 2", r"\gcd(4,6)", r"2(3+4)(x)", r"\left[1,2\right]"]


def warm_up(mod):
    """Fill the parser's prediction tables once, before forking (results do not depend on it)."""
    import gc
    if getattr(mod, "WARMUP", True):
        try:
            from vf.repo import latex2sympy
            for s in WARM:
                try:
                    latex2sympy(s)
                except Exception:
                    pass
        except Exception:
            pass
    gc.collect()
    gc.freeze()


def load(prop):
    return importlib.import_module("vf.checks." + prop)


def load_findings(prop):
    path = os.path.join(HERE, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d["property"] == prop:
                    res.append(d)
    return res


def replay_file(path):
    d = json.load(open(path))
    mod = load(d["property"])
    sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
    if d.get("kind") == "chunk":
        job = {"sub": sub, "k": d["chunk"], "seed": d["seed"], "n": d.get("n", 0)}
        if sub.cases is not None:
            job["cases"] = d["cases"]
        out = []
        _run_jobs([job], 1, 3600, lambda j, r: out.append(r))
        res = out[0]
        if res.get("fail"):
            return res["fail"]["message"]
        if res.get("error"):
            raise RuntimeError(res["error"])
        return None
    return run_single(sub, d["case"])


def run_single(sub, case, prelude=()):
    """Run one case in a fresh child; returns the violation message or None."""
    class One:
        pass
    s = Sub(sub.name, sub.check, cases=lambda t, s: [], nontrivial=sub.nontrivial)
    out = []
    _run_jobs([{"sub": s, "k": 0, "cases": list(prelude) + [case], "seed": 0}], 1, 600, lambda j, r: out.append(r))
    res = out[0]
    if res.get("error"):
        raise RuntimeError(res["error"])
    if res.get("fail"):
        return res["fail"]["message"]
    return None


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    scale = 1.0
    keep_going = False
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--sub":
            only = argv[i + 1]; i += 2
        elif argv[i] == "--scale":
            scale = float(argv[i + 1]); i += 2
        elif argv[i] == "--keep-going":
            keep_going = True; i += 1
        else:
            raise SystemExit("unknown argument " + argv[i])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = stable_seed(os.environ["VERIF_SEED"])
    t0 = time.time()
    mod = load(prop)
    warm_up(mod)
    workers = int(os.environ.get("VF_JOBS", str(min(8, os.cpu_count() or 4))))
    budget = float(os.environ.get("VF_BUDGET", "420" if tier == "quick" else "5400"))
    jobs = build_jobs(mod, seed, tier, only, scale)

    agg = {"evals": 0, "discards": 0, "known": 0, "keys": {}, "labels": {}, "samples": {}, "subs": {}}
    failures, errors = [], []
    pairs_seen = set()

    def on_result(job, res):
        name = job["sub"].name
        if "error" in res:
            errors.append(res["error"])
            return not keep_going
        agg["evals"] += res["evals"]
        agg["discards"] += res["discards"]
        agg["known"] += res["known"]
        agg["keys"].setdefault(name, set()).update(res["keys"])
        d = agg["subs"].setdefault(name, {"evaluations": 0, "discarded": 0, "chunks": 0})
        d["evaluations"] += res["evals"]
        d["discarded"] += res["discards"]
        d["chunks"] += 1
        for l, c in res["labels"].items():
            agg["labels"][name + ":" + l] = agg["labels"].get(name + ":" + l, 0) + c
        s = agg["samples"].setdefault(name, [])
        if len(s) < 3:
            s.extend(res["samples"][-1:] + res["samples"][:1])
        if res["fail"]:
            failures.append((job, res["fail"]))
            return not keep_going
        return False

    not_run = _run_jobs(jobs, workers, budget, on_result)

    # recorded findings: replay each, and say what we saw
    known_out = []
    subs = {s.name: s for s in mod.SUBS}
    for f in load_findings(prop):
        if f.get("status") != "finding":
            continue
        msg = run_single(subs[f["sub"]], f["case"])
        if msg is not None:
            known_out.append(f)
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    code = 0
    if failures:
        job, fail = failures[0]
        sub = job["sub"]
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (job, fail) in enumerate(failures):
            sub = job["sub"]
            d = {"property": prop, "sub": sub.name, "case": fail["case"], "message": fail["message"], "kind": "case"}
            if not fail.get("hang"):
                try:
                    again = run_single(sub, fail["case"])
                except RuntimeError as e:
                    again = None
                if again is None:
                    # only fails after the cases before it in its chunk: replay the chunk
                    d["kind"] = "chunk"
                    d["chunk"] = job["k"]
                    d["seed"] = job["seed"]
                    d["n"] = job.get("n")
                    if "cases" in job:
                        d["cases"] = job["cases"]
                else:
                    d["message"] = again
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, sub.name, n))
            with open(path, "w") as fh:
                json.dump(d, fh, indent=1, ensure_ascii=False, default=str)
            print("  sub=%s %s" % (sub.name, d["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS-ERROR " + e)
        code = 2
    if agg["evals"] == 0 and code == 0:
        print("HARNESS-ERROR nothing was evaluated")
        code = 2

    samples = []
    for name in agg["samples"]:
        for c in agg["samples"][name][:2]:
            samples.append({"sub": name, "case": c})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": sum(len(v) for v in agg["keys"].values()),
            "rule": mod.RULE,
            "samples": samples[:40],
            "subchecks": agg["subs"],
            "classes": dict(sorted(agg["labels"].items())),
            "discarded": agg["discards"],
            "excluded_known": agg["known"],
            "chunks_not_run": not_run,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    if known_out:
        ev["coverage"]["known_findings"] = [f["what"] for f in known_out]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False, default=str)
    print("%s %s: %d evaluations, %d distinct non-trivial, %d chunks not run, %.1f s, exit %d"
          % (prop, tier, agg["evals"], ev["coverage"]["distinct_nontrivial"], not_run, time.time() - t0, code))
    return code
