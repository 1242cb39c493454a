"""Answers are data: comparing them runs no code, touches nothing outside and leaves the process as it was."""
import builtins
import decimal
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import threading
import warnings
from hypothesis import strategies as st
from vf.repo import *
from vf.pairs import pair
from vf.gen_text import anything
import math_evaluation.core.evaluations, math_evaluation.core.latex_parser, math_evaluation.core.latex_normalize  # noqa
import math_evaluation.core.type_evaluations, math_evaluation.core.constants                                   # noqa

PROPERTY = "E12"
RULE = ("code: 3-6 comparisons whose answers carry Python code (imports, file and process access, eval/exec/compile, sympify and other sympy "
        "entry points that evaluate, plot, print or inject names, attribute chains, lambdas, comprehensions, f-strings, walrus, builtins, "
        "full-width and LaTeX-escaped spellings) inside answer contexts (brackets, fractions, matrices, text, lists, relations, intervals), "
        "through is_equiv, is_equiv_type and latex2sympy. They run in a fork with an audit hook: no file outside Python's own modules is "
        "opened, nothing is created, removed, run, connected; a canary builtin is never called, canary files never change; standard input is not read, "
        "nothing printed by an answer; no interpreter exit. After the run builtins, environment, working directory, module attributes, signal "
        "handlers, timers, random state, precision, decimal context, threads, recursion limit are as before. ordinary: the same "
        "observation over ordinary generated pairs and arbitrary texts. Non-trivial: a code payload is present / the two texts differ.")
SCRATCH = None          # per case directory; the text carries the placeholder W

CODE = [
    "__import__('os').system('touch W/x')", "__import__(\"os\").mkdir(\"W/d\")", "__import__('os').remove('W/keep')",
    "open('W/x','w').write('1')", "open(\"W/keep\").read()", "open('W/x','w')", "exec(\"open('W/x','w')\")", "eval(\"vfcanary()\")",
    "eval(compile(\"vfcanary()\",\"a\",\"eval\"))", "sympify(\"vfcanary()\")", "S(\"vfcanary()\")", "sympify('open(\"W/x\",\"w\")')",
    "parse_expr(\"vfcanary()\")", "lambdify(x,\"vfcanary()\")(1)", "Function(\"vfcanary()\")(x)", "Symbol(\"vfcanary()\")", "Rational(\"vfcanary()\")",
    "Integer(vfcanary())", "vfcanary()", "vfcanary", "vfcanary(1)", "vfcanary*2", "sin(vfcanary())", "N(\"vfcanary()\")", "Add(\"vfcanary()\",1)",
    "Matrix([\"vfcanary()\"])", "simplify(\"vfcanary()\")", "solve(\"vfcanary()\")", "sqrt(\"vfcanary()\")", "abs(vfcanary())", "Max(\"vfcanary()\",1)",
    "().__class__.__base__.__subclasses__()", "[c for c in ().__class__.__mro__[1].__subclasses__()]", "(lambda: vfcanary())()",
    "(lambda x: vfcanary())(1)", "(q:=vfcanary())", "[vfcanary() for i in [1]]", "[vfcanary() for i in range(2)]", "{vfcanary() for i in [1]}",
    "{1: vfcanary()}", "f\"{vfcanary()}\"", "f'{vfcanary()}'", "1 if vfcanary() else 2", "vfcanary() or 1", "not vfcanary()", "[*vfcanary()]",
    "print(6131*7919)", "print(x)", "pprint(6131*7919)", "print_latex(6131*7919)", "print_python(6131*7919)", "input()", "exit()", "quit()", "exit(0)", "breakpoint()", "help()", "help(x)", "globals()", "locals()", "vars()", "dir()",
    "globals().clear()", "setattr(sin,'x',1)", "setattr(Symbol,x,1)", "getattr(sin,'__class__')", "delattr(sin,x)", "type('X',(),{})", "memoryview(b'x')",
    "preview(x)", "preview(x, output='png', viewer='file', filename='W/x.png')", "plot(x)", "textplot(x,0,1)", "var('q')", "var(x)", "symbols('x')",
    "init_printing()", "init_session()", "pprint(x)", "pretty_print(x)", "print_tree(x)", "print_latex(x)", "print_mathml(x)", "pager_print(x)",
    "print_rcode(x)", "print_python(x)", "print_ccode(x)", "print_fcode(x)", "source(sin)", "use(x,sin)", "test()", "doctest()", "seed(3)", "random()", "sieve.extend(100)",
    "pprint_use_unicode(x)", "pprint_try_use_unicode()", "postorder_traversal(x)", "cacheit(x)", "evaluate(False)", "ufuncify(x,x)", "autowrap(x)", "codegen(x,x)",
    "mpmath.mp.dps", "sin.func", "x.subs(x,1)", "(1).real", "sin.__globals__", "sqrt.__globals__", "abs.__self__", "sum.__self__.open", "pow.__self__",
    "import os", "from os import system", "import os; os.system('touch W/x')", "del x", "raise SystemExit", "assert 0", "x = vfcanary()", "while 1: pass", "yield x",
    "global x", "@vfcanary", "x;vfcanary()", "1\nvfcanary()", "1 # vfcanary()", "\\\nvfcanary()", "`vfcanary()`", "$(vfcanary)", "os.system('touch W/x')",
    "subprocess.run(['touch','W/x'])", "sys.exit()", "sys.setrecursionlimit(100)", "os.environ.clear()", "os.chdir('/')", "threading.Thread()",
    "Lambda(x, vfcanary())", "Function('f')(x)", "Tuple(vfcanary())", "sum(vfcanary())", "pow(vfcanary(),2)", "max(vfcanary())", "min(vfcanary(),1)", "round(vfcanary())",
    "Poly(\"vfcanary()\")", "Poly('vfcanary()', x)", "Eq(\"vfcanary()\",1)", "Interval(\"vfcanary()\",2)", "FiniteSet(\"vfcanary()\")", "Matrix(2,2,lambda i,j: vfcanary())",
    "Matrix(2,2,vfcanary)", "Piecewise((vfcanary(),True))", "Sum(vfcanary(),(x,1,2))", "integrate(vfcanary(),x)", "diff(\"vfcanary()\",x)", "Float(\"vfcanary()\")",
    "expand(\"vfcanary()\")", "factor(\"vfcanary()\")", "limit(\"vfcanary()\",x,0)", "gcd(\"vfcanary()\",2)", "root(\"vfcanary()\",2)", "prod([vfcanary()])", "diag(\"vfcanary()\")",
    "MatrixSymbol(\"vfcanary()\",2,2)", "Dummy(\"vfcanary()\")", "Wild(\"vfcanary()\")", "Lambda(\"x\",\"vfcanary()\")", "ImageSet(vfcanary)", "Array([vfcanary()])",
]
CONTEXT = ["%s", "%s", "%s", "(%s)", "[%s,1]", "[%s,2)", "(%s,2)", "\\{%s\\}", "\\{%s,1\\}", "\\frac{%s}{2}", "\\frac{1}{%s}", "$%s$", "\\(%s\\)", "x=%s", "%s=1", "y=%s",
           "1+%s", "2*%s", "%s\\cdot 2", "\\text{%s}", "\\mathrm{%s}", "\\sqrt{%s}", "\\begin{pmatrix}%s&1\\\\2&3\\end{pmatrix}", "\\begin{pmatrix}%s\\end{pmatrix}", "x<%s",
           "(-\\infty,%s]", "[0,1]\\cup[%s,3]", "1,%s", "%s,%s", "%s i", "2+%s i", "%s^2", "2^{%s}", "|%s|", "\\sin(%s)", "%s\\%%", "%s^\\circ", "%s cm", "\\$%s", "1_{%s}", "%s_{2}",
           "\\variable{%s}", "-%s", "%s!", "\\boxed{%s}", "\\left(%s\\right)", "f(x)=%s", "\\sum_{x=1}^{%s}x", "\\int_0^{%s}x dx", "\\lim_{x\\to 0}%s", "\\frac{d}{dx}%s", "x\\in%s",
           "Matrix([%s])", "Integer(%s)", "sqrt(%s)", "sum([%s])", "[[%s]]", "(%s for x in [1])", "x[%s]", "%s if 1 else 2"]
WARM = [("\\frac{1}{2}", "x+[1,2]"), ("\\begin{pmatrix}1\\end{pmatrix}", "x=2"), ("\\frac{q_1}{2}+\\sin x", "2\\sin x"), ("[1,2)\\cup(3,4]", "[0,1]"),
        ("\\int_0^1 x dx", "\\sum_{k=1}^3 k"), ("\\sqrt{2}+i", "1,2"), ("x<2", "x>2"), ("open(1)", "sin(x)+1"), ("10\\%", "0.2")]
LABELS = [None, "Complex", "Set", "Vector", "Function", "Matrix", "Expression", "Equation", "Inequality", "Interval"]


def fullwidth(s):
    return "".join(chr(ord(c) + 0xFEE0) if c.isalpha() and ord(c) < 128 else c for c in s)


@st.composite
def payload(draw):
    code = draw(st.sampled_from(CODE))
    k = draw(st.integers(0, 24))
    if k == 0:
        code = fullwidth(code)
    elif k == 1:
        code = code.replace("_", "\\_")
    elif k == 2:
        code = code.replace("vfcanary", "v{f}canary").replace("__", "_{_}")
    elif k == 3:
        code = code.replace("vfcanary", "vf canary").replace("(", " (")
    elif k == 4:
        code = code.replace("(", "\\left(").replace(")", "\\right)")
    elif k == 5:
        code = code.replace("'", "\"\"\"").replace("\"\"\"\"\"\"", "\"\"\"")
    elif k == 6:
        code = "".join("\\x%02x" % ord(c) if c.isalpha() else c for c in code)
    elif k == 7:
        code = code.upper()
    elif k == 8:
        code = re.sub("[a-z]", lambda m: "\\N{LATIN SMALL LETTER %s}" % m.group().upper(), code, count=2)
    ctx = draw(st.sampled_from(CONTEXT))
    out = ctx.replace("%s", code).replace("%%", "%")
    if draw(st.integers(0, 9)) == 0:
        out = draw(st.sampled_from(CONTEXT)).replace("%s", out).replace("%%", "%")
    return out


# -- observation ----------------------------------------------------------------------------------
FORBIDDEN = {
    "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.startfile", "pty.spawn",
    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.chdir", "os.fchdir",
    "os.putenv", "os.unsetenv", "os.kill", "os.killpg", "os.setxattr", "os.removexattr", "os.lockf",
    "shutil.rmtree", "shutil.copyfile", "shutil.move", "shutil.copytree", "shutil.chown", "shutil.make_archive", "shutil.unpack_archive",
    "socket.__new__", "socket.connect", "socket.bind", "socket.getaddrinfo", "socket.gethostbyname", "urllib.Request", "ftplib.connect", "smtplib.connect",
    "http.client.connect", "builtins.input", "builtins.breakpoint", "cpython.run_interactivehook", "cpython.run_command", "webbrowser.open",
    "ctypes.dlopen", "ctypes.dlsym", "tempfile.mkstemp", "tempfile.mkdtemp", "sys.settrace", "sys.setprofile", "sys._getframe_", "code.__new__",
    "resource.setrlimit", "syslog.syslog", "sqlite3.connect", "signal.pthread_kill", "mmap.__new__", "pdb.Pdb", "glob.glob",
}
PYDIRS = tuple({os.path.realpath(p) + os.sep for p in [sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), os.environ.get("VF_REPO", "/repo")]})


def module_state():
    out = {}
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("math_evaluation", "latex2sympy", "builtins", "random", "timeout_decorator") or name in ("sympy", "os", "sys", "json", "re"):
            if name.startswith("latex2sympy.gen"):
                continue
            for k, v in list(vars(m).items()):
                if k in PARSER_STATE and name.startswith("latex2sympy") or k in ("__warningregistry__", "_", "last_type", "last_value", "last_traceback", "last_exc"):
                    continue
                if k[:1] == "_" and not name.startswith(("math_evaluation", "latex2sympy")) or isinstance(v, type(sys)):
                    continue                        # submodules appear when first used
                out[name + "." + k] = summary(v)
    return out


PARSER_STATE = {"VARIABLE_VALUES", "variances", "var", "frac_type", "diff_op", "partial_op"}     # judged by E11 and P08


def summary(v):
    if isinstance(v, (int, float, str, bytes, bool, type(None))):
        return repr(v)
    if isinstance(v, (list, tuple, set, frozenset)):
        return "%s %d" % (id(v), len(v)) + str(hash(repr(sorted(map(repr, v))))) if len(v) < 2000 else str(id(v))
    if isinstance(v, dict):
        return "%s %d" % (id(v), len(v)) if v is not os.environ and v is not sys.modules else "-"
    return str(id(v))


def process_state():
    import mpmath
    return {
        "environment": dict(os.environ), "cwd": os.getcwd(), "sys.path": list(sys.path), "recursion limit": sys.getrecursionlimit(),
        "random": hash(random.getstate()), "SIGALRM": str(signal.getsignal(signal.SIGALRM)), "SIGINT": str(signal.getsignal(signal.SIGINT)),
        "SIGTERM": str(signal.getsignal(signal.SIGTERM)), "ITIMER_REAL": signal.getitimer(signal.ITIMER_REAL)[1] or signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "mpmath": mpmath.mp.dps, "decimal": str(decimal.getcontext()), "threads": threading.active_count(),
        "stdio": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "trace": str(sys.gettrace()), "profile": str(sys.getprofile()),
        "displayhook": id(sys.displayhook), "excepthook": id(sys.excepthook), "digits": sys.get_int_max_str_digits(), "switch": sys.getswitchinterval(),
        "umask": umask(), "warnings": len(warnings.filters),
        "sympy evaluate": str(sympy.core.parameters.global_parameters.evaluate), "children": threading.main_thread().ident,
    }


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def observe(calls, scratch, report):
    """Runs in a fork. Makes the calls under observation; returns a list of complaints."""
    events, live = [], [False]

    def hook(event, args):
        if not live[0]:
            return
        if event in FORBIDDEN:
            events.append("%s%r" % (event, tuple(args)[:2]))
        elif event == "open":
            f = args[0]
            if isinstance(f, int):
                events.append("open(%r)" % (f,))
                return
            f = os.fsdecode(f)
            p = os.path.realpath(f)
            reading = str(args[1] or "r") in ("r", "rb") and not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if not reading or not p.startswith(PYDIRS) and not p.endswith((".pyc", ".py", ".so")) and f != "<string>":
                events.append("open(%r, %r)" % (f, args[1]))
    called = []

    def vfcanary(*a, **k):
        called.append("canary called")
        return 7
    builtins.vfcanary = vfcanary
    cwd = os.path.join(scratch, "cwd")
    os.mkdir(cwd)
    os.chdir(cwd)
    with open(os.path.join(scratch, "keep"), "w") as f:
        f.write("keep")
    rin, win = os.pipe()
    os.write(win, b"1\n2\n3\n4\n")
    os.dup2(rin, 0)
    sys.stdin = open(0, closefd=False)
    outf = os.open(os.path.join(scratch, "out"), os.O_RDWR | os.O_CREAT)
    os.dup2(outf, 1)
    os.dup2(outf, 2)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)
    sys.stdout.flush()
    os.ftruncate(1, 0)
    os.lseek(1, 0, 0)
    sys.dont_write_bytecode = True
    sys.addaudithook(hook)
    sys.unraisablehook = lambda u: None
    before, mods = process_state(), module_state()
    bad = []
    live[0] = True
    for c in calls:
        try:
            if c[0] == "parse":
                try:
                    latex2sympy(c[1])
                except Exception:
                    pass
            elif c[0] == "typed":
                is_equiv_type(c[1], c[2], c[3])
            else:
                is_equiv(c[1], c[2])
        except Exception as e:
            bad.append("%r raised %s: %s" % (c, type(e).__name__, str(e)[:100]))
        except BaseException as e:
            bad.append("%r ended the program: %s" % (c, type(e).__name__))
        if called or events:
            bad += ["%s by %r" % (x, c) for x in called + events]
            called.clear()
            events.clear()
    live[0] = False
    sys.stdout.flush()
    sys.stderr.flush()
    after, mods2 = process_state(), module_state()
    for k in before:
        if before[k] != after[k]:
            bad.append("%s changed from %r to %r" % (k, str(before[k])[:200], str(after[k])[:200]))
    for k in sorted(set(mods) | set(mods2)):
        if mods.get(k) != mods2.get(k):
            bad.append("module attribute %s changed" % k)
    os.lseek(1, 0, 0)
    written = os.read(1, 1 << 20).decode("utf-8", "replace")
    if any(line.strip() == "48551389" for line in written.splitlines()):
        bad.append("output written by an answer: %r" % written[:200])
    os.set_blocking(0, False)
    left = os.read(0, 100)
    if left != b"1\n2\n3\n4\n":
        bad.append("standard input was read")
    names = sorted(os.listdir(scratch)) + os.listdir(cwd)
    if names != ["cwd", "keep", "out"]:
        bad.append("files changed: %r" % names)
    elif open(os.path.join(scratch, "keep")).read() != "keep":
        bad.append("file changed")
    return bad


_warm = []


def warm_up():
    if not _warm:
        _warm.append(1)
        if hasattr(math_evaluation.core.latex_parser, "TIMEOUT_SECONDS"):
            math_evaluation.core.latex_parser.TIMEOUT_SECONDS = 2       # verdicts are not judged here
        for a, b in WARM:                       # lazily loaded parts of the libraries
            is_equiv(a, b)


def check_calls(case):
    warm_up()
    scratch = tempfile.mkdtemp(prefix="vfE12")
    try:
        calls = [[x.replace("W/", scratch + "/") if isinstance(x, str) else x for x in c] for c in case["calls"]]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_PROF, 150)
                bad = observe(calls, scratch, w)
                os.write(w, json.dumps({"bad": bad[:5]}).encode())
            except BaseException as e:
                import traceback
                os.write(w, json.dumps({"error": traceback.format_exc()[-2000:]}).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
                raise Discard()
            raise Violation("%r ended the process (status %d)" % (case["calls"], status))
        data = json.loads(data)
        if "error" in data:
            raise RuntimeError(data["error"])
        if data["bad"]:
            raise Violation("; ".join(data["bad"]).replace(scratch, "W"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return [c[0] for c in case["calls"]]


@st.composite
def code_case(draw):
    calls = []
    for _ in range(draw(st.integers(3, 6))):
        p = draw(payload())
        other = draw(st.one_of(st.sampled_from(["1", "x", "[1,2]", "1+i", "\\frac{1}{2}", "x=7", "7"]), payload(), st.just(p)))
        if draw(st.booleans()):
            p, other = other, p
        k = draw(st.integers(0, 5))
        if k == 0:
            calls.append(["parse", p])
        elif k <= 2:
            calls.append(["typed", p, other, draw(st.sampled_from(LABELS))])
        else:
            calls.append(["equiv", p, other])
    return {"calls": calls}


@st.composite
def plain_case(draw):
    calls = []
    for _ in range(draw(st.integers(3, 6))):
        k = draw(st.integers(0, 3))
        if k == 0:
            calls.append(["equiv", draw(anything()), draw(anything())])
        elif k == 1:
            calls.append(["parse", draw(anything())])
        else:
            c = draw(pair())
            calls.append(["typed", c["a"], c["b"], draw(st.sampled_from(LABELS))])
    return {"calls": calls}


SUBS = [
    Sub("code", check_calls, code_case, quick=320, chunk=20, thorough=12000),
    Sub("ordinary", check_calls, plain_case, nontrivial=lambda c: any(x[0] != "parse" and x[1] != x[2] for x in c["calls"]), quick=80, chunk=10, thorough=2000),
]
