"""Single place where the code under test is imported (public entry points only)."""
import os
import sys
import contextlib
import io
import warnings

warnings.filterwarnings("ignore")
import sympy  # noqa: E402
from latex2sympy import latex2sympy2 as l2s_mod  # noqa: E402
from latex2sympy.latex2sympy2 import latex2sympy, latex, latex2latex, set_real, set_variances  # noqa: E402
from math_evaluation import is_equiv, is_equiv_type, string_normalize, are_equal_under_sympy  # noqa: E402
from vf.core import Violation, Discard, Sub  # noqa: E402

_where = [os.path.realpath(sys.modules[m].__file__) for m in ("latex2sympy.latex2sympy2", "math_evaluation")]
_repo = os.path.realpath(os.environ.get("VF_REPO", "/repo")) + os.sep
for _w in _where:
    assert _w.startswith(_repo), "imported %s, expected something under %s" % (_w, _repo)


def parse(tex, **kw):
    """Parse; an exception on an input of the supported language is a violation."""
    try:
        return latex2sympy(tex, **kw)
    except RecursionError:
        raise
    except Exception as e:
        raise Violation("parser rejects %r: %s: %s" % (tex, type(e).__name__, str(e)[:200]))


def rejects(tex):
    try:
        r = latex2sympy(tex)
    except Exception:
        return None
    return r


def equiv(a, b, **kw):
    try:
        r = is_equiv(a, b, **kw)
    except Exception as e:
        raise Violation("is_equiv(%r, %r) raised %s: %s" % (a, b, type(e).__name__, str(e)[:200]))
    return r


def expect_equiv(a, b, want, note=""):
    r = equiv(a, b)
    if bool(r) is not want:
        raise Violation("is_equiv(%r, %r) = %r, expected %r %s" % (a, b, r, want, note))


def equiv_type(a, b, *ty, **kw):
    try:
        return is_equiv_type(a, b, *ty, **kw)
    except Exception as e:
        raise Violation("is_equiv_type(%r, %r, %r) raised %s: %s" % (a, b, ty, type(e).__name__, str(e)[:200]))
