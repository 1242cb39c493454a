#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--sub NAME] [--scale F] [--keep-going]
check.py --replay FILE

Runs the registered check of one property against /repo's current working tree."""
import os
import sys

WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": "/nonexistent-pycache", "PYTHONWARNINGS": "ignore"}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

from vf import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        msg = core.replay_file(sys.argv[2])
        print("reproduced: " + msg if msg else "did not reproduce")
        sys.exit(1 if msg else 0)
    try:
        rc = core.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
