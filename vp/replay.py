"""Runs harness cases concretely against the real code in /repo.

usage: replay.py FILE.json     (run with the repository's own interpreter)
FILE holds {"module": "harness.x", "runs": [{"fn","params","inputs"}...]}, or a
single such run; prints one JSON line per run.  Exit status 1 if any run
violates the property."""
import importlib
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
import warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
import numpy as np

_empty = np.empty


def _fill(shape, dtype=float, order="C", **k):
    """Uninitialised memory may hold anything: use the pattern the symbolic
    side uses."""
    a = _empty(shape, dtype=dtype, order=order)
    if a.dtype.itemsize and a.size:
        a.reshape(-1).view(np.uint8)[:] = 0xA5
    return a


np.empty = _fill


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def one(mod, run, timeout):
    from vp.cx_conc import Cx, CheckFailed, AssumeFailed
    cx = Cx(run["inputs"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    out = {"ok": True}
    saved = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        getattr(mod, run["fn"])(cx, **run["params"])
    except CheckFailed as e:
        out = {"ok": False, "label": e.label, "detail": str(e.detail)}
    except AssumeFailed as e:
        out = {"ok": True, "assume": str(e)}
    except Hang:
        out = {"ok": False, "label": "non-termination", "detail": "no result after %d s" % timeout}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, AttributeError) and "/harness/" in tb[-1].filename:
            # the harness asked for something the code does not (any more)
            # have: no verdict
            out = {"ok": None, "label": "harness-api", "detail": str(e)}
        else:
            out = {"ok": False, "label": "exception", "detail": "%s: %s" % (type(e).__name__, e),
                   "where": ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]}
    finally:
        signal.alarm(0)
        sys.stdout.close()
        sys.stdout = saved
        cx.unstub()
    out["checks"] = cx.checks
    out["reached"] = sorted(cx.reached)
    return out


def main():
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module(d["module"])
    runs = d.get("runs") or [d]
    bad = 0
    for r in runs:
        o = one(mod, r, d.get("timeout", 20))
        bad |= o["ok"] is False
        print("REPLAY " + json.dumps(o))
        sys.stdout.flush()
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
