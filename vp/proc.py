"""Run a function in a forked child: a pristine copy of this process's state."""
import json
import os
import traceback

from .core import HarnessError, Violation


def isolated(fn, *args):
    """Result (JSON-able) of fn(*args) in a forked child; a Violation there is re-raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = {"ok": fn(*args)}
            except Violation as v:
                out = {"violation": str(v)}
            except HarnessError as e:
                out = {"harness": str(e)}
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                out = {"violation": "unexpected {}: {} (at {})".format(
                    type(e).__name__, str(e)[:300],
                    " < ".join("{}:{}".format(os.path.basename(f.filename), f.lineno)
                               for f in reversed(tb[-4:])))}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if not text:
        raise HarnessError("isolated child died with status {}".format(status))
    out = json.loads(text)
    if "violation" in out:
        raise Violation(out["violation"])
    if "harness" in out:
        raise HarnessError(out["harness"])
    return out["ok"]
