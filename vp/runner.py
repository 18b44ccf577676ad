"""Drive one property: generated search in forked workers, confirmation, evidence."""
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import uuid

from . import boot
from .core import Case, HarnessError, Violation, digest, short

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN_FILE = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_LIMIT = 60.0         # CPU seconds for one case; a case normally takes milliseconds
WALL_QUICK = 420.0       # stop generating (never "violation") after this many seconds
WALL_THOROUGH = 3300.0
MEM = 6 << 30


def strict(x):
    """x with the numbers JSON has no notation for written as text."""
    if isinstance(x, dict):
        return {k: strict(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strict(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    return x


def load_prop(pid):
    return importlib.import_module("vp.props." + pid.lower())


# ---------------------------------------------------------------- one case
class _CpuLimit(BaseException):
    pass


def _on_prof(signum, frame):
    raise _CpuLimit()


def _det_uuid4_factory():
    rng = random.Random(20240229)

    def uuid4():
        return uuid.UUID(int=rng.getrandbits(128), version=4)
    return uuid4


def evaluate(prop, recipe):
    """Run the oracle on one recipe. Returns the Case, or raises Violation / HarnessError."""
    from gemd.entity.bounds_validation import set_validation_level, WarningLevel
    set_validation_level(WarningLevel.WARNING)
    uuid.uuid4 = _det_uuid4_factory()
    case = Case()
    cwd = os.getcwd()
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        prop.check(recipe, case)
    except (Violation, HarnessError):
        raise
    except _CpuLimit:
        raise Violation("did not terminate within {} CPU seconds".format(CPU_LIMIT))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ["{}:{}".format(os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        raise Violation("unexpected {}: {} (at {})".format(
            type(e).__name__, short(str(e)), " < ".join(reversed(where))))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        if os.getcwd() != cwd:
            os.chdir(cwd)
        set_validation_level(WarningLevel.WARNING)
    return case


# ---------------------------------------------------------------- a worker
class _Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.history = []
        self.last_fail = None
        self.executed = 0

    def add(self, recipe, case):
        self.evaluations += 1
        for k, v in case.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        if case.nontrivial:
            d = digest(recipe)
            if d not in self.seen:
                self.seen.add(d)
                n = len(self.seen)
                if n in (1, 20, 120):
                    self.samples.append(recipe)


def worker(prop, index, total, seed, tier, out):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.RLIM_INFINITY))
    st = _Stats()
    result = {"ok": True}
    try:
        _search(prop, index, total, seed, tier, st)
    except Violation:
        result["ok"] = False
    except HarnessError as e:
        result = {"ok": False, "harness": str(e)}
    except BaseException as e:
        if st.last_fail is not None:
            result["ok"] = False
        else:
            result = {"ok": False, "harness": "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    if st.last_fail is not None:
        result["ok"] = False
        result["fail"] = st.last_fail
        result["history"] = st.history
    result.update(evaluations=st.evaluations, seen=sorted(st.seen), labels=st.labels,
                  samples=st.samples, skipped=st.skipped)
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.replace(tmp, out)


def _search(prop, index, total, seed, tier, st):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stop_at = time.monotonic() + (WALL_QUICK if tier == "quick" else WALL_THOROUGH)

    def one(recipe):
        recipe = json.loads(json.dumps(recipe))
        if time.monotonic() > stop_at:
            st.skipped += 1
            return
        st.executed += 1
        if st.last_fail is None:
            st.history.append(recipe)
            if len(st.history) > 4000:
                del st.history[:2000]
        try:
            case = evaluate(prop, recipe)
        except Violation as v:
            st.last_fail = {"recipe": recipe, "message": str(v)}
            raise
        st.add(recipe, case)

    fixed = list(prop.fixed(tier)) if hasattr(prop, "fixed") else []
    for i, recipe in enumerate(fixed):
        if i % total == index:
            one(recipe)

    n = prop.BUDGET[tier] // int(os.environ.get("VERIF_SCALE", "1"))
    n = n // total + (1 if index < n % total else 0)
    if n <= 0:
        return
    strategies = prop.strategies(tier)
    weight = sum(w for w, _ in strategies)
    for k, (w, strat) in enumerate(strategies):
        m = max(1, int(n * w / weight))

        @hypothesis.seed(seed * 1000003 + index * 7919 + k * 104729 + 17)
        @settings(max_examples=m, database=None, deadline=None, print_blob=False,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck))
        @given(strat)
        def test(recipe):
            one(recipe)

        test()


# ---------------------------------------------------------------- driver
def main(argv):
    if not argv:
        print(__doc__)
        return 2
    cmd, rest = argv[0], argv[1:]
    try:
        if cmd == "setup":
            return setup()
        boot.import_gemd()
        if cmd == "check":
            return check(rest[0])
        if cmd == "replay":
            return replay(rest)
    except HarnessError as e:
        print("HARNESS-ERROR", e)
        return 2
    print("unknown command", cmd)
    return 2


def setup():
    import hypothesis
    boot.import_gemd()
    print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0])
    return 0


def known_findings(pid):
    """Lines `known: property=<id> key=<key> <what>` of the committed findings file."""
    res = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                words = line.split(" ", 3)
                res.append((words[2].split("=", 1)[1], words[3]))
    return res


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = load_prop(pid)
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vp-" + pid + "-")
    os.environ["VP_SCRATCH"] = scratch
    try:
        return _check(prop, pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, pid, tier, seed, scratch, t0):
    kids = {}
    if hasattr(prop, "prepare"):
        prop.prepare()
    sys.stdout.flush()
    for i in range(WORKERS):
        out = os.path.join(scratch, "w{}.json".format(i))
        pid_ = os.fork()
        if pid_ == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                worker(prop, i, WORKERS, seed, tier, out)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        kids[pid_] = out
    results, dead = [], []
    while kids:
        p, status = os.waitpid(-1, 0)
        if p not in kids:
            continue
        out = kids.pop(p)
        if os.path.exists(out):
            r = json.load(open(out))
            results.append(r)
            if not r["ok"] and "fail" in r:
                for k in list(kids):          # one confirmed failure is enough
                    _kill(k)
        else:
            dead.append((p, status))
    fails = [r for r in results if r.get("fail")]
    harness = [r["harness"] for r in results if r.get("harness") and not r.get("fail")]

    violation = None
    for r in fails:
        violation = confirm(pid, r)
        if violation:
            break
    known = []
    for key, what in known_findings(pid):
        recipe = prop.known()[key]
        try:
            evaluate(prop, recipe)
        except Violation:
            known.append(what)
    evidence(prop, pid, tier, seed, results, known, 1 if violation else 0, t0)
    if violation:
        path, message = violation
        print("property {} broken: {}".format(pid, message))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    if harness:
        print("HARNESS-ERROR", harness[0])
        return 2
    if dead and not fails:
        print("HARNESS-ERROR worker died", dead)
        return 2
    if fails:
        print("HARNESS-ERROR a time-limit failure did not reproduce:", fails[0]["fail"]["message"])
        return 2
    for what in known:
        print("KNOWN-FINDING: property={} {}".format(pid, what))
    ev = sum(r["evaluations"] for r in results)
    print("property {} held on {} cases ({} tier, seed {}, {:.1f}s)".format(
        pid, ev, tier, seed, time.monotonic() - t0))
    return 0


def _kill(p):
    for target in (lambda: os.killpg(p, signal.SIGKILL), lambda: os.kill(p, signal.SIGKILL)):
        try:
            target()
            return
        except (ProcessLookupError, PermissionError):
            pass


def confirm(pid, result):
    """Re-run the shrunk recipe alone in a fresh process; fall back to the worker's history."""
    os.makedirs(REPLAYS, exist_ok=True)
    fail = result["fail"]
    path = os.path.join(REPLAYS, "{}-{}.json".format(pid, digest(fail["recipe"])[:12]))
    with open(path, "w") as f:
        json.dump({"property": pid, "message": fail["message"], "recipes": [fail["recipe"]]}, f,
                  indent=1)
    for _ in range(2):
        if _replays(path):
            return path, fail["message"]
    hpath = path[:-5] + "-history.json"
    with open(hpath, "w") as f:
        json.dump({"property": pid, "message": fail["message"],
                   "recipes": result["history"] + [fail["recipe"]]}, f)
    if _replays(hpath):
        return hpath, fail["message"]
    if "CPU seconds" in fail["message"]:
        return None
    return hpath, fail["message"] + " (did not recur on replay: depends on process state)"


def _replays(path):
    env = dict(os.environ)
    env.pop("VP_BOOTED", None)
    cmd = [sys.executable, os.path.join(ROOT, "run.py"), "replay", path]
    try:
        return subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              timeout=180).returncode == 1
    except subprocess.TimeoutExpired:
        return False


def replay(args):
    path = args[0]
    doc = json.load(open(path))
    prop = load_prop(doc["property"])
    resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.RLIM_INFINITY))
    scratch = tempfile.mkdtemp(prefix="vp-replay-")
    os.environ["VP_SCRATCH"] = scratch
    try:
        if hasattr(prop, "prepare"):
            prop.prepare()
        for i, recipe in enumerate(doc["recipes"]):
            try:
                evaluate(prop, recipe)
            except Violation as v:
                print("recipe {} of {}: {}".format(i + 1, len(doc["recipes"]), v))
                print("VIOLATION property={} replay={}".format(doc["property"], path))
                return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("property {} holds on {} recipe(s)".format(doc["property"], len(doc["recipes"])))
    return 0


def evidence(prop, pid, tier, seed, results, known, violations, t0):
    seen = set()
    labels = {}
    samples = []
    for r in results:
        seen.update(r["seen"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples.extend(r["samples"][:3])
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(seen),
            "rule": prop.RULE,
            "samples": samples[:6],
            "classes": dict(sorted(labels.items())),
            "workers": len(results),
            "skipped_for_time": sum(r["skipped"] for r in results),
            "known_findings_reproduced": known,
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
    }
    path = os.path.join(EVIDENCE, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(strict(doc), f, indent=1, allow_nan=False)
    os.replace(path + ".tmp", path)
