"""Make the planted bugs of tools/bugs.py and confirm each in scratch copies of /repo.

usage: plant.py [--no-check] [ID ...]
For each bug: copy /repo to /tmp/plant.<pid>.<id>, apply, take the diff, run the repository's tests
and the demonstration with and without the change, and the bug's check against the copy.
Writes seeded/<id>/ for those that compile, pass the tests and whose demonstration tells them apart.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = "728c648"
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def one(bug, check=True):
    w = f"/tmp/plant.{os.getpid()}.{bug['id']}"
    d = os.path.join(VERIF, "seeded", bug["id"])
    res = {"id": bug["id"], "property": bug["property"]}
    try:
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                res["error"] = f"{f}: {n} matches of {old!r}"
                return res
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], cwd=w)
        rem = {}
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                base = sh(["git", "show", BASE + ":" + cur], cwd="/repo")[1].splitlines()
            elif line.startswith("-"):
                rem.setdefault(line[1:] in base, []).append(line[1:])
        if rem.get(False):
            res["note"] = "changes lines of our own: {}".format(rem[False])
        demo = textwrap.dedent(bug["demo"]).lstrip()
        tmp = w + ".demo"
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(demo)
        open(tmp + "/demo.sh", "w").write(DEMO)
        os.chmod(tmp + "/demo.sh", 0o755)
        rc, out = sh(["bash", tmp + "/demo.sh"], cwd="/repo", timeout=300)
        if rc != 0:
            res["error"] = "demo fails on clean tree: " + out[-800:]
            return res
        rc, out = sh(["bash", tmp + "/demo.sh"], cwd=w, timeout=300)
        if rc == 0:
            res["error"] = "demo passes with patch"
            return res
        res["demo"] = (out.strip().splitlines() or ["(no output)"])[-1][:120]
        rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", "-x"], cwd=w, PYTHONPATH=w)
        if rc != 0:
            res["error"] = "tests fail: " + out[-600:]
            return res
        res["tests"] = out.strip().splitlines()[-1]
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        if check:
            for c in [bug["property"]] + bug.get("also", []):
                rc, out = sh(["python3", "run.py", "check", c], cwd=VERIF, VERIF_REPO=w,
                             VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                v = re.search(r"VIOLATION property=(\S+)", out)
                res["check " + c] = f"rc={rc} {v.group(0) if v else out[-300:]}"
                if c == bug["property"]:
                    res["caught"] = rc == 1 and v is not None and v.group(1) == c
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + ".demo", ignore_errors=True)
    return res


def main():
    import bugs
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [b for b in bugs.BUGS if not args or b["id"] in args]
    check = "--no-check" not in sys.argv
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: one(b, check), todo):
            print(json.dumps(r), flush=True)


main()
