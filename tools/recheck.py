"""Run the checks against every planted bug in seeded/ and print one line for each.

usage: recheck.py OUT.jsonl [--jobs N] [ID-SUBSTRING ...]
Each bug is applied to a scratch copy of /repo; the check of its property runs against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = os.path.join(VERIF, "seeded", name)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = "/tmp/recheck." + name
    shutil.rmtree(w, ignore_errors=True)
    try:
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, check=True)
        p = subprocess.run([sys.executable, "run.py", "check", prop], cwd=VERIF,
                           env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        out = p.stdout.strip()
        return {"id": name, "property": prop, "rc": p.returncode,
                "caught": p.returncode == 1 and "VIOLATION property=" + prop in out,
                "out": out[-400:]}
    except Exception as e:
        return {"id": name, "property": prop, "caught": False, "out": repr(e)}
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    jobs = 1
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    names = [n for n in sorted(os.listdir(os.path.join(VERIF, "seeded")))
             if not args or any(a in n for a in args)]
    with ThreadPoolExecutor(jobs) as ex, open(out, "w") as f:
        for r in ex.map(one, names):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if not r["caught"]:
                print("NOT CAUGHT", r["id"], r["out"][-200:], flush=True)
    print("done")


main()
