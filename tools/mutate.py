"""Mutation testing of the checks: small edits of /repo's code that its tests do not notice.

usage: mutate.py OUT.jsonl [--jobs N] [--full] [--again EARLIER-OUT.jsonl] [FILE-SUBSTRING ...]
--again takes only the mutants that survived in an earlier run; --full runs every check.
Each mutant is made in a scratch copy of /repo; if the repository's tests still pass, the checks
relevant to the file run against the copy (one worker each, an eighth of the quick budget), from a
scratch copy of /verif, until one reports a violation.
"""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALL = ["C%02d" % i for i in range(1, 27)]
RELEVANT = [
    ("units/", "C09 C10 C11 C05 C08 C16"),
    ("demo/", "C25"),
    ("builders/", "C17"),
    ("enumeration/", "C15 C13 C20 C01"),
    ("util/impl", "C02 C03 C19 C23 C18 C12 C01 C21"),
    ("entity/util", "C18 C23 C19 C17"),
    ("json/", "C01 C20 C02 C23 C11"),
    ("bounds_validation", "C06 C07 C08"),
    ("entity/bounds/", "C05 C16 C06 C07 C12 C20 C26"),
    ("entity/value/", "C16 C05 C06 C08 C12 C20 C17 C24 C26"),
    ("entity/attribute/", "C24 C26 C06 C07 C14 C12 C20 C01 C17"),
    ("entity/template/", "C24 C26 C07 C14 C06 C12 C20 C01 C19 C16 C03"),
    ("entity/object/", "C24 C26 C04 C07 C08 C22 C14 C12 C20 C01 C18 C19 C03 C23 C02 C17"),
    ("case_insensitive", "C13 C21 C12 C01 C26 C24"),
    ("valid_list", "C14 C07 C04 C26"),
    ("link_by_uid", "C24 C21 C12 C20 C03"),
    ("base_entity", "C24 C26 C12 C21 C13 C19 C20 C02 C03 C01"),
    ("dict_serializable", "C20 C12 C01 C02 C23 C21 C24 C26"),
    ("setters", "C24 C14 C16 C04 C20 C07"),
    ("", "C24 C14 C20 C12 C01 C19"),
]
# type variables, export lists and cache sizes: no behaviour
BORING = ["TypeVar", "__all__", "1024  =>", "keyword bound", "Type\"", "typing"]


def mutants(src):
    """(start, end, replacement, description) over the source text."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, "%d: %s" % (n.lineno, what)))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    skip = set(docs)
    for n in ast.walk(tree):          # annotations, messages of exceptions, f-strings
        for f in ("annotation", "returns"):
            c = getattr(n, f, None)
            if isinstance(c, ast.AST):
                skip.update(id(x) for x in ast.walk(c))
        if isinstance(n, (ast.Assign, ast.Import, ast.ImportFrom)) and (
                not isinstance(n, ast.Assign) or getattr(n.targets[0], "id", "") == "__all__"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    ops = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"],
           ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Is: ["is not"],
           ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in ops[type(n.ops[0])]:
                put(n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "compare " + o)
        elif isinstance(n, ast.Compare):
            vals = [n.left] + n.comparators
            put(n, "(%s)" % " and ".join(
                "%s <= %s" % (text(vals[i]), text(vals[i + 1])) for i in range(len(vals) - 2)),
                "chain cut")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(%s)" % w.join("(%s)" % text(v) for v in n.values), "and/or")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                w2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(%s)" % w2.join("(%s)" % text(v) for v in rest), "operand %d dropped" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % text(n.operand), "not dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(%s)" % text(n.operand), "minus dropped")
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitOr: "&",
                   ast.BitAnd: "|", ast.Pow: "*"}.get(type(n.op))
            if alt:
                put(n, "(%s %s %s)" % (text(n.left), alt, text(n.right)), "operator " + alt)
            put(n, "(%s)" % text(n.left), "left only")
            put(n, "(%s)" % text(n.right), "right only")
        elif isinstance(n, ast.If):
            put(n.test, "True", "if True")
            put(n.test, "False", "if False")
        elif isinstance(n, ast.IfExp):
            put(n, "(%s)" % text(n.body), "ifexp body")
            put(n, "(%s)" % text(n.orelse), "ifexp else")
        elif isinstance(n, ast.While):
            put(n.test, "False", "while False")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "int+1")
                put(n, str(n.value - 1), "int-1")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 2 + 1e-12), "float*2")
            elif isinstance(n.value, str) and text(n)[:1] in "'\"":
                put(n, repr(n.value + "x"), "str+x")
                if n.value:
                    put(n, repr(""), "str empty")
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                put(n, "return None", "return None")
        elif isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                put(n, "(%s)" % text(n.args[0]), "call unwrapped " + text(n.func)[:30])
            if isinstance(n.func, ast.Attribute) and not n.keywords:
                put(n, "(%s)" % text(n.func.value), "method dropped " + n.func.attr)
            for i, k in enumerate(n.keywords):
                a = [text(x) for x in n.args] + [
                    ("%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value))
                    for j, q in enumerate(n.keywords) if j != i]
                put(n, "%s(%s)" % (text(n.func), ", ".join(a)), "keyword %s dropped" % k.arg)
            if len(n.args) == 2 and not n.keywords:
                put(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])), "swapped")
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(
                getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            br = {"List": "[]", "Set": "{}", "Tuple": "()"}[type(n).__name__]
            for i in range(len(n.elts)):
                rest = ", ".join(text(e) for j, e in enumerate(n.elts) if j != i)
                put(n, br[0] + rest + "," + br[1], "element %d dropped" % i)
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "break" if isinstance(n, ast.Continue) else "continue", "loop jump")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, "(%s)" % text(n.value), "slice dropped")
        elif isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            for g in n.generators:
                for c in g.ifs:
                    put(c, "True", "filter True")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            put(n, "pass", "statement dropped")
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for d in n.decorator_list:
                t = text(d)
                if "cache" in t or "wraps" in t:
                    put(d, "(lambda f: f)", "decorator " + t)
    seen, res = set(), []
    for a, b, new, what in out:
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((m.decode(), what + "   " + raw[a:b].decode().split("\n")[0][:70] + "  =>  "
                    + new[:70]))
    return res


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9, "timeout"


def work(args):
    k, queue, out, lock, full = args
    w, v = "/tmp/mut.%d" % k, "/tmp/mutverif.%d" % k
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    shutil.copytree(VERIF, v, symlinks=True, ignore=shutil.ignore_patterns(
        "seeded", ".git", "evidence", "replays"))
    try:
        while True:
            item = queue.get()
            if item is None:
                return
            f, i, mut, what = item
            p = os.path.join(w, f)
            keep = open(p).read()
            open(p, "w").write(mut)
            try:
                rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], w,
                           60, PYTHONPATH=w)
                rec = {"file": f, "n": i, "what": what, "tests": rc}
                if rc == 0:
                    rel = next(r for s, r in RELEVANT if s in f).split()
                    rec["ran"] = []
                    for c in rel + ([x for x in ALL if x not in rel] if full else []):
                        rc, o = sh(["python3", "run.py", "check", c], v, 600, VERIF_REPO=w,
                                   VERIF_WORKERS="1", VERIF_SCALE="8", VERIF_SEED="1")
                        rec["ran"].append([c, rc])
                        if rc != 0:
                            rec["caught"] = c
                            rec["out"] = o.strip()[-300:]
                            break
            finally:
                open(p, "w").write(keep)
            with lock:
                with open(out, "a") as g:
                    g.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    jobs = 8
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    again = None
    if "--again" in args:
        i = args.index("--again")
        again = set()
        for line in open(args[i + 1]):
            d = json.loads(line)
            if d["tests"] == 0 and not d.get("caught"):
                again.add((d["file"], d["what"].split(":", 1)[1]))
        del args[i:i + 2]
    full = "--full" in args
    args = [a for a in args if not a.startswith("--")]
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done.add((d["file"], d["n"]))
    queue = mp.Queue()
    todo = []
    for root, _, files in sorted(os.walk("/repo/gemd")):
        for x in sorted(files):
            f = os.path.relpath(os.path.join(root, x), "/repo")
            if not x.endswith(".py") or "/demo/" in f and not args or args and not any(a in f for a in args):
                continue
            for i, (m, what) in enumerate(mutants(open(os.path.join("/repo", f)).read())):
                if again is not None and (f, what.split(":", 1)[1]) not in again:
                    continue
                if (f, i) not in done and not any(w in what for w in BORING):
                    todo.append((f, i, m, what))
    random.Random(5).shuffle(todo)
    for t in todo:
        queue.put(t)
    print(len(todo), "mutants", flush=True)
    if "--count" in sys.argv:
        os._exit(0)
    for _ in range(jobs):
        queue.put(None)
    lock = mp.Lock()
    ps = [mp.Process(target=work, args=((k, queue, out, lock, full),)) for k in range(jobs)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


main()
