"""C04: both ends of every two-way link stay consistent."""
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.template import ProcessTemplate
from hypothesis import strategies as st

from ..core import expect_raises, require

RULE = ("a history of constructions and assignments of process and material (objects, links, "
        "None, wrong types) over small pools of equal-looking specs and runs, against a model by "
        "identity; non-trivial: some object is reassigned away from a live target")
BUDGET = {"quick": 27000, "thorough": 250000}

BAD = ["str", "int", "list", "dict", "self", "other-side", "ingredient", "template", "uid-pair",
       "class"]


def strategies(tier):
    n = 14 if tier == "quick" else 40
    target = st.one_of(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2),
                       st.sampled_from(["none", "link", "link0"]))
    i = st.integers(0, 3)
    what = st.sampled_from(["ing", "ing", "mat", "mat", "meas", "meas"])
    op = st.one_of(
        st.tuples(st.just("set"), what, i, target),
        st.tuples(st.just("set"), what, i, target),
        st.tuples(st.just("set"), what, i, target),
        st.tuples(st.just("new"), what, i, target),
        st.tuples(st.just("bad"), what, i, st.sampled_from(BAD)),
        st.tuples(st.just("newbad"), what, i, st.sampled_from(BAD)),
        # an ingredient's material has no back-reference: it must not disturb anything
        st.tuples(st.just("imat"), st.just("ing"), i, target),
    ).map(list)
    return [(1, st.fixed_dictionaries({
        "side": st.sampled_from(["run", "run", "spec"]),
        "same": st.booleans(), "uids": st.booleans(),
        "ops": st.lists(op, min_size=1, max_size=n)}))]


def known():
    """The setters of the spec classes (see KNOWN_FINDINGS.txt)."""
    base = {"side": "spec", "same": False, "uids": False, "raw": True}
    return {
        "ingredient-spec-refused": dict(base, ops=[["set", "ing", 0, 0], ["bad", "ing", 0, "str"]]),
        "material-spec-refused": dict(base, ops=[["set", "mat", 0, 0], ["bad", "mat", 0, "str"]]),
        "material-spec-displaced": dict(base, ops=[["set", "mat", 0, 0], ["set", "mat", 1, 0],
                                                   ["set", "mat", 0, 1]]),
    }


def check(recipe, case):
    run = recipe["side"] == "run"
    P, M, I, E = ((ProcessRun, MaterialRun, IngredientRun, MeasurementRun) if run else
                  (ProcessSpec, MaterialSpec, IngredientSpec, MeasurementSpec))
    same = recipe["same"]
    count = [0]

    def kw(kind):
        count[0] += 1
        res = {}
        if kind != "ing" or not run:
            res["name"] = "x" if same else "x{}".format(count[0])
        elif not same:
            res["notes"] = str(count[0])
        if recipe["uids"]:
            res["uids"] = {"id": str(count[0])}
        return res

    procs = [P(**kw("proc")) for _ in range(3)]
    mats = [M(**kw("mat")) for _ in range(4)]
    ings = [I(**kw("ing")) for _ in range(4)]
    meass = [E(**kw("meas")) for _ in range(4)]
    pools = {"ing": ings, "mat": mats, "meas": meass}
    # the model: what each object points to; the order of each list; each process's output
    point = {}
    ing_of = {id(p): [] for p in procs}
    meas_of = {id(m): [] for m in mats}
    out = {id(p): None for p in procs}
    keep = []

    def cands(kind):
        return mats if kind == "meas" else procs

    def field(kind):
        return "material" if kind == "meas" else "process"

    def resolve(kind, t):
        if t == "none":
            return None
        if t == "link":
            return LinkByUID("somewhere", "else")
        if t == "link0":
            return LinkByUID("id", "1")
        c = cands(kind)
        return c[t % len(c)]

    def moved(kind, obj, new):
        old = point.get(id(obj))
        if old is not None and not isinstance(old, LinkByUID):
            case.label("left a live target")
            case.interesting()
            if kind == "ing":
                ing_of[id(old)] = [x for x in ing_of[id(old)] if x is not obj]
            elif kind == "meas":
                meas_of[id(old)] = [x for x in meas_of[id(old)] if x is not obj]
            elif out[id(old)] is obj:
                out[id(old)] = None
        point[id(obj)] = new
        if new is not None and not isinstance(new, LinkByUID):
            if kind == "ing":
                ing_of[id(new)].append(obj)
            elif kind == "meas":
                meas_of[id(new)].append(obj)
            else:
                if out[id(new)] is not None and out[id(new)] is not obj:
                    case.label("output displaced")
                    case.interesting()
                out[id(new)] = obj

    def bad_value(b, obj, kind):
        other = {True: ProcessSpec("x"), False: ProcessRun("x")}[run] if kind != "meas" else \
            MaterialSpec("x")
        return {"str": "x", "int": 3, "list": [procs[0]], "dict": {"id": "1"}, "self": obj,
                "other-side": other, "ingredient": ings[0],
                "template": ProcessTemplate("x"), "uid-pair": ("id", "1"), "class": P}[b]

    def agree(what):
        for p in procs:
            got = list(p.ingredients)
            want = ing_of[id(p)]
            require(sorted(map(id, got)) == sorted(map(id, want)),
                    "{}: a process lists {} ingredients, {} point to it (or they are others)",
                    what, len(got), len(want))
            o = p.output_material
            require(o is out[id(p)], "{}: a process's output is {} instead of {}", what,
                    None if o is None else mats.index(o) if any(o is m for m in mats) else "?",
                    None if out[id(p)] is None else "another")
            require(o is None or o.process is p, "{}: an output does not point back", what)
        for m in mats:
            if run:
                got = list(m.measurements)
                want = meas_of[id(m)]
                require(sorted(map(id, got)) == sorted(map(id, want)),
                        "{}: a material lists {} measurements, {} point to it (or others)",
                        what, len(got), len(want))
        for kind, pool in pools.items():
            if kind == "meas" and not run:
                continue
            for o in pool:
                now = getattr(o, field(kind))
                want = point.get(id(o))
                require(now is want, "{}: a {} points to {} instead of {}", what, kind,
                        type(now).__name__, type(want).__name__)

    agree("fresh objects")
    for op, kind, i, t in recipe["ops"]:
        if kind == "meas" and not run:
            kind = "mat"
        pool = pools[kind]
        obj = pool[i % len(pool)]
        if not run and "raw" not in recipe and op in ("set", "bad"):
            old = point.get(id(obj))
            if isinstance(old, P) and (op == "bad" or kind == "mat" and out[id(old)] is not None
                                       and out[id(old)] is not obj):
                case.label("known finding avoided")
                continue
        if op == "set":
            new = resolve(kind, t)
            setattr(obj, field(kind), new)
            moved(kind, obj, new)
        elif op == "imat":
            new = None if t == "none" else LinkByUID("a", "b") if isinstance(t, str) else mats[t]
            obj.material = new
            require(obj.material is new, "ingredient material not stored")
        elif op == "new":
            new = resolve(kind, t)
            fresh = type(obj)(**kw(kind), **{field(kind): new})
            keep.append(obj)
            if kind == "mat":
                meas_of[id(fresh)] = []
                out_ids = [id(p) for p in procs if out[id(p)] is obj]
                if out_ids or meas_of[id(obj)]:
                    pool.append(fresh)
                else:
                    pool[i % len(pool)] = fresh
            elif point.get(id(obj)) is not None:
                pool.append(fresh)
            else:
                pool[i % len(pool)] = fresh
            moved(kind, fresh, new)
        elif op == "bad":
            v = bad_value(t, obj, kind)
            expect_raises(TypeError, lambda: setattr(obj, field(kind), v),
                          "{}.{} = {}".format(type(obj).__name__, field(kind), t))
            case.label("refused")
        elif op == "newbad":
            v = bad_value(t, obj, kind)
            expect_raises(TypeError, lambda: type(obj)(**kw(kind), **{field(kind): v}),
                          "{}({}={})".format(type(obj).__name__, field(kind), t))
        case.label("op:{}:{}".format(op, kind))
        agree("after {} {} {}".format(op, kind, t))
