"""C06: attribute values are checked against attribute templates at each level."""
from gemd.entity.bounds_validation import (WarningLevel, get_validation_level,
                                           set_validation_level, validation_level)
from gemd.entity.link_by_uid import LinkByUID
from gemd.json import GEMDJson
from hypothesis import strategies as st

from .. import build
from ..core import expect_raises, pick, require
from ..limits import within
from ..logs import judged
from .c05 import FAMILIES, KINDS, items

RULE = ("a history of constructions and assignments of values, templates (objects and links), "
        "template bounds and rebuilds on one attribute, each at its own validation level, or a "
        "tree of nested level blocks ending normally or by exception; non-trivial: some value is "
        "outside its bounds, or a block ends by exception or inside another")
BUDGET = {"quick": 18000, "thorough": 300000}
ASSUMPTIONS = ["a value within a relative 1e-9 of a bound given in another unit is not judged",
               "categorical values without a category are not given to attributes"]


def only(tag, strat):
    return strat.filter(lambda r: r[0] == tag).map(lambda r: r[1])


def pools():
    def of(t):
        kind, fam = t
        u = st.sampled_from(fam)
        b, v = only("bnd", items(kind, u)), only("val", items(kind, u))
        anyu = st.sampled_from([x for f in FAMILIES for x in f])
        stray = st.sampled_from(KINDS).flatmap(lambda k: items(k, anyu))
        return st.tuples(st.lists(b, min_size=1, max_size=3), st.lists(v, min_size=1, max_size=4),
                         st.lists(only("bnd", stray), max_size=1),
                         st.lists(only("val", stray), max_size=1)).map(
            lambda x: [x[0] + x[2], x[1] + x[3]])
    kinds = st.sampled_from(["real", "real", "int", "cat", "comp", "mol"])
    return st.tuples(kinds, st.sampled_from(FAMILIES)).flatmap(of)


def strategies(tier):
    lv = st.sampled_from([0, 1, 2, 2])
    i = st.integers(0, 4)
    oi = st.one_of(i, i, i, st.none())
    op = st.one_of(
        st.tuples(st.just("v"), lv, oi), st.tuples(st.just("v"), lv, i),
        st.tuples(st.just("t"), lv, oi), st.tuples(st.just("t"), lv, i),
        st.tuples(st.just("tl"), lv, i), st.tuples(st.just("new"), lv, oi, oi, st.booleans()),
        st.tuples(st.just("tb"), i, i), st.tuples(st.just("tm"), i, i),
        st.tuples(st.just("vm"), i, i), st.tuples(st.just("vm"), i, i),
        st.tuples(st.just("dict"), lv), st.tuples(st.just("json"), lv)).map(list)
    hist = st.fixed_dictionaries({"k": st.sampled_from("pcm"), "pools": pools(),
                                  "ops": st.lists(op, min_size=4, max_size=14)})
    leaf = st.fixed_dictionaries({"l": st.integers(0, 2)}, optional={
        "raise": st.booleans(), "with": st.integers(0, 5),
        "set": st.integers(0, 2), "bad": st.sampled_from([7, -1])})
    tree = st.recursive(leaf, lambda x: st.fixed_dictionaries(
        {"l": st.integers(0, 2), "body": st.lists(x, min_size=1, max_size=3)},
        optional={"raise": st.booleans(), "with": st.integers(0, 5), "catch": st.booleans(),
                  "set": st.integers(0, 2)}), max_leaves=8)
    levels = st.fixed_dictionaries({"start": st.integers(0, 2), "tree": tree})
    return [(6, hist), (1, levels)]


def check(recipe, case):
    if "tree" in recipe:
        levels(recipe, case)
    else:
        history(recipe, case)


# ---------------------------------------------------------------- attribute histories
def history(recipe, case):
    k = recipe["k"]
    bnds, vals = recipe["pools"][0], list(recipe["pools"][1])
    tmpls = [build.ATMPL[k]("t{}".format(i), bounds=build.bounds(b), uids={"id": str(i)})
             for i, b in enumerate(bnds)]
    cur = list(bnds)                       # bounds recipe each template has now
    values = [build.value(v) for v in vals]
    attr = build.ATTR[k]("x")
    mv, mt = None, None                    # index of value; index of template or "link"

    def conforms(vi, ti):
        if vi is None or ti is None or ti == "link":
            return True
        ok = within(vals[vi], cur[ti])
        case.label("within:{}".format(ok))
        if ok is False:
            case.interesting()
        return ok

    for step, op in enumerate(recipe["ops"]):
        name = op[0]
        if name == "v":
            vi = None if op[2] is None else op[2] % len(values)
            if judged(op[1], conforms(vi, mt), lambda: setattr(
                    attr, "value", None if vi is None else values[vi]),
                    what("value", vals, vi, cur, mt)):
                mv = vi
        elif name == "t":
            ti = None if op[2] is None else op[2] % len(tmpls)
            if judged(op[1], conforms(mv, ti), lambda: setattr(
                    attr, "template", None if ti is None else tmpls[ti]),
                    what("template", vals, mv, cur, ti)):
                mt = ti
        elif name == "tl":
            link = LinkByUID("id", str(op[2] % len(tmpls)))
            judged(op[1], True, lambda: setattr(attr, "template", link), "a link as template")
            mt = "link"
        elif name == "new":
            vi = None if op[2] is None else op[2] % len(values)
            ti = None if op[3] is None else op[3] % len(tmpls)
            made = []
            kw = {"value": None if vi is None else values[vi],
                  "template": None if ti is None else tmpls[ti]}
            if op[4]:
                kw = dict(reversed(list(kw.items())))
            if judged(op[1], conforms(vi, ti), lambda: made.append(build.ATTR[k]("x", **kw)),
                      what("construction", vals, vi, cur, ti)):
                attr, mv, mt = made[0], vi, ti
        elif name == "tb":
            ti, b = op[1] % len(tmpls), pick(bnds, op[2])
            tmpls[ti].bounds = build.bounds(b)
            cur[ti] = b
        elif name == "tm":
            ti, b = op[1] % len(tmpls), pick(bnds, op[2])
            if cur[ti][0] != b[0] or b[0] == "mol":
                continue
            mutate(tmpls[ti].bounds, b)
            cur[ti] = b
        elif name == "vm":
            # the value object itself is edited: its next check judges what it is now
            vi, v = op[1] % len(values), pick(vals, op[2])
            like = build.value(v)
            if type(values[vi]) is not type(like):
                continue
            build.become(values[vi], like)
            require(values[vi] == like, "assigning the fields of {} left {}", v, values[vi])
            vals[vi] = v
            case.label("value edited")
        elif name == "dict":
            made = []
            d = attr.as_dict()
            if judged(op[1], conforms(mv, mt), lambda: made.append(type(attr).from_dict(d)),
                      what("from_dict", vals, mv, cur, mt)):
                attr = made[0]
        elif name == "json":
            if mt == "link":
                continue
            made = []
            text = GEMDJson().dumps(attr)
            judged(op[1], conforms(mv, mt), lambda: made.append(GEMDJson().loads(text)),
                   what("loads", vals, mv, cur, mt))
            case.label("json")
        want_v = None if mv is None else values[mv]
        require(attr.value is want_v, "after step {} ({}) the value is {} instead of {}", step, op,
                attr.value, want_v)
        if mt == "link":
            require(isinstance(attr.template, LinkByUID), "the link template became {}",
                    attr.template)
        else:
            want_t = None if mt is None else tmpls[mt]
            require(attr.template is want_t, "after step {} ({}) the template is {}", step, op,
                    attr.template)
        require(get_validation_level() == WarningLevel.WARNING, "the level was not restored")


def what(route, vals, vi, cur, ti):
    return "{} with value {} and bounds {}".format(
        route, None if vi is None else vals[vi],
        ti if ti is None or ti == "link" else cur[ti])


def mutate(bounds, b):
    """Give live bounds the contents of recipe b of the same kind, through its setters."""
    if b[0] == "cat":
        bounds.categories = set(b[1])
    elif b[0] == "comp":
        bounds.components = set(b[1])
    else:
        if b[0] == "real":
            bounds.default_units = b[3]
        if b[1] <= bounds.upper_bound:
            bounds.lower_bound = b[1]
            bounds.upper_bound = b[2]
        else:
            bounds.upper_bound = b[2]
            bounds.lower_bound = b[1]


# ---------------------------------------------------------------- nested levels
class Stop(Exception):
    pass


class Halt(KeyboardInterrupt):
    pass


class Quit(SystemExit):
    pass


class Done(GeneratorExit):
    pass


class Last(StopIteration):
    pass


class Never(BaseException):
    pass


STOPS = (Stop, Halt, Quit, Done, Last, Never)


def levels(recipe, case):
    start = WarningLevel(recipe["start"])
    set_validation_level(recipe["start"])
    require(get_validation_level() == start, "set_validation_level({})", recipe["start"])
    try:
        block(recipe["tree"], case, 0)
    except STOPS:
        pass
    require(get_validation_level() == start, "the level is {} instead of {} after the blocks",
            get_validation_level(), start)


def block(node, case, depth):
    outer = get_validation_level()
    inside = WarningLevel(node["l"])
    if depth or node.get("raise"):
        case.interesting()
    case.label("blocks")

    def body():
        require(get_validation_level() == inside, "inside the block the level is {}, not {}",
                get_validation_level(), inside)
        if "bad" in node:
            expect_raises(ValueError, lambda: set_validation_level(node["bad"]), "a bad level")

            def enter():
                with validation_level(node["bad"]):
                    pass
            expect_raises(ValueError, enter, "a block at a bad level")
            require(get_validation_level() == inside, "a refused level took effect")
        here = inside
        for i, x in enumerate(node.get("body", [])):
            try:
                block(x, case, depth + 1)
            except STOPS:
                require(get_validation_level() == here, "the level is {} instead of {} after an "
                        "inner block ended by exception", get_validation_level(), here)
                if not node.get("catch"):
                    raise
            require(get_validation_level() == here, "the level is {} instead of {} after an inner "
                    "block", get_validation_level(), here)
        if "set" in node:
            set_validation_level(WarningLevel(node["set"]))
            require(get_validation_level() == node["set"], "setting the level inside a block")
        if node.get("raise"):
            raise STOPS[node.get("with", 0)]()

    try:
        with validation_level(node["l"]):
            body()
    finally:
        require(get_validation_level() == outer, "the level is {} instead of {} after a block",
                get_validation_level(), outer)
