"""C05: bounds form a containment order with unions as least upper bounds."""
from gemd.units import IncompatibleUnitsError
from hypothesis import strategies as st

from .. import build, gens, model
from ..core import expect_raises, require
from ..limits import contained, convertible, slack, sort_of, to

RULE = ("a bounds object and 1-4 further bounds or values of the same or another kind, unit or "
        "sort, compared with sets and intervals computed apart; non-trivial: the operands differ, "
        "or a refusal is due")
BUDGET = {"quick": 48000, "thorough": 400000}
ASSUMPTIONS = ["across different units, comparisons closer than a relative 1e-9 are not judged"]

FAMILIES = [["m", "cm", "inch", "km", "um"], ["degC", "K", "degF"], ["", "percent", "ppm"],
            ["g/cm^3", "kg/m^3", "g / 2.5 cm^3".replace("^3", "") + "/cm/cm", "lb/ft^3"],
            ["rad", "degree"], ["s", "minute", "hour"], ["Hz", "1/minute"], ["rpm", "rad/s"],
            ["bit", "byte"], ["count"]]
NUMS = [0, 1, -1, 2, 5, 10, 100, 0.5, 2.5, 0.01, 1e6, 1e-6, 273.15, -40, 37.7777, 0.1, 1 / 3,
        254.0, 2.54, 1000, 0.3, 3600, 60]


def rnum():
    return st.one_of(st.sampled_from(NUMS), st.sampled_from(NUMS),
                     st.floats(-1e6, 1e6).map(lambda f: round(f, 3)))


def real_item(unit):
    sp = st.tuples(rnum(), rnum()).map(sorted)
    return st.one_of(
        st.tuples(sp, unit).map(lambda t: ["bnd", ["real", t[0][0], t[0][1], t[1]]]),
        st.tuples(sp, unit).map(lambda t: ["bnd", ["real", t[0][0], t[0][1], t[1]]]),
        st.tuples(st.just("nr"), rnum(), unit).map(lambda t: ["val", list(t)]),
        st.tuples(st.just("norm"), rnum(), rnum(), unit).map(lambda t: ["val", list(t)]),
        st.tuples(sp, unit).map(lambda t: ["val", ["ur", t[0][0], t[0][1], t[1]]]))


def items(kind, unit=None):
    if kind == "real":
        return real_item(unit)
    if kind == "int":
        i = st.one_of(st.integers(-4, 4), gens.integer())
        sp = st.tuples(i, i).map(sorted)
        return st.one_of(sp.map(lambda t: ["bnd", ["int", t[0], t[1]]]),
                         i.map(lambda x: ["val", ["ni", x]]),
                         sp.map(lambda t: ["val", ["ui", t[0], t[1]]]))
    if kind == "cat":
        c = st.lists(st.sampled_from(["a", "b", "c", "A", ""]), max_size=4, unique=True)
        return st.one_of(
            c.map(lambda x: ["bnd", ["cat", x]]),
            st.sampled_from(["a", "b", "c", "A", ""]).map(lambda x: ["val", ["nc", x]]),
            c.filter(bool).map(lambda x: ["val", ["dc", [[k, 1 / len(x)] for k in x]]]),
            c.filter(bool).map(lambda x: ["val", ["dc", [[k, 0.0] for k in x[1:]] + [[x[0], 1.0]]]]))
    if kind == "comp":
        c = st.lists(st.sampled_from(["H", "O", "Na", "Cl", "C"]), max_size=4, unique=True)
        return st.one_of(
            c.map(lambda x: ["bnd", ["comp", x]]),
            c.filter(bool).map(lambda x: ["val", ["ef", "".join(e + "2" for e in x)]]),
            c.map(lambda x: ["val", ["comp", [[k, 1.0] for k in x]]]))
    return st.sampled_from([["bnd", ["mol"]], ["val", ["smiles", "CC"]],
                            ["val", ["inchi", "InChI=1S/CH4/h1H4"]]])


KINDS = ["real", "int", "cat", "comp", "mol"]


def strategies(tier):
    same = st.sampled_from(KINDS[:4]).flatmap(lambda k: pool(k))
    fam = st.sampled_from(FAMILIES).flatmap(
        lambda f: st.lists(items("real", st.sampled_from(f)), min_size=2, max_size=5))
    odd = st.tuples(
        st.lists(st.sampled_from(KINDS).flatmap(lambda k: items(k, st.sampled_from(
            [u for f in FAMILIES for u in f]))), min_size=2, max_size=4),
        st.lists(st.sampled_from(["none", "str", "int", "list", "class"]), max_size=1)).map(
        lambda t: t[0] + [["junk", j] for j in t[1]])
    mol = st.lists(items("mol"), min_size=2, max_size=3)

    def rec(d):
        return st.fixed_dictionaries(dict(d, turned=st.booleans()))
    return [(5, rec({"ops": same})), (5, rec({"ops": fam})), (4, rec({"ops": odd})),
            (1, rec({"ops": mol}))]


def pool(kind):
    unit = st.sampled_from(["m"])
    return st.lists(items(kind, unit), min_size=2, max_size=5)


JUNK = {"none": None, "str": "a", "int": 3, "list": [1], "class": int}


def make(r):
    return build.bounds(r[1]) if r[0] == "bnd" else build.value(r[1]) if r[0] == "val" \
        else JUNK[r[1]]


def turned(ops):
    """The operands, each made as another of its class and then given its own fields."""
    objs, same = [], {}
    for r in ops:
        same.setdefault(type(make(r)), []).append(r)
    for r in ops:
        group = same[type(make(r))]
        objs.append(make(r if r[0] == "junk" else group[(group.index(r) + 1) % len(group)]))
    bnds = [o for o, r in zip(objs, ops) if r[0] == "bnd"]
    for b in bnds:
        for o in objs:
            for fn in (b.contains, b.union):
                try:
                    fn(o)
                except (TypeError, ValueError):
                    pass
    for o, r in zip(objs, ops):
        if r[0] != "junk":
            build.become(o, make(r))
    return objs


def look(x):
    return None if x is None or isinstance(x, (str, int, list, type)) else model.plain(x, None)


def check(recipe, case):
    ops = recipe["ops"]
    objs = turned(ops) if recipe.get("turned") else [make(r) for r in ops]
    if recipe.get("turned"):
        case.label("edited operands")
        require([look(o) for o in objs] == [look(make(r)) for r in ops], "assigning the fields of "
                "{} left {}", ops, objs)
    sorts = [sort_of(r) for r in ops]
    before = [look(o) for o in objs]
    bnds = [i for i, r in enumerate(ops) if r[0] == "bnd"]
    if len({repr(r) for r in ops}) > 1:
        case.interesting()

    # containment, every ordered pair
    for i in bnds:
        for j, o in enumerate(objs):
            if ops[j][0] == "junk":
                if ops[j][1] == "none":
                    require(objs[i].contains(None) is False, "None is contained")
                else:
                    expect_raises(TypeError, lambda: objs[i].contains(o), "contains(junk)")
                continue
            want = contained(sorts[j], sorts[i])
            got = objs[i].contains(o)
            if want is None:
                case.label("too close to call")
                continue
            case.label("contains:{}".format(want))
            require(got is want, "{} contains {}: {} instead of {}", ops[i][1], ops[j][1], got,
                    want)
    require([look(o) for o in objs] == before, "containment changed an operand")

    # union and update, from each bounds operand
    for i in bnds[:2]:
        others = [k for k in range(len(objs)) if k != i]
        args = [objs[k] for k in others]
        kind, p = sorts[i]
        target = make(ops[i])
        wrong = any(sorts[k][0] != kind for k in others)
        clash = kind == "real" and not wrong and any(
            not convertible(sorts[k][1][2], p[2]) for k in others)
        if wrong or clash:
            exc = TypeError if wrong else IncompatibleUnitsError
            case.label("union refused")
            case.interesting()
            expect_raises(exc, lambda: objs[i].union(*args), "union of {}".format(ops))
            expect_raises(exc, lambda: target.update(*args), "update of {}".format(ops))
            require(look(target) == before[i], "a refused update changed the bounds")
        else:
            case.label("union")
            res = objs[i].union(*args)
            require(type(res) is type(objs[i]), "union made a {}", type(res).__name__)
            require(res is not objs[i], "union returned its operand")
            smallest(res, kind, [p] + [sorts[k][1] for k in others], objs[i], ops)
            require(target.update(*args) is None, "update returned something")
            require(look(target) == look(res), "update gives {} and union {}", look(target),
                    look(res))
            for k in [i] + others:
                same_unit = kind != "real" or all(sorts[m][1][2] == p[2] for m in others)
                if same_unit:
                    require(res.contains(objs[k]) is True, "a union does not contain {}", ops[k])
        require([look(o) for o in objs] == before, "union changed an operand")


def smallest(res, kind, ps, first, ops):
    if kind == "mol":
        return
    if kind == "int":
        require((res.lower_bound, res.upper_bound) == (min(p[0] for p in ps),
                                                       max(p[1] for p in ps)),
                "union of {} is [{}, {}]", ops, res.lower_bound, res.upper_bound)
    elif kind in ("cat", "comp"):
        got = res.categories if kind == "cat" else res.components
        require(set(got) == frozenset().union(*ps), "union of {} is {}", ops, got)
        was = look(first)
        got.add("somewhere else")
        require(look(first) == was, "the union shares its set with an operand")
        got.discard("somewhere else")
    else:
        u = ps[0][2]
        require(res.default_units == first.default_units, "union is in {} instead of {}",
                res.default_units, first.default_units)
        lo = min(to(p[0], p[2], u) for p in ps)
        hi = max(to(p[1], p[2], u) for p in ps)
        tol = max(slack(to(x, p[2], u), p[2], u) for p in ps for x in p[:2])
        require(abs(res.lower_bound - lo) <= tol and abs(res.upper_bound - hi) <= tol,
                "union of {} is [{}, {}] instead of [{}, {}]", ops, res.lower_bound,
                res.upper_bound, lo, hi)
