"""C08: ingredient quantities respect their physical limits."""
from gemd.entity.object import IngredientRun, IngredientSpec
from gemd.json import GEMDJson
from hypothesis import strategies as st

from .. import build
from ..core import expect_raises, require
from ..limits import convertible, to, unit
from ..logs import judged
from gemd.entity.bounds_validation import WarningLevel, validation_level

RULE = ("a history of constructions, assignments and rebuilds of the four quantities of an "
        "ingredient spec or run with continuous values of any unit, None and other things, each "
        "at its own level; non-trivial: a quantity is outside its limits or of the wrong type")
BUDGET = {"quick": 30000, "thorough": 300000}
ASSUMPTIONS = ["a value within a relative 1e-12 of a limit given in another unit is not judged"]

FIELDS = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
DIMLESS = ["", "dimensionless", "percent", "ppm", "%", "g/kg", "m/cm", "kg/kg", "mol/mol"]
OTHER = ["kg", "g", "mol", "m^3", "L", "kg/m^3", "degC", "K", "degF", "count", "rad", "bit", "1/s",
         "percent*kg", "mg"]
NUMS = [0, 0.0, -0.0, 1, 1.0, 0.5, 0.25, 2, -1, 1e-9, -1e-9, 1.0000001, 100, 100.0, 50, 101, 1e6,
        1e-300, -1e-300, 1e300, 1.7e308, 1.7976931348623157e308, 1e306, 0.9999999, 1000, 2000, 5e-324, -5e-324, 1 + 2 ** -52, 1 + 1e-14,
        1 + 1e-12, 1 + 1e-10, 1 + 1e-8, 1 - 2 ** -53, -1e-12, -1e-16, 100 * (1 + 1e-11),
        100 * (1 + 1e-9), 1000 * (1 + 1e-11), 1000 * (1 + 1e-9)]
JUNK = {"float": 0.5, "int": 1, "str": "0.5 kg", "cat": ["nc", "a"], "ni": ["ni", 0],
        "ui": ["ui", 0, 1], "ef": ["ef", "H2O"], "list": [0.5], "dict": {"nominal": 0.5},
        "false": False, "class": float, "tuple": (0.1, "kg"), "zero": 0, "empty": ""}


def strategies(tier):
    n = st.one_of(st.sampled_from(NUMS), st.sampled_from(NUMS), st.floats(-2, 2),
                  st.floats(allow_nan=False, allow_infinity=False))
    u = st.one_of(st.sampled_from(DIMLESS), st.sampled_from(DIMLESS), st.sampled_from(OTHER))
    v = st.one_of(st.tuples(st.just("nr"), n, u).map(list),
                  st.tuples(st.just("norm"), n, n, u).map(list),
                  st.tuples(st.tuples(n, n).map(lambda t: sorted(t, key=float)), u).map(
                      lambda t: ["ur", t[0][0], t[0][1], t[1]]))
    x = st.one_of(v, v, v, v, v, st.none(), st.sampled_from(sorted(JUNK)))
    lv = st.sampled_from([0, 1, 2, 2])
    f = st.sampled_from(FIELDS)
    good = st.dictionaries(f, st.one_of(v, v, st.none()), max_size=2)
    op = st.one_of(st.tuples(st.just("set"), lv, f, x), st.tuples(st.just("set"), lv, f, x),
                   # the value object of one quantity, its number edited, assigned (again)
                   st.tuples(st.just("again"), lv, f, f, st.one_of(st.none(), n)),
                   st.tuples(st.just("new"), lv, good), st.tuples(st.just("dict"), lv),
                   st.tuples(st.just("json"), lv),
                   st.tuples(st.just("newbad"), lv, f, st.sampled_from(sorted(JUNK)))).map(list)
    return [(1, st.fixed_dictionaries({"run": st.booleans(),
                                       "ops": st.lists(op, min_size=1, max_size=8)}))]


def span(v):
    """(low, high, unit) a quantity occupies: the whole range if uniform, else its centre."""
    return (v[1], v[2], v[3]) if v[0] == "ur" else (v[1], v[1], v[-1])


def conforms(field, v):
    lo, hi, u = span(v)
    dimless = convertible(u, "")
    if field == "absolute_quantity":
        return not dimless and lo >= 0
    if not dimless:
        return False
    if unit(u)[0] == 1:
        return lo >= 0 and hi <= 1
    one = to(1.0, "", u)
    verdict = True
    for d, scale in ((lo, abs(lo)), (one - hi, one)):
        if 0 < abs(d) <= 1e-12 * scale:
            verdict = None              # d == 0, as in 100 percent, is within the limits
        elif d < 0:
            return False
    return verdict


def junk(name):
    j = JUNK[name]
    return build.value(j) if isinstance(j, list) and isinstance(j[0], str) else j


def make(run, kw):
    return IngredientRun(**kw) if run else IngredientSpec("i", **kw)


def edited(rec, v, x):
    """Give the live value another number (a uniform one another upper bound)."""
    if rec[0] == "ur":
        x = max(x, rec[1])
        v.upper_bound = x
        return ["ur", rec[1], x, rec[3]]
    if rec[0] == "nr":
        v.nominal = x
    else:
        v.mean = x
    return [rec[0], x] + list(rec[2:])


def check(recipe, case):
    run = recipe["run"]
    obj = make(run, {})
    state = {f: None for f in FIELDS}            # (recipe, live value) or None

    def all_ok():
        vs = [conforms(f, s[0]) for f, s in state.items() if s]
        return False if False in vs else None if None in vs else True

    for step, op in enumerate(recipe["ops"]):
        name, lv = op[0], op[1]
        if name == "set":
            f, x = op[2], op[3]
            if isinstance(x, str):
                case.label("wrong type")
                case.interesting()
                with validation_level(WarningLevel(lv)):
                    expect_raises(TypeError, lambda: setattr(obj, f, junk(x)),
                                  "{} = {}".format(f, JUNK[x]))
            elif x is None:
                judged(lv, True, lambda: setattr(obj, f, None), f + " = None")
                state[f] = None
            else:
                ok = conforms(f, x)
                case.label("{}:{}".format("absolute" if f[0] == "a" else "fraction", ok))
                if ok is False:
                    case.interesting()
                v = build.value(x)
                if judged(lv, ok, lambda: setattr(obj, f, v), "{} = {}".format(f, x)):
                    state[f] = (x, v)
        elif name == "again":
            src, f, x = op[2], op[3], op[4]
            if state[src] is None:
                continue
            rec, v = state[src]
            if x is not None:
                rec = edited(rec, v, x)
                for k in FIELDS:
                    if state[k] and state[k][1] is v:
                        state[k] = (rec, v)
            ok = conforms(f, rec)
            case.label("edited and assigned:{}".format(ok))
            if ok is False:
                case.interesting()
            if judged(lv, ok, lambda: setattr(obj, f, v), "{} = the edited {}".format(f, rec)):
                state[f] = (rec, v)
        elif name == "new":
            vs = [conforms(f, x) for f, x in op[2].items() if x is not None]
            ok = False if False in vs else None if None in vs else True
            case.label("construct:{}".format(ok))
            kw = {f: build.value(x) for f, x in op[2].items()}
            made = []
            if judged(lv, ok, lambda: made.append(make(run, kw)), "constructing with {}".format(
                    op[2])):
                obj = made[0]
                state = {f: (op[2][f], kw[f]) if op[2].get(f) else None for f in FIELDS}
        elif name == "newbad":
            with validation_level(WarningLevel(lv)):
                expect_raises(TypeError, lambda: make(run, {op[2]: junk(op[3])}),
                              "constructing with {} = {}".format(op[2], JUNK[op[3]]))
        elif name == "dict":
            d = obj.as_dict()
            made = []
            if judged(lv, all_ok(), lambda: made.append(type(obj).from_dict(d)), "from_dict"):
                obj = made[0]
        elif name == "json":
            text = GEMDJson().dumps(obj)
            made = []
            if judged(lv, all_ok(), lambda: made.append(GEMDJson().loads(text)), "loads"):
                case.label("json")
                for f in FIELDS:
                    require(getattr(made[0], f) == getattr(obj, f),
                            "{} changed from {} to {} in JSON", f, getattr(obj, f),
                            getattr(made[0], f))
        for f in FIELDS:
            want = state[f] and state[f][1]
            require(getattr(obj, f) is want, "after step {} ({}) {} is {} instead of {}", step, op,
                    f, getattr(obj, f), want)
