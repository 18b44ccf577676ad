"""C11: unit results depend only on arguments and current definitions."""
import math
import os

from hypothesis import strategies as st

from .. import units_gen as ug
from ..core import require
from ..proc import isolated

RULE = ("a history of parse, convert and base-unit calls, many with colliding scaling factors, and "
        "of switches between definition files (default, two small ones, rewritten, missing, "
        "malformed), run in one fresh process and compared call by call with the same call alone "
        "in a fresh process; non-trivial: an earlier call uses a scaling factor or a switch "
        "happens before the last call")
BUDGET = {"quick": 3600, "thorough": 24000}
ASSUMPTIONS = ["numbers agree to a relative 1e-12; errors agree in their type"]

POOL = ["m/2 s", "m/2", "m/.5 s", "m/-5 s", "m/5 s", "m/5. s", "mc_2", "k_2", "m/2 s²", "g/2.5 cm",
        "g/25 mm", "g/2_5 cm", "m / 2 / 2 s", "g * 2.5", "g/2.5", "_2_second", "gram / _2_second",
        "m/1e3 e", "m/1e-3 s", "m/10**3 s", "m/1e3 s", "m/1E3 s", "blarg", "bl", "foot", "ft",
        "kbl", "km", "m**2*10**3", "2 s", "(2 s)", "2.5", "2", "m/2.50 s", "m/2.5 s", "m/25 s",
        "m/0.25 s", "m / 2.5e3 s", "m/-2 s", "m/--2 s", "m/2.5 m", "m/2 mm", "m / 2 m / 2 mm",
        "m", "s", "g", "kg", "cm", "in", "inch", "", "m/1 s", "1/s", "m/0 s", "nope", "m:s",
        "m/2e3", "m/2e s", "g/2 e", "m/2 s*2 s", "m/-.5 s", "m/.5", "degC", "K", "degF", "Hz",
        "rpm", "m/2 km", "m/2 second", "m/2 seconds", "_2", "m/_2", "__5_second", "m/__5_second",
        "m k_2", "m/2 percent", "m/2 %", "-2 s", "m_2", "m/2 s s", "meter", "metre", "second"]
SMALL1 = """kilo- = 1e3 = k-
centi- = 1e-2 = c-
meter = [length] = m = metre
second = [time] = s
gram = [mass] = g
blarg = 3 * meter = bl
inch = 0.03 * meter = in
foot = 0.4 * meter = ft
hour = 50 * second = h
"""
SMALL2 = """kilo- = 1000 = k-
milli- = 1e-3 = m-
meter = [length] = m
second = [time] = s = metre
inch = 0.02 * meter = in
foot = 0.5 * meter = ft
hour = 100 * second
h = 7 * meter
blarg = 7 * meter / second = bl
"""
# calls whose answers tell the definition files apart
TELLING = [["parse", "metre"], ["unit", "metre"], ["base", "metre"], ["convert", 1, "foot", "m"],
           ["base", "foot"], ["base", "foot / s"], ["convert", 2.5, "inch", "foot / 1 m * 1 m"],
           ["convert", 2.5, "inch", "m"], ["base", "in"], ["convert", 1.0, "in", "cm"],
           ["parse", "blarg"], ["base", "blarg"], ["unit", "bl"], ["convert", 1, "bl", "m"],
           ["parse", "h"], ["base", "h"], ["unit", "m/2 h"], ["convert", 3, "m/hour", "m/s"],
           ["convert", 3, "m", "metre"], ["convert", 3, "s", "metre"], ["convert", 2, "s", "h"],
           ["convert", 2, "m", "h"], ["convert", 2, "m", "blarg"], ["convert", 2, "m/s", "blarg"],
           ["parse", "mm"], ["convert", 1, "km", "m"], ["base", "kft"]]
FILES = ["default", "one", "two", "moving", "missing", "malformed", "folder"]


def strategies(tier):
    n = 14 if tier == "quick" else 30
    unit = st.one_of(st.sampled_from(POOL), st.sampled_from(POOL),
                     st.tuples(ug.expression(n=2), ug.style()).map(lambda t: ug.render(*t)))
    num = st.sampled_from([1, 1.0, 2, 2.5, -1, 0, 100, 1e-3, True])
    call = st.one_of(
        st.tuples(st.just("parse"), unit), st.tuples(st.just("parse"), unit),
        st.tuples(st.just("unit"), unit), st.tuples(st.just("base"), unit),
        st.tuples(st.just("convert"), num, unit, unit),
        st.tuples(st.just("convert"), num, st.sampled_from(["m/s", "m", "g/cm", "cm", "m/2 s"]),
                  unit)).map(list)
    calls = st.lists(call, min_size=2, max_size=n)
    way = st.sampled_from([0, 0, 1, 1, 2])
    switch = st.tuples(st.just("switch"), st.sampled_from(FILES + ["default", "one", "two"]),
                       way).map(list)
    mixed = st.lists(st.one_of(call, call, switch), min_size=2, max_size=n)
    rename = st.lists(st.one_of(call, call, call, switch,
                                st.tuples(st.just("rewrite"), st.sampled_from(["one", "two"]))
                                .map(list)), min_size=2, max_size=n)
    # a few calls again and again, with switches between
    again = st.tuples(st.lists(st.one_of(call, st.sampled_from(TELLING), st.sampled_from(TELLING)),
                               min_size=1, max_size=3), switch, switch,
                      st.lists(st.integers(0, 9), min_size=4, max_size=n)).map(
        lambda t: [(t[0] + t[0] + [t[1], t[2]])[i % (2 * len(t[0]) + 2)] for i in t[3]])
    # the same file, edited and switched to again
    telling = st.lists(st.sampled_from(TELLING), min_size=1, max_size=4)
    edited = st.lists(st.tuples(st.sampled_from(["one", "two"]), way, st.booleans(),
                                telling), min_size=2, max_size=4).map(
        lambda r: [op for way, rel, go, calls in r for op in
                   [["rewrite", way]] + [["switch", "moving", rel]] * go + calls])
    return [(1, st.fixed_dictionaries({"ops": edited})),
            (4, st.fixed_dictionaries({"ops": again})),
            (5, st.fixed_dictionaries({"ops": calls})),
            (4, st.fixed_dictionaries({"ops": mixed})),
            (1, st.fixed_dictionaries({"ops": rename}))]


def folder():
    d = os.path.join(os.environ["VP_SCRATCH"], "defs")
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        for name, text in (("one", SMALL1), ("two", SMALL2),
                           ("malformed", "meter = [length] = m\nfoo = = 3\nbar = 2 ** meter ; x\n")):
            with open(os.path.join(d, name + ".txt"), "w") as f:
                f.write(text)
    return d


def prepare():
    folder()


def call(units, op):
    try:
        if op[0] == "parse":
            return ["ok", units.parse_units(op[1])]
        if op[0] == "unit":
            return ["ok", str(units.parse_units(op[1], return_unit=True))]
        if op[0] == "base":
            b, f, o = units.get_base_units(op[1])
            return ["ok", str(b), f, o]
        return ["ok", units.convert_units(op[1], op[2], op[3])]
    except Exception as e:
        return ["error", type(e).__name__]


def switch(units, name, d, relative=False):
    if name == "default":
        units.change_definitions_file()
        return
    path = os.path.join(d, name + ".txt") if name != "folder" else d
    units.change_definitions_file(spelled(path, relative))


def spelled(path, how):
    """A path as a text, relative to the working directory, or from the home directory."""
    if how == 2:
        os.environ["HOME"] = os.path.dirname(path)
        return "~/" + os.path.basename(path)
    return os.path.relpath(path) if how else path


def alone(name, op, d):
    """One call in a process that has never used units before."""
    import gemd.units as units
    if name != "default":
        switch(units, name, d)
    return call(units, op)


def history(ops, d, moving):
    import gemd.units as units
    here = os.path.join(os.path.dirname(d), "work")
    os.makedirs(here, exist_ok=True)
    os.chdir(here)
    res = []
    with open(moving, "w") as f:
        f.write(SMALL1)
    for op in ops:
        if op[0] == "rewrite":
            with open(moving, "w") as f:
                f.write(SMALL1 if op[1] == "one" else SMALL2)
            res.append(None)
        elif op[0] == "switch":
            try:
                if op[1] == "moving":
                    units.change_definitions_file(
                        spelled(moving, op[2]))
                else:
                    switch(units, op[1], d, op[2])
                res.append("switched")
            except Exception as e:
                res.append("failed " + type(e).__name__)
            require(os.getcwd() == os.path.realpath(here), "switching definitions changed the "
                    "working directory to {}", os.getcwd())
        else:
            res.append(call(units, op))
    return res


_memo = {}


def check(recipe, case):
    d = folder()
    moving = os.path.join(d, "moving-{}.txt".format(os.getpid()))
    ops = recipe["ops"]
    got = isolated(history, ops, d, moving)
    now = "default"
    disk = "one"
    for i, (op, res) in enumerate(zip(ops, got)):
        if op[0] == "rewrite":
            disk = op[1]
        elif op[0] == "switch":
            case.interesting()
            bad = op[1] in ("missing", "malformed", "folder")
            case.label("switch:" + op[1])
            require(res.startswith("failed") if bad else res == "switched",
                    "switching to the {} file: {}", op[1], res)
            if not bad:
                now = disk if op[1] == "moving" else op[1]
        else:
            key = (now, repr(op))
            if key not in _memo:
                _memo[key] = isolated(alone, now, op, d)
            want = _memo[key]
            case.label("call:" + op[0])
            if i and any(c.isdigit() for c in str(ops[i - 1][-1])):
                case.interesting()
            require(same(want, res), "{} under {} definitions gives {} in a fresh process, "
                    "but {} after {}", op, now, want, res, ops[:i])


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if not (x == y or math.isclose(x, y, rel_tol=1e-12, abs_tol=0.0)):
                return False
        elif x != y:
            return False
    return True
