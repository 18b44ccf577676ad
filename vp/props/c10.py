"""C10: unit conversion is the exact affine map of the definitions."""
from gemd.units import IncompatibleUnitsError, convert_units, get_base_units
from hypothesis import strategies as st

from .. import units_gen as ug
from ..core import expect_raises, require

RULE = ("a number and three expressions of the same dimension built from different units (or two "
        "of different dimension), factors and offsets from a committed table; non-trivial: the "
        "units differ in magnitude or offset, or the pair must be refused")
BUDGET = {"quick": 48000, "thorough": 400000}
ASSUMPTIONS = ["agreement to a relative 2e-13 (to the largest term where offsets are involved)",
               "logarithmic units are not converted"]


def dims_key(name):
    return tuple(sorted((k, round(v, 6)) for k, v in ug.TABLE.units[name]["dims"].items()))


KIN = {}
for _n in ug.PLAIN + ["kelvin"]:
    KIN.setdefault(dims_key(_n), []).append(_n)
TEMP = ["kelvin"] + ug.OFFSET
SPECIAL = ["radian", "bit", "count", "percent", "parts_per_million", "turn", "byte", "degree",
           "steradian", "baud", "hertz", "revolutions_per_minute", "counts_per_second",
           "becquerel", "refractive_index_unit", "lumen", "candela", "fine_structure_constant",
           "pi", "avogadro_number", "bits_per_pixel", "pixels_per_inch", "kelvin"]


def number():
    return st.one_of(st.sampled_from([0, 1, -1, 0.0, 1.0, 100, 1e-6, 1e6, 273.15, -273.15, 37,
                                      0.1, 1 / 3]),
                     st.integers(-1000, 1000),
                     st.floats(min_value=-1e9, max_value=1e9, allow_nan=False).map(
                         lambda f: f if abs(f) > 1e-9 else 0.0))


def kin():
    """Per term: which relatives and prefixes replace it in the second and third expressions."""
    return st.lists(st.tuples(st.integers(0, 40), st.one_of(st.none(), st.sampled_from(ug.USUAL)))
                    .map(list), min_size=1, max_size=4)


def strategies(tier):
    pair = st.fixed_dictionaries({
        "x": ug.expression(n=3, groups=False), "y": kin(), "z": kin(), "v": number(),
        "a": ug.style(), "sy": st.sampled_from([None, None, "2", "2.5", "1e3", "0.25"])})
    temp = st.fixed_dictionaries({
        "t": st.lists(st.tuples(st.sampled_from(TEMP), st.integers(0, 6)).map(list), min_size=3,
                      max_size=3), "v": number()})
    apart = st.fixed_dictionaries({
        "x": ug.expression(n=2, groups=False), "other": ug.expression(n=2, groups=False),
        "v": number(), "a": ug.style()})
    special = st.fixed_dictionaries({
        "x": st.tuples(st.just(0), st.none(), st.sampled_from(SPECIAL), st.none(),
                       st.sampled_from([1, 1, 1, 2, -1])).map(lambda t: [list(t)]),
        "other": st.tuples(st.just(0), st.none(), st.one_of(st.sampled_from(SPECIAL), st.none()),
                           st.none(), st.sampled_from([1, 1, 1, 2, -1])).map(
            lambda t: [list(t)] if t[2] else []),
        "v": number(), "a": ug.style()})
    return [(5, pair), (2, temp), (2, apart), (2, special)]


def fixed(tier):
    """Every unit against each relative of its dimension."""
    for names in KIN.values():
        for i, n in enumerate(names):
            for k in (1, 2, 5):
                yield {"x": [[0, None, n, None, 1]], "y": [[i + k, None]], "z": [[i + 2 * k, None]],
                       "v": 3.7, "a": [0], "sy": None}
    for a in TEMP:
        for b in TEMP:
            yield {"t": [[a, 0], [b, 0], ["kelvin", 0]], "v": 25.0}
            yield {"t": [[a, 1], [b, 2], [a, 3]], "v": -40}
    for i, a in enumerate(SPECIAL):
        for b in SPECIAL[i:]:
            yield {"x": [[0, None, a, None, 1]], "other": [[0, None, b, None, 1]], "v": 1.5,
                   "a": [0]}
        yield {"x": [[0, None, a, None, 1]], "other": [], "v": 1.5, "a": [0]}


def replaced(x, choice):
    out = []
    for i, (op, scale, name, prefix, e) in enumerate(x):
        k, p = choice[i % len(choice)]
        if name is not None:
            c = KIN[dims_key(name)]
            name, prefix = c[k % len(c)], p
        out.append([op, scale, name, prefix, e])
    return out


def check(recipe, case):
    v = recipe["v"]
    if "t" in recipe:
        temperatures(recipe, case, v)
    elif "other" in recipe:
        apart(recipe, case, v)
    else:
        x = recipe["x"]
        y, z = replaced(x, recipe["y"]), replaced(x, recipe["z"])
        if recipe["sy"]:
            y = y + [[1, recipe["sy"], None, None, 1]]
        if ug.overflows(x) or ug.overflows(y) or ug.overflows(z):
            case.label("beyond floating point")
            return
        fx, fy, fz = ug.meaning(x)[0], ug.meaning(y)[0], ug.meaning(z)[0]
        if any(isinstance(f, complex) for f in (fx, fy, fz)) or any(
                ug.odd_root(q) for q in (x, y, z)):
            return
        tx, ty, tz = (ug.render(q, recipe["a"]) for q in (x, y, z))
        case.label("linear")
        if not ug.close(fx, fy):
            case.interesting()
        affine(v, (tx, fx, 0.0), (ty, fy, 0.0), (tz, fz, 0.0))


def affine(v, X, Y, Z):
    """v in X; all three of one dimension, given as (text, factor, offset)."""
    scale = max(abs(v * X[1]), abs(X[2]), abs(Y[2]), abs(Z[2]))

    def near(got, want, unit, what):
        slack = 2e-13 * max(scale / abs(unit[1]), abs(want))
        require(isinstance(got, (int, float)) and abs(got - want) <= slack,
                what + ": {} instead of {}", got, want)
    want_y = (v * X[1] + X[2] - Y[2]) / Y[1]
    got_y = convert_units(v, X[0], Y[0])
    near(got_y, want_y, Y, "{} {} in {}".format(v, X[0], Y[0]))
    near(convert_units(got_y, Y[0], X[0]), v, X, "{} {} there and back via {}".format(
        v, X[0], Y[0]))
    got_z = convert_units(v, X[0], Z[0])
    near(convert_units(got_y, Y[0], Z[0]), got_z, Z, "{} {} in {} via {}".format(
        v, X[0], Z[0], Y[0]))
    base, ratio, offset = get_base_units(X[0])
    b = str(base)
    fb = ug.TABLE.evaluate(b)[0]
    require(ug.close(ratio, X[1] / fb), "get_base_units({}) has factor {} instead of {}", X[0],
            ratio, X[1] / fb)
    require(abs(offset - X[2] / fb) <= 1e-9 * max(1.0, abs(X[2])),
            "get_base_units({}) has offset {} instead of {}", X[0], offset, X[2] / fb)
    near(convert_units(v, X[0], b), v * ratio + offset, (b, fb, 0.0),
         "{} {} in base units {}".format(v, X[0], b))
    require(convert_units(v, X[0], X[0]) == v, "converting {} {} to itself changes it", v, X[0])


def temperatures(recipe, case, v):
    tri = []
    for name, k in recipe["t"]:
        u = ug.TABLE.units[name]
        tri.append((ug.word(name, None, k), u["factor"], u["offset"]))
    case.label("temperature")
    if tri[0][0] != tri[1][0]:
        case.interesting()
    affine(v, *tri)


def apart(recipe, case, v):
    x, y = recipe["x"], recipe["other"]
    if ug.overflows(x) or ug.overflows(y):
        return
    mx, my = ug.meaning(x), ug.meaning(y)
    if ug.odd_root(x) or ug.odd_root(y):
        return
    tx, ty = ug.render(x, recipe["a"]), ug.render(y, recipe["a"])
    if ug.same_dims(mx[1], my[1]):
        case.label("same dimension")
        affine(v, (tx, mx[0], 0.0), (ty, my[0], 0.0), (tx, mx[0], 0.0))
        return
    case.label("refused")
    case.interesting()
    expect_raises(IncompatibleUnitsError, lambda: convert_units(v, tx, ty),
                  "converting {} {} to {}".format(v, tx, ty))
    expect_raises(IncompatibleUnitsError, lambda: convert_units(v, ty, tx),
                  "converting {} {} to {}".format(v, ty, tx))
