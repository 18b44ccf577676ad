"""C09: parsing a unit keeps its meaning and is canonical."""
from gemd.units import get_base_units, parse_units
from hypothesis import strategies as st

from .. import units_gen as ug
from ..core import Violation, require, short
from ..unit_math import Unreadable

RULE = ("a unit expression over all names, prefixes and scaling factors in two spellings, its "
        "meaning computed from a committed table by an independent reader, or a damaged "
        "expression; non-trivial: two or more terms, a prefix, a power or a scaling factor, or "
        "a refusal")
BUDGET = {"quick": 48000, "thorough": 600000}
ASSUMPTIONS = ["exponents have at most six significant digits (see KNOWN_FINDINGS.txt)",
               "logarithmic units (dB and kin) are not combined with others",
               "no juxtaposition of a parenthesis with a unit"]

DAMAGE = ["m/", "/m", "*m", "m*", "m**", "m^", "(m", "m)", "m:s", "m&s", "m=s", "m@s", "m,s",
          "2 m", "2.5 m/s", "10", "2", "-3 kg", "1e3 m", ".5 s", "2*m", "m 2", "m/s 2",
          "g/2.5 cm**2", "g/2.5 3 cm", "g/2.5 s^2", "m / 2 s²", "m**s", "m^kg", "m!", "m?", "m|s",
          "m\\s", "m;s", "[m]", "{m}", "m/(s", "m//", "m~s", "m<s", "10 * m", "2/s", "0 m", "m'",
          "$", "m$", "3 rpm", "m***2", "m/ /s", "m ** ** 2", "0.5 * kg", "2**2", "2**2 m"]


def strategies(tier):
    good = st.fixed_dictionaries({"x": ug.expression(), "a": ug.style(), "b": ug.style()})
    plain = st.fixed_dictionaries({"x": ug.expression(scaled=False, n=5), "a": ug.style(),
                                   "b": ug.style()})
    one = st.fixed_dictionaries({
        "x": st.tuples(st.just(0), st.none(), st.sampled_from(ug.LINEAR),
                       st.one_of(st.none(), st.integers(0, len(ug.PREFIXES) - 1)),
                       st.just(1)).map(lambda t: [list(t)]), "a": ug.style(), "b": ug.style()})
    bad = st.fixed_dictionaries({
        "bad": st.one_of(
            st.tuples(st.just("text"), st.sampled_from(DAMAGE)),
            st.tuples(st.just("name"), st.text("abcdefghijklmnopqrstuvwxyzXQ_", min_size=1,
                                               max_size=9)),
            st.tuples(st.just("swap"), st.sampled_from(ug.COMMON)),
            st.tuples(st.just("tail"), st.sampled_from(["/", "*", "**", "^", "(", ":", "&", ")",
                                                        " 2", "=", "**m", "/0", "!", "~"])),
            st.tuples(st.just("head"), st.sampled_from(["/", "*", "**", "2 ", "2.5 * ", "10**3 ",
                                                        "1e-3 ", "0 ", "-2 ", ":", "= ", ")"])),
            st.tuples(st.just("in"), st.sampled_from([":", "&", "|", "=", "@", "!", "~", ";",
                                                      "* *", "/ /", "/ *", "$", "?"])),
        ).map(list), "x": ug.expression(scaled=False, n=3, groups=False), "a": ug.style()})
    return [(4, good), (2, plain), (2, one), (3, bad)]


def fixed(tier):
    """Every name of every unit, and every prefix, in every spelling."""
    for name in ug.LINEAR:
        for k in range(len(ug.spellings(name))):
            yield {"x": [[0, None, name, None, 1]], "a": [k], "b": [0]}
    for p, pre in enumerate(ug.PREFIXES):
        for k in range(6):
            yield {"x": [[0, None, ["meter", "gram", "bit"][k % 3], p, 1]], "a": [k], "b": [k + 1]}


def known():
    return {"exponent-digits": {"text": "m**(1/3)", "factor": 1.0, "dims": {"meter": 1 / 3}},
            "exponent-digits-scale": {"text": "mm**(2/3)", "factor": 1e-3 ** (2 / 3),
                                      "dims": {"meter": 2 / 3}}}


def agree(text, want, case=None):
    got = parse_units(text)
    require(isinstance(got, str), "parse_units({}) gave a {}", text, type(got).__name__)
    try:
        m = ug.TABLE.evaluate(got)
    except Unreadable as e:
        raise Violation("parse_units({!r}) gave {!r}, which is not a unit expression ({})".format(
            text, got, e))
    require(ug.same_dims(m[1], want[1]), "parse_units({}) = {} has dimensions {} instead of {}",
            text, got, m[1], want[1])
    require(ug.close(m[0], want[0]), "parse_units({}) = {} has magnitude {} instead of {}", text,
            got, m[0], want[0])
    again = parse_units(got)
    require(again == got, "parse_units({}) = {} but parsing that gives {}", text, got, again)
    u = parse_units(text, return_unit=True)
    require(str(u) == got, "return_unit gives {} and the text {}", str(u), got)
    return got


def check(recipe, case):
    if "text" in recipe:
        agree(recipe["text"], (recipe["factor"], recipe["dims"]))
        return
    if "bad" in recipe:
        damaged(recipe, case)
        return
    x = recipe["x"]
    if ug.overflows(x):
        case.label("beyond floating point")
        return
    want = ug.meaning(x)
    if ug.odd_root(x):
        case.label("root of a negative number")
        return
    a = ug.render(x, recipe["a"])
    b = ug.render(x, recipe["b"])
    got = agree(a, want)
    other = agree(b, want)
    require(got == other, "{} and {} spell the same units but give {} and {}", a, b, got, other)
    base, ratio, offset = get_base_units(a)
    bm = ug.TABLE.evaluate(str(base))
    require(ug.same_dims(bm[1], want[1]) and ug.close(ratio * bm[0], want[0]),
            "get_base_units({}) = {} {}", a, ratio, str(base))
    case.label("terms:{}".format(len(x)))
    if any(isinstance(i, dict) for i in x):
        case.label("group")
    if any(not isinstance(i, dict) and i[1] for i in x):
        case.label("scaled")
    if a != b:
        case.label("two spellings")
    if len(x) > 1 or isinstance(x[0], dict) or x[0][1] or x[0][3] is not None or x[0][4] != 1:
        case.interesting()


def damaged(recipe, case):
    kind, d = recipe["bad"]
    text = ug.render(recipe["x"], recipe["a"])
    if kind == "text":
        text = d
    elif kind == "name":
        if ug.TABLE.readings(d) or ug.TABLE.readings(d.removeprefix("delta_")) or d == "_":
            return
        text = d if recipe["a"][0] % 2 else text + " / " + d
    elif kind == "swap":
        text = d.upper() if recipe["a"][0] % 2 else d.swapcase() + "X"
        if ug.TABLE.readings(text):
            return
    elif kind == "tail":
        text = text + d
    elif kind == "head":
        text = d + text
    elif kind == "in":
        text = text + d + "s"
    case.label("refused:" + kind)
    case.interesting()
    for fn in (parse_units, get_base_units):
        try:
            got = fn(text)
        except Exception:
            continue
        raise Violation("{}({!r}) is not a unit but gave {}".format(
            fn.__name__, text, short(got)))
