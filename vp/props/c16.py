"""C16: values and bounds never hold an invalid state."""
import copy
import math
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd
from gemd.entity.bounds import CategoricalBounds, CompositionBounds, IntegerBounds, RealBounds
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal, Smiles,
                               UniformInteger, UniformReal)
from gemd.json import GEMDJson
from gemd.units import parse_units
from hypothesis import strategies as st

from .. import units_gen as ug
from ..core import Violation, require, short
from ..model import TYP

RULE = ("a value or bounds class, a construction and up to eight assignments with numbers of every "
        "magnitude and kind, texts, collections and junk; non-trivial: an invalid argument, a "
        "number beyond 2**53, or an assignment after a refused one")
BUDGET = {"quick": 72000, "thorough": 600000}
ASSUMPTIONS = ["numbers that are neither int nor float may be refused or accepted, but never break "
               "the invariant", "attributes without a setter of their own (nominal, mean, std and "
               "the limits of real values) are checked at construction only",
               "negative probabilities, infinite real values and text without capital letters in "
               "formulas are not judged"]

ELEMENTS = """H D T He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn
Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba Hf Ta W Re Os Ir Pt Au
Hg Tl Pb Bi Po At Rn Fr Ra Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og La Ce Pr Nd Pm Sm Eu Gd Tb
Dy Ho Er Tm Yb Lu Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr""".split()
KNOWN = frozenset(ELEMENTS)
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = UPPER.lower()
GOOD_UNITS = ["", "m", "g/cm^3", "degC", "kg", "percent", "J/mol/K", "1/s", "K", "mm", "ug",
              "dimensionless", "m**2", "cm*g", "degF", "GPa", "mol/l", "Å", "µm"]
BAD_UNITS = ["notaunit", "m/", "kg q_q", "(m", "m)", "foo/bar", "m^", "meterz z", "g/cm^^3",
             "$", "kg per", "m s^-x"]
OK, BAD, ANY = "ok", "bad", "any"

CLASSES = {
    "real_bounds": (RealBounds, {"lower_bound": "rlo", "upper_bound": "rhi",
                                 "default_units": "unit"}),
    "integer_bounds": (IntegerBounds, {"lower_bound": "ilo", "upper_bound": "ihi"}),
    "categorical_bounds": (CategoricalBounds, {"categories": "set"}),
    "composition_bounds": (CompositionBounds, {"components": "set"}),
    "nominal_real": (NominalReal, {"nominal": "num", "units": "unit"}),
    "normal_real": (NormalReal, {"mean": "free", "std": "free", "units": "unit"}),
    "uniform_real": (UniformReal, {"lower_bound": "ulo", "upper_bound": "uhi", "units": "unit"}),
    "nominal_integer": (NominalInteger, {"nominal": "int"}),
    "uniform_integer": (UniformInteger, {"lower_bound": "ilo", "upper_bound": "ihi"}),
    "nominal_categorical": (NominalCategorical, {"category": "text"}),
    "discrete_categorical": (DiscreteCategorical, {"probabilities": "probs"}),
    "empirical_formula": (EmpiricalFormula, {"formula": "formula"}),
    "nominal_composition": (NominalComposition, {"quantities": "quant"}),
    "inchi": (InChI, {"inchi": "inchi"}),
    "smiles": (Smiles, {"smiles": "text"}),
}
# set at construction only
PLAIN = {"num", "free", "ulo", "uhi"}


# -- generation: an argument is ["kind", data]
def numbers():
    big = [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, -2 ** 53 - 1, 2 ** 63, 10 ** 30, 10 ** 30 + 1,
           -10 ** 40, 10 ** 308, 10 ** 309, 10 ** 400, -10 ** 400]
    fl = [0.0, -0.0, 0.5, -0.5, 1e-300, 5e-324, 1e16, 2.0 ** 53, 2.0 ** 54, 1e22, 1e300, -1e300,
          1.7976931348623157e308, 3.0, -3.0, 1.0000000000000002, 2.9999999999999996]
    return st.one_of(
        st.sampled_from(big).map(lambda v: ["n", v]), st.sampled_from(fl).map(lambda v: ["n", v]),
        st.integers(-4, 6).map(lambda v: ["n", v]), st.integers(-4, 6).map(lambda v: ["n", float(v)]),
        st.integers(-4, 6).map(lambda v: ["n", v]), st.integers().map(lambda v: ["n", v]),
        st.floats().map(lambda v: ["n", v]),
        st.sampled_from([math.nan, math.inf, -math.inf]).map(lambda v: ["n", v]),
        st.tuples(st.integers(-9, 9), st.integers(1, 3)).map(lambda t: ["frac", list(t)]),
        st.sampled_from(["1", "2.5", "1e400", "NaN", "-3"]).map(lambda s: ["dec", s]),
        st.sampled_from([0, 1, -2, 7]).map(lambda v: ["npint", v]),
        st.sampled_from([0.0, 1.5, -2.0, math.nan]).map(lambda v: ["npfloat", v]),
        st.booleans().map(lambda b: ["bool", b]))


def junk():
    return st.one_of(st.just(["none"]), st.sampled_from(["", "a", "1", "nan", "m"]).map(
        lambda s: ["s", s]), st.just(["list", [["n", 1]]]), st.just(["dict", []]),
        st.just(["object"]), st.just(["bytes"]), st.just(["cplx"]))


def words():
    return st.one_of(st.sampled_from(["a", "b", "A", "", " a", "ünï", "日本", "H2O", "a\n"]),
                     st.text(st.characters(exclude_categories=("Cs",)), max_size=5))


def arg(kind):
    if kind in ("rlo", "rhi", "ilo", "ihi", "int", "num", "ulo", "uhi", "free"):
        return st.one_of(numbers(), numbers(), numbers(), numbers(), junk())
    if kind == "unit":
        return st.one_of(st.sampled_from(GOOD_UNITS).map(lambda s: ["s", s]),
                         st.sampled_from(GOOD_UNITS).map(lambda s: ["s", s]),
                         st.sampled_from(BAD_UNITS).map(lambda s: ["s", s]),
                         junk().filter(lambda j: j[0] != "s"), st.just(["n", 1.0]))
    if kind == "text":
        return st.one_of(words().map(lambda s: ["s", s]), words().map(lambda s: ["s", s]), junk(),
                         st.sampled_from([["n", 5], ["n", 0], ["n", 1.5], ["bool", True],
                                          ["bool", False], ["tuple", []], ["set", []],
                                          ["tuple", [["s", "a"]]], ["frac", [1, 2]],
                                          ["dec", "1"]]))
    if kind == "set":
        item = st.one_of(words().map(lambda s: ["s", s]), words().map(lambda s: ["s", s]),
                         words().map(lambda s: ["s", s]),
                         st.sampled_from([["n", 5], ["none"], ["list", []], ["bytes"],
                                          ["tuple", [["s", "a"]]], ["n", 1.5], ["bool", True]]))
        strs = words().map(lambda s: ["s", s])
        return st.one_of(
            st.tuples(st.sampled_from(["list", "tuple", "set", "fset", "nparr", "series", "gen",
                                        "keys"]),
                      st.lists(strs, max_size=5)).map(list),
            st.tuples(st.sampled_from(["list", "tuple", "set", "fset"]),
                      st.lists(item, max_size=5)).map(list),
            junk(), st.just(["s", "abc"]), st.just(["n", 5]))
    if kind == "probs":
        w = st.lists(st.tuples(words(), st.integers(1, 9)), min_size=1, max_size=5,
                     unique_by=lambda t: t[0])
        good = w.map(lambda l: ["dict", [[["s", k], ["n", v / sum(x[1] for x in l)]]
                                         for k, v in l]])
        nudged = st.tuples(w, st.sampled_from([1e-3, -1e-3, 1e-5, 1.0, -0.5, math.nan, math.inf,
                                               1e-13, 1e-7, -1e-7])).map(
            lambda t: ["dict", [[["s", k], ["n", v / sum(x[1] for x in t[0]) + (
                t[1] if i == 0 else 0)]] for i, (k, v) in enumerate(t[0])]])
        oddkey = st.sampled_from([["n", 1], ["none"], ["tuple", []], ["bytes"]]).map(
            lambda k: ["dict", [[k, ["n", 1.0]]]])
        oddkey2 = st.tuples(words(), st.sampled_from([["n", 1], ["none"]])).map(
            lambda t: ["dict", [[["s", t[0]], ["n", 0.5]], [t[1], ["n", 0.5]]]])
        oddval = st.sampled_from([["s", "x"], ["none"], ["list", []]]).map(
            lambda v: ["dict", [[["s", "a"], v]]])
        return st.one_of(good, good, nudged, nudged, words().map(lambda s: ["s", s]), oddkey,
                         oddkey2, oddval, junk(), st.just(["n", 1.0]),
                         st.just(["list", [["s", "a"]]]), st.just(["set", [["s", "a"]]]))
    if kind == "formula":
        part = st.tuples(st.sampled_from(ELEMENTS), st.sampled_from(["", "2", "0.5", "12", "(2)"])
                         ).map("".join)
        odd = st.sampled_from(["Xx", "J", "Q", "Hx", "Aa", "Zz", "Nae", "Uuo", "A", "E", "NaX",
                               "Cla", "Dd", "Ra2G", "La3Z"])
        good = st.lists(part, min_size=0, max_size=6).map(lambda l: ["s", "".join(l)])
        bad = st.tuples(st.lists(part, max_size=3), odd, st.lists(part, max_size=3)).map(
            lambda t: ["s", "".join(t[0] + [t[1]] + t[2])])
        return st.one_of(good, good, bad, junk(), st.just(["n", 5]))
    if kind == "quant":
        d = st.lists(st.tuples(words().map(lambda s: ["s", s]),
                               st.floats(0, 10).map(lambda v: ["n", v])).map(list), max_size=4,
                     unique_by=lambda t: t[0][1])
        return st.one_of(d.map(lambda l: ["dict", l]),
                         d.map(lambda l: ["list", [["list", p] for p in l]]),
                         d.map(lambda l: ["list", [["tuple", p] for p in l]]),
                         st.sampled_from([["list", [["n", 1]]], ["list", [["list", [["n", 1]]]]],
                                          ["list", [["list", [["s", "a"], ["n", 1.0]]], ["n", 2]]],
                                          ["s", "ab"], ["n", 1], ["object"]]), junk())
    if kind == "inchi":
        pre = st.sampled_from(["", "InChI=1S/", "inchi=1S/", "1S/", "1s/", "INCHI=1/", "InChI=",
                               "InChIKey=", "1S", "InChi=1S/"])
        body = st.one_of(st.sampled_from(["H2O/h1H2", "1S/1S/", "inchi inchi", "InChI=1S/x", "",
                                          "1s/1s/1s", "CH4"]), words())
        return st.one_of(st.tuples(pre, body, body).map(lambda t: ["s", "".join(t)]), junk(),
                         st.just(["n", 5]))
    raise AssertionError(kind)


def ordered(kinds):
    """Construction arguments: mostly in order, so that the history gets going."""
    one = {f: arg(k) for f, k in kinds.items()}
    free = st.fixed_dictionaries(one)
    if "lower_bound" not in kinds:
        return free
    pair = st.tuples(numbers(), numbers()).filter(
        lambda t: t[0][0] == "n" and t[1][0] == "n" and math.isfinite(fl(t[0][1]))
        and math.isfinite(fl(t[1][1])))
    if kinds["lower_bound"] == "ilo":
        pair = pair.filter(lambda t: int(t[0][1]) == t[0][1] and int(t[1][1]) == t[1][1])
    pair = pair.map(lambda t: sorted(t, key=lambda a: a[1]))
    rest = {f: s for f, s in one.items() if f not in ("lower_bound", "upper_bound")}
    if "default_units" in rest:
        rest["default_units"] = st.sampled_from(GOOD_UNITS).map(lambda s: ["s", s])
    if "units" in rest:
        rest["units"] = st.sampled_from(GOOD_UNITS).map(lambda s: ["s", s])
    good = st.tuples(pair, st.fixed_dictionaries(rest)).map(
        lambda t: dict(t[1], lower_bound=t[0][0], upper_bound=t[0][1]))
    return st.one_of(good, good, good, free)


def fl(v):
    try:
        return float(v)
    except OverflowError:
        return math.inf


def strategies(tier):
    res = []
    for name, (cls, kinds) in CLASSES.items():
        steps = st.one_of([st.tuples(st.just(f), arg(k)).map(list)
                           for f, k in kinds.items() if k not in PLAIN])
        res.append((3 if len(kinds) > 1 or name == "discrete_categorical" else 2,
                    st.fixed_dictionaries({
                        "cls": st.just(name), "make": ordered(kinds),
                        "route": st.sampled_from(["kw", "kw", "pos", "dict", "json"]),
                        "steps": st.lists(steps, max_size=8)})))
    return res


def fixed(tier):
    """Every one- and two-letter element name, real or not; constructed, and assigned twice."""
    names = [c + d for c in UPPER for d in [""] + list(LOWER)]
    for i, n in enumerate(names):
        yield {"cls": "empirical_formula", "make": {"formula": ["s", n + "2O"]},
               "route": ("kw", "pos", "dict", "json")[i % 4],
               "steps": [["formula", ["s", "Na" + n]], ["formula", ["s", "".join(ELEMENTS)]],
                         ["formula", ["s", n + n.lower()]]]}


def live(a):
    k, d = a[0], a[1] if len(a) > 1 else None
    if k in ("n", "s", "bool"):
        return d
    if k == "none":
        return None
    if k == "frac":
        return Fraction(*d)
    if k == "dec":
        return Decimal(d)
    if k == "npint":
        return np.int64(d)
    if k == "npfloat":
        return np.float64(d)
    if k == "object":
        return object()
    if k == "bytes":
        return b"a"
    if k == "cplx":
        return 1 + 2j
    if k == "list":
        return [live(x) for x in d]
    if k == "tuple":
        return tuple(live(x) for x in d)
    if k == "set":
        return {x for x in (live(y) for y in d) if x.__hash__ is not None}
    if k == "fset":
        return frozenset(x for x in (live(y) for y in d) if x.__hash__ is not None)
    if k == "nparr":
        items = [live(x) for x in d]    # numpy's own text type drops NULs at the end
        odd = not d or any(not isinstance(x, str) or x.endswith("\0") for x in items)
        return np.array(items, dtype=object if odd else None)
    if k == "series":
        return pd.Series([live(x) for x in d], dtype=object)
    if k == "gen":
        return (live(x) for x in d)
    if k == "keys":
        return {live(x): 1 for x in d}.keys()
    if k == "dict":
        return {live(x): live(y) for x, y in d}
    raise AssertionError(a)


# -- oracle: (verdict, what is stored) of one argument for one field
def number(a):
    """"junk", "odd" (a number neither int nor float) or "plain"."""
    if a[0] == "n":
        return "plain"
    return "odd" if a[0] in ("frac", "dec", "npint", "npfloat", "bool") else "junk"


def judge(kind, a, low=None, high=None):
    v = a[1] if len(a) > 1 else None
    if kind in ("rlo", "rhi", "ilo", "ihi", "int"):
        if number(a) == "junk":
            return BAD, None
        if number(a) == "odd":
            return ANY, None
        if isinstance(v, float) and not math.isfinite(v):
            return BAD, None
        if kind[0] == "r":
            if not math.isfinite(fl(v)):
                return BAD, None
            w = float(v)
            tie = w != v    # rounded when stored: order may be judged before or after
        else:
            if int(v) != v:
                return BAD, None
            w, tie = int(v), False
        other = high if kind.endswith("lo") else low if kind.endswith("hi") else None
        if other is not None:
            if (v > other if kind.endswith("lo") else v < other):
                return (ANY, None) if tie and w == other else (BAD, None)
        return OK, w
    if kind == "unit":
        if a[0] != "s":
            return BAD, None
        return (OK if v in GOOD_UNITS else BAD), v
    if kind == "text":
        if a[0] == "none":
            return OK, None
        return (OK, v) if a[0] == "s" else (BAD, None)
    if kind == "set":
        if a[0] == "none":
            return OK, set()
        if a[0] in ("gen", "keys", "fset"):
            return ANY, None
        if a[0] not in ("list", "tuple", "set", "nparr", "series"):
            return BAD, None
        if a[0] == "set":
            v = [x for x in v if x[0] not in ("list",)]
        return (OK, {x[1] for x in v}) if all(x[0] == "s" for x in v) else (BAD, None)
    if kind == "probs":
        if a[0] == "none":
            return OK, None
        if a[0] == "s":
            return OK, {v: 1.0}
        if a[0] != "dict":
            return BAD, None
        if not all(k[0] == "s" and x[0] == "n" for k, x in v):
            return BAD, None
        d = {k[1]: x[1] for k, x in v}
        off = abs(math.fsum(d.values()) - 1) if all(map(math.isfinite, d.values())) else math.inf
        if off <= 1e-12:
            return OK, d
        return (BAD, None) if off > 1e-8 else (ANY, None)
    if kind == "formula":
        if a[0] == "none":
            return OK, None
        if a[0] != "s":
            return BAD, None
        named = tokens(v)
        if not named and v:
            return ANY, None
        return (OK, v) if named <= KNOWN else (BAD, None)
    if kind == "quant":
        if a[0] == "none":
            return OK, {}
        if a[0] == "dict":
            return OK, {k[1]: x[1] for k, x in v}
        if a[0] == "list":
            if all(p[0] in ("list", "tuple") and len(p[1]) == 2 for p in v):
                return OK, {p[1][0][1]: p[1][1][1] for p in v}
            return BAD, None
        return BAD, None
    if kind == "inchi":
        if a[0] == "none":
            return OK, None
        if a[0] != "s":
            return BAD, None
        if v[:3] in ("1S/", "1s/"):
            return OK, "InChI=1S" + v[2:]
        if v[:5].lower() == "inchi":
            return OK, "InChI" + v[5:]
        return OK, "InChI=1S/" + v
    raise AssertionError(kind)


def tokens(s):
    """The element names written in a formula: a capital and the small letters after it."""
    res, i = set(), 0
    while i < len(s):
        if "A" <= s[i] <= "Z":
            j = i + 1
            while j < len(s) and "a" <= s[j] <= "z":
                j += 1
            res.add(s[i:j])
            i = j
        else:
            i += 1
    return res


def judge_make(name, kinds, make):
    """(verdict, stored by field) of a construction."""
    if name == "uniform_real":
        lo, hi = make["lower_bound"], make["upper_bound"]
        u, shown = judge("unit", make["units"])
        if u == BAD:
            return BAD, None
        if number(lo) == "plain" and number(hi) == "plain":
            if not lo[1] <= hi[1]:
                return BAD, None
            return OK, {"lower_bound": lo[1], "upper_bound": hi[1], "units": shown}
        return ANY, None
    if name == "nominal_real":
        u, shown = judge("unit", make["units"])
        n = make["nominal"]
        if u == BAD or number(n) == "junk":
            return BAD, None
        if number(n) == "odd" or n[1] != n[1]:
            return ANY, None
        if math.isfinite(fl(n[1])) or isinstance(n[1], float):
            return OK, {"nominal": float(n[1]), "units": shown}
        return BAD, None
    res, verdict = {}, OK
    for f, k in kinds.items():
        if k == "free":
            if number(make[f]) != "plain" or make[f][1] != make[f][1]:
                verdict = ANY if verdict == OK else verdict
            else:
                res[f] = make[f][1]
            continue
        v, s = judge(k, make[f], low=res.get("lower_bound"))
        if v == BAD:
            return BAD, None
        if v == ANY:
            verdict = ANY
        else:
            res[f] = s
    return verdict, (res if verdict == OK else None)


# -- observation
def seen(obj, kinds):
    return {f: getattr(obj, f) for f in kinds}


def frozen(state):
    """Comparable copy of the state, with types."""
    return {f: (type(v).__name__, copy.copy(v) if isinstance(v, (set, dict)) else v,
                repr(v) if isinstance(v, float) else None) for f, v in state.items()}


def same(state, want, kinds):
    for f, w in want.items():
        g = state[f]
        if kinds[f] == "unit":
            require(isinstance(g, str), "the unit {} is stored as {}", w, g)
            a, b = ug.TABLE.evaluate(w), ug.TABLE.evaluate(g)
            require(ug.same_dims(a[1], b[1]) and ug.close(a[0], b[0]),
                    "the unit {} is stored as {}", w, g)
            continue
        if kinds[f] == "set":
            require(isinstance(g, (set, frozenset)), "{} is {}", f, g)
        elif kinds[f] in ("ilo", "ihi", "int"):
            require(type(g) is int, "{} is the {} {}", f, type(g).__name__, g)
        elif kinds[f] in ("rlo", "rhi", "num"):
            require(type(g) is float, "{} is the {} {}", f, type(g).__name__, g)
        require(g == w, "{} was given as {} and is stored as {}", f, w, g)


def invariant(name, obj):
    """What holds at all times, whatever was assigned."""
    if name in ("real_bounds", "integer_bounds", "uniform_integer"):
        lo, hi = obj.lower_bound, obj.upper_bound
        t = float if name == "real_bounds" else int
        require(isinstance(lo, t) and isinstance(hi, t), "{} holds the limits {} and {}", name, lo,
                hi)
        require((t is int or math.isfinite(lo) and math.isfinite(hi)) and lo <= hi,
                "{} holds the limits {} and {}", name, lo, hi)
    if name == "nominal_integer":
        require(isinstance(obj.nominal, int), "nominal is {}", obj.nominal)
    if name in ("real_bounds", "nominal_real", "normal_real", "uniform_real"):
        u = obj.default_units if name == "real_bounds" else obj.units
        require(isinstance(u, str), "the units are {}", u)
        try:
            again = parse_units(u)
        except Exception as e:
            raise Violation("the units {} cannot be parsed: {}".format(u, short(str(e))))
        require(again == u, "the units {} are read as {}", u, again)
    if name in ("categorical_bounds", "composition_bounds"):
        s = obj.categories if name == "categorical_bounds" else obj.components
        require(isinstance(s, (set, frozenset)) and all(isinstance(x, str) for x in s),
                "{} holds {}", name, s)
    if name == "discrete_categorical" and obj.probabilities is not None:
        p = obj.probabilities
        require(all(isinstance(k, str) for k in p), "the categories are {}", list(p))
        require(abs(math.fsum(p.values()) - 1) < 2e-9, "the probabilities {} do not sum to one", p)
    if name == "nominal_categorical":
        require(obj.category is None or isinstance(obj.category, str), "category {}", obj.category)
    if name == "empirical_formula" and obj.formula is not None:
        require(isinstance(obj.formula, str) and tokens(obj.formula) <= KNOWN, "formula {}",
                obj.formula)
    if name == "nominal_composition":
        require(isinstance(obj.quantities, dict), "quantities {}", obj.quantities)
    if name in ("inchi", "smiles"):
        s = getattr(obj, name)
        require(s is None or isinstance(s, str), "{} {}", name, s)


def jsonable(a):
    return a[0] in ("n", "s", "none", "bool") and a[1:] != [math.inf] or (
        a[0] in ("list", "dict") and all(jsonable(x) for p in a[1] for x in (
            p if a[0] == "dict" else [p])) and (a[0] == "list" or all(
                k[0] == "s" and k[1] != "type" for k, _ in a[1])))


def construct(name, cls, kinds, make, route):
    kw = {f: live(a) for f, a in make.items()}
    if route == "json" and all(jsonable(a) for a in make.values()):
        import json
        return GEMDJson().loads(json.dumps({"context": [], "object": dict(kw, type=TYP[
            cls.__name__])}))
    if route in ("json", "dict"):
        return cls.from_dict(dict(kw, type=TYP[cls.__name__]))
    if route == "pos":
        return cls(*[kw[f] for f in kinds])
    return cls(**kw)


def check(recipe, case):
    name = recipe["cls"]
    cls, kinds = CLASSES[name]
    case.label(name)
    verdict, want = judge_make(name, kinds, recipe["make"])
    obj = attempt(lambda: construct(name, cls, kinds, recipe["make"], recipe["route"]), verdict,
                  "{}({})".format(cls.__name__, recipe["make"]))
    if big(recipe["make"].values()) or verdict == BAD:
        case.interesting()
    if obj is None:
        case.label("construction refused")
        # start the history from something simple instead
        obj = plain(cls, kinds)
        want = None
    invariant(name, obj)
    state = seen(obj, kinds)
    if want is not None:
        same(state, want, kinds)
    refused = False
    for f, a in recipe["steps"]:
        before = frozen(seen(obj, kinds))
        k = kinds[f]
        verdict, w = judge(k, a, getattr(obj, "lower_bound", None),
                           getattr(obj, "upper_bound", None))
        if verdict == BAD or refused or big([a]):
            case.interesting()
        given = live(a)
        done = attempt(lambda: setattr(obj, f, given) or True, verdict,
                       "{}.{} = {}".format(cls.__name__, f, a))
        invariant(name, obj)
        now = seen(obj, kinds)
        if done is None:
            refused = True
            case.label("assignment refused")
            require(frozen(now) == before, "the refused {}.{} = {} changed it from {} to {}",
                    cls.__name__, f, a, before, frozen(now))
            continue
        case.label("assignment accepted")
        others = {x: v for x, v in frozen(now).items() if x != f}
        require(others == {x: v for x, v in before.items() if x != f},
                "{}.{} = {} changed other fields from {} to {}", cls.__name__, f, a, before, others)
        if verdict == OK:
            same(now, {f: w}, kinds)
        if isinstance(given, (list, dict)) and name in ("discrete_categorical",
                                                        "categorical_bounds",
                                                        "composition_bounds"):
            if isinstance(given, list):
                given.append(5)
            else:
                given["intruder"] = 5.0
            require(frozen(seen(obj, kinds)) == frozen(now),
                    "changing the {} given to {} later changed {}", type(given).__name__, f, f)


def plain(cls, kinds):
    v = {"rlo": 0.0, "rhi": 5.0, "ilo": 0, "ihi": 5, "int": 1, "num": 1.0, "free": 1.0, "ulo": 0.0,
         "uhi": 5.0, "unit": "m", "set": ["a"], "text": "a", "probs": {"a": 1.0}, "formula": "H2O",
         "quant": {"a": 1.0}, "inchi": "InChI=1S/H2O/h1H2"}
    return cls(**{f: v[k] for f, k in kinds.items()})


def big(args):
    return any(a[0] == "n" and isinstance(a[1], int) and abs(a[1]) > 2 ** 53 for a in args)


def attempt(fn, verdict, what):
    try:
        res = fn()
    except Exception as e:
        if verdict == OK:
            raise Violation("{} was refused: {}: {}".format(short(what), type(e).__name__,
                                                            short(str(e))))
        return None
    require(verdict != BAD, "{} was accepted", what)
    return res
