"""C15: enumerations accept every spelling and nothing else."""
import contextlib
import enum
import io
import json
import warnings

from gemd.entity.attribute import Condition, Parameter, Property
from gemd.entity.object import MaterialRun
from gemd.enumeration import Origin, SampleType
from gemd.enumeration.base_enumeration import BaseEnumeration, migrated_enum
from gemd.json import GEMDJson
from hypothesis import strategies as st

from ..core import expect_raises, require

RULE = ("an enumeration - shipped, or declared from generated values and synonyms - asked through "
        "every entry point for spelled, padded, damaged and foreign texts, declared with a "
        "repeated value, or with migrated names; non-trivial: another letter case, padding, a synonym or a refusal")
BUDGET = {"quick": 36000, "thorough": 300000}
ASSUMPTIONS = ["declared values and synonyms have no surrounding whitespace and are distinct when "
               "lower-cased", "letter case is that of ASCII letters"]

SHIPPED = {"origin": (Origin, ["measured", "predicted", "summary", "specified", "computed",
                               "unknown"]),
           "sample": (SampleType, ["experimental", "production", "virtual", "unknown"])}
WORDS = ["Apple", "Avocado", "Alligator Pear", "a", "B", "c d", "X-1", "1", "été", "unknown", "ab",
         "abc", "none", "日本", "a_b", "A.B", "measured", "true", "m" * 20, "pear", "Alligator"]
NAME = "KIND_{}"
OLD = ["OLD", "UNO", "old_name", "Old", "X1", "ALLIGATOR_PEAR"]
PADS = ["", "", " ", "\t", "  \n", "\r\n ", " "]


class Text(str):
    """A text of a class of its own."""


def strategies(tier):
    pad = st.sampled_from(PADS)
    spell = st.fixed_dictionaries({
        "sub": st.sampled_from([False, False, False, True]),
        "w": st.integers(0, 30), "case": st.integers(0, 2 ** 12 - 1), "pre": pad, "post": pad,
        "hurt": st.sampled_from([None, None, None, "tail", "head", "drop", "inner", "empty", "blank",
                                 "twice", "other", "name", "dash"]), "o": st.sampled_from(WORDS)})
    asks = st.lists(spell, min_size=1, max_size=8)
    shipped = st.fixed_dictionaries({"e": st.sampled_from(sorted(SHIPPED)), "asks": asks})
    word = st.one_of(st.sampled_from(WORDS), st.text(
        st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=8))
    members = st.lists(st.lists(word, min_size=1, max_size=3), min_size=1, max_size=5)
    declared = st.fixed_dictionaries({"members": members, "asks": asks})
    dup = st.fixed_dictionaries({"members": members, "dup": st.tuples(
        st.integers(0, 9), st.integers(0, 9), st.integers(0, 2 ** 12 - 1), st.integers(0, 4))
        .map(list)})
    moves = st.lists(st.tuples(st.sampled_from(OLD), st.integers(0, 30),
                               st.integers(0, 2 ** 12 - 1), pad, pad,
                               st.sampled_from(["value", "value", "symbol"])).map(list),
                     min_size=1, max_size=3, unique_by=lambda m: m[0])
    moved = st.fixed_dictionaries({"members": members, "moves": moves, "asks": asks})
    return [(3, shipped), (3, declared), (2, dup), (1, moved)]


def recased(s, mask):
    """Flip the case of ASCII letters according to mask."""
    return "".join(c.swapcase() if c.isascii() and (mask >> (i % 12)) & 1 else c
                   for i, c in enumerate(s))


def distinct(members):
    seen, res = set(), []
    for m in members:
        kept = []
        for w in m:
            if w.lower() not in seen:
                seen.add(w.lower())
                kept.append(w)
        if kept:
            res.append(kept)
    return res


def declare(members, odd=None):
    ns = enum.EnumMeta.__prepare__("E", (BaseEnumeration,))
    for i, m in enumerate(members):
        ns[NAME.format(i)] = m[0] if len(m) == 1 else tuple(m)
    return type(BaseEnumeration)("E", (BaseEnumeration,), ns)


def check(recipe, case):
    if "dup" in recipe:
        repeated(recipe, case)
        return
    if "e" in recipe:
        cls, values = SHIPPED[recipe["e"]]
        table = [[v] for v in values]
        require([str(m) for m in cls] == values or set(str(m) for m in cls) == set(values),
                "{} has members {}", cls.__name__, [str(m) for m in cls])
        members = [next(m for m in cls if m.value == v) for v in values]
    else:
        table = distinct(recipe["members"])
        cls = declare(table)
        if "moves" in recipe:
            cls = migrated(cls, table, recipe["moves"], case)
        members = list(cls)
        require(len(members) == len(table), "{} members declared, {} made", len(table),
                len(members))
    for m, words in zip(members, table):
        require(str(m) == words[0] and m.value == words[0] and m == words[0],
                "{} is shown as {}", words[0], str(m))
        require(json.loads(json.dumps({"x": m})) == {"x": words[0]}, "{} in JSON is {}", words[0],
                json.dumps(m))
    flat = [(w, members[i]) for i, ws in enumerate(table) for w in ws]
    index = {w.lower(): m for w, m in flat}
    for ask in recipe["asks"]:
        w, _ = flat[ask["w"] % len(flat)]
        text = recased(w, ask["case"])
        h = ask["hurt"]
        if h == "tail":
            text += "x"
        elif h == "head":
            text = "x" + text
        elif h == "drop":
            text = text[:-1]
        elif h == "inner":
            text = text[:1] + " " + text[1:]
        elif h == "empty":
            text = ""
        elif h == "blank":
            text = " "
        elif h == "twice":
            text = text + " " + text
        elif h == "other":
            text = ask["o"]
        elif h in ("name", "dash"):      # the identifier is no spelling of its own
            name = members[ask["w"] % len(members)].name
            text = recased(name, ask["case"])
            text = text.replace("_", "-") if h == "dash" else text
        text = ask["pre"] + text + ask["post"]
        want = index.get(text.lower().strip())
        case.label("found" if want is not None else "refused")
        if want is None or text != want.value:
            case.interesting()
        ask_all(cls, Text(text) if ask.get("sub") else text, want, recipe.get("e"))
    if "e" in recipe:
        for x in members:
            ask_all(cls, x, x, recipe["e"])
    require(cls.from_str(None) is None, "from_str(None)")
    expect_raises(ValueError, lambda: cls.from_str(None, exception=True), "from_str(None)")


def migrated(cls, table, moves, case):
    """Names that were given up still lead to their successors, with a warning."""
    members = list(cls)
    flat = [(w, members[i]) for i, ws in enumerate(table) for w in ws]
    spelled = {w.lower() for w, _ in flat}
    want = {}
    out = io.StringIO()
    for old, k, mask, pre, post, how in moves:
        w, m = flat[k % len(flat)]
        text = pre + recased(w, mask) + post
        if how == "symbol" and m.name.lower() not in spelled:
            text = m.name
        with contextlib.redirect_stdout(out):
            new = migrated_enum(old_value=old, new_value=text, deprecated_in="1.0.0",
                                removed_in="2.0.0")(cls)
        require(new is cls, "the decorator made another class")
        want[old] = m
    require(out.getvalue() == "", "declaring a migrated value printed {}", out.getvalue())
    case.interesting()
    case.label("migrated")
    for old, m in want.items():
        for how, get in (("attribute", lambda: getattr(cls, old)), ("item", lambda: cls[old])):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = get()
            require(got is m, "the {} {} gave {} instead of {}", how, old, got, m.name)
            require(any(issubclass(x.category, DeprecationWarning) for x in w),
                    "the {} {} gave no deprecation warning", how, old)
        require(old not in [x.name for x in cls], "{} is a member", old)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for m in members:
            require(cls[m.name] is m and getattr(cls, m.name) is m, "{} gave another member",
                    m.name)
    require(not w, "a current name gave the warning {}", [str(x.message) for x in w])
    require(list(cls) == members, "the members changed")
    for bad in ("NEW", "Kind_0", "old"):
        if bad not in want:
            expect_raises(KeyError, lambda: cls[bad], "item {}".format(bad))
            expect_raises(AttributeError, lambda: getattr(cls, bad), "attribute {}".format(bad))
    return cls


def ask_all(cls, text, want, field):
    require(cls.from_str(text) is want, "from_str({!r}) gave {}".replace("{!r}", "{}"), text,
            cls.from_str(text))
    require(cls.from_str(text, exception=False) is want, "from_str({}, exception=False)", text)
    if want is None:
        expect_raises(ValueError, lambda: cls.from_str(text, exception=True),
                      "from_str({!r})".format(text))
        expect_raises(ValueError, lambda: cls(text), "lookup of {!r}".format(text))
    else:
        require(cls.from_str(text, exception=True) is want, "from_str({})", text)
        require(cls(text) is want, "{}({}) gave {}", cls.__name__, text, cls(text))
    if field is None:
        return
    for make in ((lambda **k: MaterialRun("x", **k),) if field == "sample" else
                 tuple((lambda c: lambda **k: c("x", **k))(c)
                       for c in (Property, Condition, Parameter))):
        name = "sample_type" if field == "sample" else "origin"
        for start in ("unknown", list(cls)[0]):
            obj = make(**{name: start})
            before = getattr(obj, name)
            if want is None:
                expect_raises(ValueError, lambda: setattr(obj, name, text),
                              "{} = {!r}".format(name, text))
                require(getattr(obj, name) is before, "a refused {} changed the field", name)
                expect_raises(ValueError, lambda: make(**{name: text}),
                              "{}={!r} at construction".format(name, text))
                expect_raises(ValueError, lambda: setattr(obj, name, None), name + " = None")
                require(getattr(obj, name) is before, "None changed the field")
            else:
                setattr(obj, name, text)
                require(getattr(obj, name) is want, "{} = {} gave {}", name, text,
                        getattr(obj, name))
                obj = make(**{name: text})
                require(getattr(obj, name) is want, "{}={} at construction gave {}", name, text,
                        getattr(obj, name))
        if want is not None:
            enc = GEMDJson()
            require(json.loads(enc.raw_dumps(obj))[name] == want.value,
                    "{} is written to JSON as {}", want.value, json.loads(enc.raw_dumps(obj))[name])
            require(getattr(enc.loads(enc.dumps(obj)), name) is want, "{} does not survive JSON",
                    want.value)
            d = obj.as_dict()
            require(type(obj).from_dict(d).as_dict()[name] is want, "from_dict")
            d[name] = text
            require(getattr(type(obj).from_dict(d), name) is want, "from_dict with {}", text)


def repeated(recipe, case):
    table = distinct(recipe["members"])
    src, at, mask, how = recipe["dup"]
    words = table[src % len(table)]
    case.interesting()
    if how == 0:
        bad = table + [[5]]
        case.label("not a string")
    elif how == 1:
        bad = table + [["something entirely new", 5]]
        case.label("synonym not a string")
    else:
        w = recased(words[at % len(words)], mask)
        pad = " " if how == 4 else ""
        bad = table + [[pad + w + pad]]
        case.label("repeated value")
    expect_raises((ValueError, TypeError), lambda: declare(bad),
                  "declaring an enumeration with {}".format(bad))
