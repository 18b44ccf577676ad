"""C14: list fields only ever hold valid items."""
from collections import deque

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientSpec, MaterialSpec, MeasurementRun, ProcessRun,
                                ProcessSpec)
from gemd.entity.setters import validate_list
from gemd.entity.template import ConditionTemplate, MaterialTemplate, ProcessTemplate, \
    PropertyTemplate
from gemd.entity.bounds import IntegerBounds
from gemd.entity.valid_list import ValidList
from hypothesis import strategies as st

from ..core import expect_raises, require

RULE = ("a history of fillings and edits of one list - a ValidList with allowed types and a "
        "counting, replacing or failing hook, or a real field of an entity - mirrored on a plain "
        "list; non-trivial: an item of another type is offered, or a hook replaces or fails, or "
        "several items come from a one-shot iterable")
BUDGET = {"quick": 48000, "thorough": 400000}
ASSUMPTIONS = ["list *= n and sorting are not judged"]

TYPES = {"int": int, "str": str, "both": (int, str), "list": [int, str], "gen": None,
         "float": float, "base": object}
ITEMS = [0, 1, 2, 7, "a", "b", "", 2.5, None, True, [1], ("a",)]


def strategies(tier):
    i = st.integers(0, 11)
    good = st.integers(0, 3)
    pos = st.integers(-4, 6)
    opos = st.one_of(st.none(), pos)
    item = st.one_of(good, good, good, i)
    xs = st.lists(item, max_size=4)
    how = st.sampled_from(["list", "gen", "tuple", "iter", "vlist", "dict", "keys", "deque"])
    op = st.one_of(
        st.tuples(st.just("append"), item), st.tuples(st.just("insert"), pos, item),
        st.tuples(st.just("set"), pos, item), st.tuples(st.just("extend"), xs, how),
        st.tuples(st.just("iadd"), xs, how),
        st.tuples(st.just("slice"), opos, opos, st.sampled_from([None, None, 1, 2, -1]), xs, how),
        st.tuples(st.just("new"), xs, how), st.tuples(st.just("one"), item),
        st.tuples(st.just("pop"), pos), st.tuples(st.just("del"), opos, opos),
        st.tuples(st.just("self")), st.tuples(st.just("notiter"))).map(list)
    ops = st.lists(op, min_size=1, max_size=10)
    free = st.fixed_dictionaries({
        "t": st.sampled_from(sorted(TYPES)), "hook": st.sampled_from(
            [None, "count", "replace", "falsy", "fail", "some"]), "ops": ops})
    fields = st.fixed_dictionaries({"f": st.sampled_from(sorted(FIELDS)), "ops": ops})
    return [(3, free), (3, fields)]


FALSY = [0, "", False, (), 0.0]     # replacements that are falsy but not None


class Fault(Exception):
    pass


class Sub(str):
    """A string subclass: allowed wherever strings are."""


# ---------------------------------------------------------------- real fields
def _link(i):
    return LinkByUID("id", str(i))


T0 = ConditionTemplate("c", bounds=IntegerBounds(0, 5))
P0 = PropertyTemplate("p", bounds=IntegerBounds(0, 5))
STRS = ["a", "b", "", Sub("c")]
NOT_STR = [1, None, 2.5, b"a", ("a",), ["a"], FileLink("a", "b"), _link(0)]
NOT_OBJ = [1, "a", None, {"name": "x"}, ("a",), [], 2.5, b""]
FILES = [FileLink("f{}".format(i), "u") for i in range(4)]
CONDS = [Condition("c{}".format(i)) for i in range(4)]
PARAMS = [Parameter("m{}".format(i)) for i in range(4)]
PROPS = [Property("p{}".format(i)) for i in range(4)]
PACS = [PropertyAndConditions(x) for x in PROPS]


def homogenized(x):
    return [x, None] if not isinstance(x, (list, tuple)) else list(x)


# name -> (make, field, good items, bad items, stored form, single item allowed)
FIELDS = {
    "tags": (lambda **k: ProcessSpec("x", **k), "tags", STRS, NOT_STR, None, True),
    "run tags": (lambda **k: ProcessRun("x", **k), "tags", STRS, NOT_STR, None, True),
    "template tags": (lambda **k: MaterialTemplate("x", **k), "tags", STRS, NOT_STR, None, True),
    "labels": (lambda **k: IngredientSpec("x", **k), "labels", STRS, NOT_STR, None, True),
    "file_links": (lambda **k: MaterialSpec("x", **k), "file_links", FILES, NOT_OBJ + CONDS[:1],
                   None, True),
    "attribute file_links": (lambda **k: Property("x", **k), "file_links", FILES,
                             NOT_OBJ + CONDS[:1], None, True),
    "conditions": (lambda **k: ProcessSpec("x", **k), "conditions", CONDS,
                   NOT_OBJ + [PARAMS[0], PROPS[0], PACS[0], T0], None, True),
    "parameters": (lambda **k: ProcessRun("x", **k), "parameters", PARAMS,
                   NOT_OBJ + [CONDS[0], PROPS[0], T0], None, True),
    "run properties": (lambda **k: MeasurementRun("x", **k), "properties", PROPS,
                       NOT_OBJ + [CONDS[0], PACS[0], P0], None, True),
    "spec properties": (lambda **k: MaterialSpec("x", **k), "properties", PACS,
                        NOT_OBJ + [CONDS[0], PROPS[0], P0], None, True),
    "pac conditions": (lambda **k: PropertyAndConditions(PROPS[0], **k), "conditions", CONDS,
                       NOT_OBJ + [PARAMS[0], PROPS[0]], None, True),
    "template conditions": (
        lambda **k: ProcessTemplate("x", **k), "conditions",
        [T0, _link(1), [T0, IntegerBounds(0, 2)], (_link(2), IntegerBounds(0, 9))],
        [1, "a", None, 2.5, P0, CONDS[0], {"a": 1}, b""], homogenized, False),
    "template properties": (
        lambda **k: MaterialTemplate("x", **k), "properties",
        [P0, _link(1), [P0, None], (P0, IntegerBounds(1, 2))],
        [1, "a", None, 2.5, T0, PROPS[0], {"a": 1}, b""], homogenized, False),
    "allowed_names": (lambda **k: ProcessTemplate("x", **k), "allowed_names", STRS, NOT_STR, None,
                      True),
}


def same(a, b, form):
    """Stored items: the very objects given, or (for template lists) [template, bounds]."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if form is None:
            if x is not y:
                return False
        else:
            y = form(y)
            if not (isinstance(x, (list, tuple)) and len(x) == 2 and x[0] is y[0]
                    and x[1] is y[1]):
                return False
    return True


def iterable(xs, how, like=None):
    if how == "gen":
        return (x for x in xs)
    if how == "tuple":
        return tuple(xs)
    if how == "iter":
        return iter(list(xs))
    if how == "vlist":
        return ValidList(xs, object)
    if how == "deque":
        return deque(xs)
    if how in ("dict", "keys"):
        try:
            d = dict.fromkeys(xs)
        except TypeError:
            return list(xs)
        return list(xs) if len(d) != len(xs) else d if how == "dict" else d.keys()
    return list(xs)


def check(recipe, case):
    if "f" in recipe:
        fields(recipe, case)
    else:
        free(recipe, case)


class New:
    """An item on its way into the list."""

    def __init__(self, x):
        self.x = x


class Box:
    """One list under test: how to get it, refill it, and what its items go through."""


def free(recipe, case):
    typ = TYPES[recipe["t"]]
    hook = recipe["hook"]
    calls = []
    if recipe["t"] == "gen":
        allowed = (int, str)
    else:
        allowed = tuple(typ) if isinstance(typ, (list, tuple)) else (typ,)

    def trigger(x):
        calls.append(x)
        if hook == "replace":
            return ("r", x)
        if hook == "falsy":
            return FALSY[len(str(x)) % len(FALSY)]
        if hook == "some":
            return ("s", x) if x in (1, "b") else None
        if hook == "fail" and x in (2, "b"):
            raise Fault()
        return None

    def outcome(x):
        if hook == "replace":
            return ("r", x)
        if hook == "falsy":
            return FALSY[len(str(x)) % len(FALSY)]
        if hook == "some" and x in (1, "b"):
            return ("s", x)
        return x

    def content():
        return (t for t in allowed) if recipe["t"] == "gen" else typ
    tr = None if hook is None else trigger
    b = Box()
    b.valid = lambda x: isinstance(x, allowed)
    b.fails = lambda x: hook == "fail" and x in (2, "b")
    b.stored = outcome
    b.form = None
    b.calls = calls if hook else None
    b.items = ITEMS
    b.lst = ValidList([], content(), tr)

    def new(given, single):
        if single:
            return validate_list(given, content(), trigger=tr)
        return ValidList(given, content(), tr)
    b.get = lambda: b.lst
    b.refill = lambda given, single: setattr(b, "lst", new(given, single))
    b.single = lambda x: not isinstance(x, (list, tuple)) and x is not None
    run(recipe["ops"], b, case)


def fields(recipe, case):
    make, field, good, bad, form, single = FIELDS[recipe["f"]]
    b = Box()
    items = list(good) + list(bad)
    bads = {id(x) for x in bad}
    b.items = items
    b.valid = lambda x: id(x) not in bads
    b.fails = lambda x: False
    b.stored = lambda x: x
    b.form = form
    b.calls = None
    b.obj = make(**({field: []} if field == "allowed_names" else {}))
    b.get = lambda: getattr(b.obj, field)
    turn = [0]

    def refill(given, one):
        turn[0] += 1
        if turn[0] % 2:
            setattr(b.obj, field, given)
        else:
            b.obj = make(**{field: given})
    b.refill = refill
    b.single = lambda x: single and (isinstance(x, str) or not hasattr(x, "__iter__")) \
        and x is not None
    case.label("field:" + recipe["f"])
    run(recipe["ops"], b, case)


def run(ops, b, case):
    model = []
    require(same(b.get(), model, b.form), "a new list is not empty")

    for step, op in enumerate(ops):
        name = op[0]
        what = "step {} ({})".format(step, op)
        lst = b.get()
        n = len(model)
        offered, new, act, exc = [], None, None, ()
        if name == "append":
            x = b.items[op[1] % len(b.items)]
            offered = [x]
            new = model + [New(x)]

            def act():
                lst.append(x)
        elif name == "insert":
            x = b.items[op[2] % len(b.items)]
            offered = [x]
            new = list(model)
            new.insert(op[1], New(x))

            def act():
                lst.insert(op[1], x)
        elif name == "set":
            x = b.items[op[2] % len(b.items)]
            offered = [x]
            new = list(model)
            if -n <= op[1] < n:
                new[op[1]] = New(x)
            else:
                exc = (IndexError,)

            def act():
                lst[op[1]] = x
        elif name in ("extend", "iadd", "slice", "new"):
            xs = [b.items[i % len(b.items)] for i in (op[4] if name == "slice" else op[1])]
            how = op[-1]
            offered = xs
            given = iterable(xs, how)
            if how in ("gen", "iter") and len(xs) > 1:
                case.interesting()
                case.label("one-shot")
            fresh = [New(x) for x in xs]
            new = model + fresh
            if name == "extend":
                def act():
                    lst.extend(given)
            elif name == "iadd":
                def act():
                    box = lst
                    box += given
                    require(box is lst, "+= made another list")
            elif name == "slice":
                sl = slice(op[1], op[2], op[3])
                new = list(model)
                try:
                    new[sl] = fresh
                except ValueError:
                    exc = (ValueError,)

                def act():
                    lst[sl] = given
            else:
                new = fresh

                def act():
                    b.refill(given, False)
        elif name == "one":
            x = b.items[op[1] % len(b.items)]
            if not b.single(x):
                continue
            offered = [x]
            new = [New(x)]

            def act():
                b.refill(x, True)
        elif name == "self":
            offered, new = list(model), model + [New(x) for x in model]

            def act():
                lst.extend(lst)
            if any(not b.valid(x) for x in model) or b.calls is not None or b.form:
                continue
        elif name == "notiter":
            for bad in (5, None, 2.5):
                expect_raises(TypeError, lambda: lst.extend(bad), "extend by {}".format(bad))

                def add():
                    box = lst
                    box += bad
                expect_raises(TypeError, add, "+= {}".format(bad))
            offered, new = [], model
        elif name == "pop":
            new = list(model)
            if -n <= op[1] < n:
                new.pop(op[1])

                def act():
                    lst.pop(op[1])
        elif name == "del":
            new = list(model)
            del new[op[1]:op[2]]

            def act():
                del lst[op[1]:op[2]]

        if b.calls is not None:
            b.calls.clear()
        if act is not None:
            if any(not b.valid(x) for x in offered):
                case.label("wrong type:" + name)
                case.interesting()
                expect_raises((TypeError, Fault) + exc if any(b.fails(x) for x in offered)
                              else (TypeError,) + exc, act, what)
            elif any(b.fails(x) for x in offered):
                case.label("hook fails:" + name)
                case.interesting()
                expect_raises((Fault,) + exc, act, what)
            elif exc:
                expect_raises(exc, act, what)
            else:
                act()
                model = [b.stored(x.x) if isinstance(x, New) else x for x in new]
                if b.calls is not None:
                    case.interesting()
                    require(len(b.calls) == len(offered) and all(
                        x is y for x, y in zip(b.calls, offered)),
                        what + ": the hook saw {} instead of {}", b.calls, offered)
        if name in ("extend", "iadd", "slice", "new") and isinstance(given, list):
            given.append("late")       # the caller's own list is not the field
        now = b.get()
        require(isinstance(now, list), what + ": the field is no list any more")
        require(same(now, model, b.form) if b.form or b.calls is None
                else list(now) == model and [type(x) for x in now] == [type(x) for x in model],
                what + ": holds {} instead of {}", list(now), model)
