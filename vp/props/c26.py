"""C26: deep copies are complete, independent and behave as their originals."""
import copy
import enum

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from hypothesis import strategies as st

from .. import build, gens, model
from ..build import Graph
from ..core import pick, require, short
from ..logs import Warnings

RULE = ("a graph and a structure of its objects, copied with copy.deepcopy at any validation "
        "level, then a history of edits of which each is made on the copy first and on the "
        "original second; non-trivial: two or more entities are reachable and an edit is made")
BUDGET = {"quick": 9000, "thorough": 60000}
ASSUMPTIONS = ["graphs shallow enough for Python's recursion limit, as copy.deepcopy requires"]

REFS = {"ProcessSpec": {"template": "ProcessTemplate"},
        "MeasurementSpec": {"template": "MeasurementTemplate"},
        "MaterialSpec": {"template": "MaterialTemplate", "process": "ProcessSpec"},
        "IngredientSpec": {"material": "MaterialSpec", "process": "ProcessSpec"},
        "ProcessRun": {"spec": "ProcessSpec"},
        "MaterialRun": {"spec": "MaterialSpec", "process": "ProcessRun"},
        "IngredientRun": {"spec": "IngredientSpec", "material": "MaterialRun",
                          "process": "ProcessRun"},
        "MeasurementRun": {"spec": "MeasurementSpec", "material": "MaterialRun"}}
LISTS = {"ProcessSpec": "cm", "MeasurementSpec": "cm", "MaterialSpec": "P", "ProcessRun": "cm",
         "MeasurementRun": "pcm"}
FIELD = {"p": "properties", "P": "properties", "c": "conditions", "m": "parameters"}
ATTR = {"p": Property, "P": Property, "c": Condition, "m": Parameter}
TMPL = {"p": "PropertyTemplate", "P": "PropertyTemplate", "c": "ConditionTemplate",
        "m": "ParameterTemplate"}
ENTRIES = {"MaterialTemplate": "p", "ProcessTemplate": "cm", "MeasurementTemplate": "pcm"}


def strategies(tier):
    i = st.integers(0, 40)
    v = st.one_of(st.integers(-2, 9).map(lambda x: ["ni", x]), gens.value())
    lv = st.integers(0, 2)
    op = st.one_of(
        st.tuples(st.just("ref"), i, i, st.one_of(st.none(), i, i), lv),
        st.tuples(st.just("attr"), i, i, st.one_of(st.none(), i), lv, v, gens.text()),
        st.tuples(st.just("attr"), i, i, st.one_of(st.none(), i), lv, v, gens.text()),
        st.tuples(st.just("entry"), i, i, i, lv, st.one_of(st.none(), gens.bounds())),
        st.tuples(st.just("bounds"), i, gens.bounds()),
        st.tuples(st.just("value"), i, i, v, lv),
        st.tuples(st.just("drop"), i, i),
        st.tuples(st.just("bad"), i, i, i),
        st.tuples(st.just("uid"), i, st.sampled_from(gens.SCOPES), gens.text()),
        st.tuples(st.just("tag"), i, gens.text()),
        st.tuples(st.just("text"), i, gens.text()),
        st.tuples(st.just("qty"), i, i, st.one_of(st.floats(-0.5, 1.5).map(
            lambda x: ["nr", x, ""]), st.floats(-1, 9).map(lambda x: ["nr", x, "kg"]), v), lv)).map(list)

    def recipe(g):
        return st.fixed_dictionaries({"root": st.one_of(st.just(["all"]), st.just(["all"]),
                                                        gens.root()), "g": g, "level": lv,
                                      "ops": st.lists(op, min_size=3, max_size=12)})
    return [(3, recipe(gens.graph())), (2, recipe(gens.topology(4, displaces=True))),
            (0.05, recipe(gens.long(8, 4)))]


class Pairs:
    """Walks two structures in step; which object of one stands for which of the other."""

    def __init__(self):
        self.there, self.back, self.keep = {}, {}, []

    def walk(self, a, b, path="", top=False):
        todo = [(a, b, path)]
        while todo:
            a, b, path = todo.pop()
            require(type(a) is type(b), "{} is a {} in the original and a {} in the copy", path,
                    type(a).__name__, type(b).__name__)
            if a is None or isinstance(a, (enum.Enum, str, bool, int, float, type)):
                require(a == b or a != a and b != b, "{} is {} in the original and {} in the copy",
                        path, a, b)
                if isinstance(a, float):
                    require(repr(a) == repr(b), "{} is {} and {}", path, a, b)
                continue
            if id(a) in self.there or id(b) in self.back:
                require(self.there.get(id(a)) is b and self.back.get(id(b)) is a,
                        "{}: what is shared in the original is not shared alike in the copy", path)
                continue
            if not (isinstance(a, (tuple, frozenset)) and not model.children(a)):
                require(a is not b, "the copy shares {} with the original", path)
            self.keep.append((a, b))
            self.there[id(a)], self.back[id(b)] = b, a
            if isinstance(a, DictSerializable):
                for f in model.fields(a) + model.BACK.get(type(a).__name__, []):
                    todo.append((getattr(a, f), getattr(b, f), path + "." + f))
            elif isinstance(a, dict):
                require(len(a) == len(b), "{} has {} keys and its copy {}", path, len(a), len(b))
                for (k, x), (m, y) in zip(a.items(), b.items()):
                    todo += [(x, y, "{}[{}]".format(path, short(k, 30))), (k, m, path + " key")]
            elif isinstance(a, (list, tuple)):
                require(len(a) == len(b), "{} has {} items and its copy {}", path, len(a), len(b))
                todo += [(x, y, "{}[{}]".format(path, n)) for n, (x, y) in enumerate(zip(a, b))]
            elif isinstance(a, (set, frozenset)):
                require(a == b, "{} is {} and {}", path, a, b)
            else:
                raise AssertionError(type(a))

    def entities(self):
        return [p for p in self.keep if isinstance(p[0], BaseEntity)]


def check(recipe, case):
    g = Graph(recipe["g"])
    root = g.thing(recipe["root"])
    before = model.snapshot([root])
    with Warnings() as w, validation_level(WarningLevel(recipe["level"])):
        dup = copy.deepcopy(root)
    require(w.count == 0, "copying logged {}", w.h.records[:1])
    model.unchanged(before, [root], "deepcopy")
    p = Pairs()
    p.walk(root, dup, "root")
    ents = p.entities()
    case.label("entities:" + ("0" if not ents else "1" if len(ents) == 1 else "2+"))
    if len(ents) >= 2 and recipe["ops"]:
        case.interesting()
    mine, theirs = [x for x, _ in ents], [x for _, x in ents]
    if not ents:
        return
    for op in recipe["ops"]:
        before = model.snapshot(mine)
        a = outcome(op, theirs)
        if a is None:
            continue
        model.unchanged(before, mine, "editing the copy ({})".format(op[0]))
        before = model.snapshot(theirs)
        b = outcome(op, mine)
        # (the copies are compared once more below, whatever the edit did)
        if a == b:
            model.unchanged(before, theirs, "editing the original ({})".format(op[0]))
        require(a == b, "{} gives {} on the original but {} on the copy", op, b, a)
        case.label("{}:{}".format(op[0], "refused" if isinstance(a[0], str) else
                                  "logged" if a[0] else "done"))
        Pairs().walk([mine, root], [theirs, dup], "after " + op[0])


def outcome(op, ents):
    """Make the edit; how it ended: (number of warnings,) or (exception type,)."""
    act = edit(op, ents)
    if act is None:
        return None
    lv = op[4] if op[0] in ("ref", "attr", "entry", "qty", "value") else 1
    with Warnings() as w, validation_level(WarningLevel(lv)):
        try:
            act()
        except Exception as e:
            return (type(e).__name__,)
    return (w.count,)


def edit(op, ents):
    kind = op[0]

    def of(*names):
        return [e for e in ents if type(e).__name__ in names]
    if kind == "ref":
        e = pick(of(*REFS), op[1])
        if e is None:
            return None
        f = pick(sorted(REFS[type(e).__name__]), op[2])
        t = None if op[3] is None else pick(of(REFS[type(e).__name__][f]), op[3])
        return lambda: setattr(e, f, t)
    if kind in ("attr", "drop", "bad", "value"):
        e = pick(of(*LISTS), op[1])
        if e is None:
            return None
        k = pick(LISTS[type(e).__name__], op[2])
        lst = getattr(e, FIELD[k])
        if kind == "drop":
            return lambda: lst.pop(op[2] % 3)
        if kind == "bad":
            x = pick([5, "x", None, Property("x") if k in "cm" else Condition("x"), e], op[3])
            return pick([lambda: lst.append(x), lambda: lst.insert(0, x), lambda: lst.extend([x]),
                         lambda: lst.__setitem__(0, x)], op[2])
        if kind == "value":
            a = pick(lst, op[1])
            if a is None:
                return None
            a = a.property if k == "P" else a
            return lambda: setattr(a, "value", build.value(op[3]))
        t = None if op[3] is None else pick(of(TMPL[k]), op[3])

        def add():
            x = ATTR[k](op[6], value=build.value(op[5]), template=t)
            lst.append(PropertyAndConditions(x) if k == "P" else x)
        return add
    if kind == "entry":
        e = pick(of(*ENTRIES), op[1])
        if e is None:
            return None
        k = pick(ENTRIES[type(e).__name__], op[2])
        t = pick(of(TMPL[k]), op[3])
        if t is None:
            return None
        return lambda: getattr(e, FIELD[k]).append([t, build.bounds(op[5])])
    if kind == "bounds":
        e = pick(of(*TMPL.values()), op[1])
        return e and (lambda: setattr(e, "bounds", build.bounds(op[2])))
    if kind == "qty":
        e = pick(of("IngredientSpec", "IngredientRun"), op[1])
        return e and (lambda: setattr(e, pick(model._QUANT, op[2]), build.value(op[3])))
    e = pick(ents, op[1])
    if kind == "uid":
        return lambda: e.add_uid(op[2], op[3])
    if kind == "tag":
        return lambda: e.tags.append(op[2])
    if kind == "text":
        if type(e).__name__ == "IngredientRun":
            return lambda: e.file_links.append(FileLink(op[2], "u"))
        return lambda: setattr(e, "name", op[2])
    raise AssertionError(op)
