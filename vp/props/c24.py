"""C24: fields report what they were given, independently of every other object."""
import re

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds, RealBounds
from gemd.entity.bounds_validation import validation_level
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.value import (EmpiricalFormula, NominalCategorical, NominalInteger, NominalReal,
                               NormalReal, UniformReal)
from gemd.enumeration import Origin, SampleType
from hypothesis import strategies as st

from .. import gens
from ..core import Violation, expect_raises, pick, require

RULE = ("a history of constructions, repeated constructions from the same arguments, field "
        "assignments, refused assignments, assignments of one object's field to another, and edits "
        "of lists and dictionaries handed in or out, over a pool of entities and attributes, each "
        "step compared with a model of every field of every object; non-trivial: a container is "
        "edited after two objects have seen it, a field is reassigned, or a value is refused")
BUDGET = {"quick": 27000, "thorough": 150000}
ASSUMPTIONS = ["fields the library declares without checks (notes, descriptions, names of "
               "templates and attributes, file links) are only given the declared type"]

_COMMON = {"name": "name", "uids": "uids", "tags": "strs", "notes": "text", "file_links": "files"}
_QUANT = {"mass_fraction": "cv", "volume_fraction": "cv", "number_fraction": "cv",
          "absolute_quantity": "cv"}
_ATTR = {"name": "freename", "notes": "text", "value": "value", "origin": "origin",
         "file_links": "files"}
_AT = {"name": "freename", "description": "text", "bounds": "bounds", "uids": "uids",
       "tags": "strs"}
_OT = {"name": "freename", "description": "text", "uids": "uids", "tags": "strs"}
_CM = {"conditions": "attrs:c", "parameters": "attrs:m"}

CLASSES = {
    PropertyTemplate: _AT, ConditionTemplate: _AT, ParameterTemplate: _AT,
    MaterialTemplate: dict(_OT, properties="pairs:p"),
    ProcessTemplate: dict(_OT, conditions="pairs:c", parameters="pairs:m", allowed_names="strs",
                          allowed_labels="strs"),
    MeasurementTemplate: dict(_OT, properties="pairs:p", conditions="pairs:c",
                              parameters="pairs:m"),
    ProcessSpec: dict(_COMMON, template="ref:ProcessTemplate", **_CM),
    MeasurementSpec: dict(_COMMON, template="ref:MeasurementTemplate", **_CM),
    MaterialSpec: dict(_COMMON, template="ref:MaterialTemplate", process="fresh:ProcessSpec",
                       properties="pacs"),
    IngredientSpec: dict(_COMMON, material="ref:MaterialSpec", process="fresh:ProcessSpec",
                         labels="strs", **_QUANT),
    ProcessRun: dict(_COMMON, spec="ref:ProcessSpec", source="source", **_CM),
    MaterialRun: dict(_COMMON, spec="ref:MaterialSpec", process="ref:ProcessRun",
                      sample_type="sample"),
    IngredientRun: dict({k: v for k, v in _COMMON.items() if k != "name"},
                        spec="ref:IngredientSpec", material="ref:MaterialRun",
                        process="ref:ProcessRun", **_QUANT),
    MeasurementRun: dict(_COMMON, spec="ref:MeasurementSpec", material="ref:MaterialRun",
                         properties="attrs:p", source="source", **_CM),
    Property: dict(_ATTR, template="ref:PropertyTemplate"),
    Condition: dict(_ATTR, template="ref:ConditionTemplate"),
    Parameter: dict(_ATTR, template="ref:ParameterTemplate"),
    PropertyAndConditions: {"property": "property", "conditions": "attrs:c"},
    FileLink: {"filename": "freename", "url": "freename"},
    PerformedSource: {"performed_by": "checkedtext", "performed_date": "checkedtext"},
    LinkByUID: {"scope": "freename", "id": "freename"},
}
NAMES = list(CLASSES)
MANDATORY = {"name", "bounds", "property", "filename", "url", "scope", "id"}
ORIGINS = [("measured", Origin.MEASURED), (Origin.PREDICTED, Origin.PREDICTED),
           (" Summary", Origin.SUMMARY), ("UNKNOWN", Origin.UNKNOWN),
           (Origin.COMPUTED, Origin.COMPUTED), ("specified", Origin.SPECIFIED)]
SAMPLES = [("production", SampleType.PRODUCTION), (SampleType.VIRTUAL, SampleType.VIRTUAL),
           ("Experimental ", SampleType.EXPERIMENTAL), ("unknown", SampleType.UNKNOWN)]
LISTS = ("strs", "files", "attrs", "pacs", "pairs")


def strategies(tier):
    n = 10 if tier == "quick" else 20
    r = st.integers(0, 40)
    f = st.integers(0, 60)
    # one field's argument: which items, in which container, with which text
    arg = st.tuples(r, st.lists(r, max_size=3), st.integers(0, 4), gens.text()).map(list)
    new = st.tuples(st.just("new"), st.integers(0, len(NAMES) - 1),
                    st.dictionaries(f.map(str), arg, max_size=8)).map(list)
    full = st.tuples(st.just("full"), st.integers(0, len(NAMES) - 1),
                     st.lists(arg, min_size=2, max_size=13)).map(list)
    i = st.integers(-3, -1)
    op = st.one_of(new, full, st.tuples(st.just("set"), i, f, arg).map(list),
                   st.tuples(st.just("set"), i, f, arg).map(list),
                   st.tuples(st.just("twin"), i).map(list),
                   st.tuples(st.just("bad"), i, f, r).map(list),
                   st.tuples(st.just("share"), i, f, i).map(list),
                   st.tuples(st.just("wt"), st.integers(0, 5), st.integers(0, 2)).map(list),
                   st.tuples(st.just("given"), st.integers(-6, -1), st.integers(0, 3)).map(list),
                   st.tuples(st.just("edit"), i, f, arg, st.integers(0, 4)).map(list))
    return [(1, st.fixed_dictionaries({
        "level": st.integers(0, 1), "first": st.one_of(new, full, full),
        "ops": st.lists(op, min_size=1, max_size=n)}))]


def fixed(tier):
    """Each class with every field given, or none; then every field assigned, emptied, edited."""
    for c, cls in enumerate(NAMES):
        ks = range(len(CLASSES[cls]))
        for how in range(5):
            arg = [1, [0, 2] if how < 4 else [how], how, "x"]
            yield {"level": how % 2, "first": ["full", c, [arg]], "ops": [["twin", -1]] + [
                ["edit", -2, k, arg, how] for k in ks] + [
                ["set", -1, k, [0, [], 3, ""]] for k in ks] + [
                ["set", -2, k, [5, [how], how, "z"]] for k in ks] + [
                ["share", -1, k, -2] for k in ks] + [["edit", -1, k, arg, how] for k in ks] + [
                ["set", -1, k, [4, [], 0, ""]] for k in ks]}
        yield {"level": 1, "first": ["new", c, {}], "ops": [["new", c, {}]] + [
            op for k in ks for op in (
                ["set", -2, k, [2, [1], 0, "y"]], ["edit", -2, k, [1, [0], 0, "x"], 1],
                ["bad", -2, k, 3])]}


class World:
    """Objects to refer to; a case changes them only through links, and the templates of specs."""

    def __init__(self):
        self.attr_templates = {
            "p": [PropertyTemplate("p{}".format(i), bounds=IntegerBounds(0, 5)) for i in range(2)],
            "c": [ConditionTemplate("c{}".format(i), bounds=IntegerBounds(0, 5)) for i in range(2)],
            "m": [ParameterTemplate("m{}".format(i), bounds=IntegerBounds(0, 5)) for i in range(2)]}
        self.refs = {
            "PropertyTemplate": self.attr_templates["p"],
            "ConditionTemplate": self.attr_templates["c"],
            "ParameterTemplate": self.attr_templates["m"],
            "MaterialTemplate": [MaterialTemplate("t"), MaterialTemplate("t")],
            "ProcessTemplate": [ProcessTemplate("t"), ProcessTemplate("u")],
            "MeasurementTemplate": [MeasurementTemplate("t"), MeasurementTemplate("u")]}
        t = self.refs
        self.refs.update({
            "ProcessSpec": [ProcessSpec("s", template=t["ProcessTemplate"][0]), ProcessSpec("s")],
            "MeasurementSpec": [MeasurementSpec("s", template=t["MeasurementTemplate"][1]),
                                MeasurementSpec("s")],
            "MaterialSpec": [MaterialSpec("s", template=t["MaterialTemplate"][1]),
                             MaterialSpec("s")],
            "IngredientSpec": [IngredientSpec("s", labels=["l"]), IngredientSpec("q")],
            "ProcessRun": [ProcessRun("r"), ProcessRun("r")],
            "MaterialRun": [MaterialRun("r"), MaterialRun("q")]})
        self.attrs = {
            "p": [Property("p0", value=NominalInteger(i)) for i in range(3)],
            "c": [Condition("c0", value=NominalInteger(i)) for i in range(3)],
            "m": [Parameter("m0", value=NominalInteger(i)) for i in range(3)]}
        self.pacs = [PropertyAndConditions(x) for x in self.attrs["p"]]
        self.links = [LinkByUID("id", "a"), LinkByUID("ID", "b")]
        self.files = [FileLink("f", "u"), FileLink("f", "u"), FileLink("g", "v")]
        self.values = [NominalInteger(3), NominalInteger(99), NominalReal(1.5, "m"),
                       NominalCategorical("x"), EmpiricalFormula("H2O")]
        self.cvs = [NominalReal(0.5, ""), NormalReal(0.25, 0.1, ""), UniformReal(0.1, 0.2, ""),
                    NominalReal(2.0, "kg")]
        self.bounds = [IntegerBounds(0, 5), RealBounds(0, 1, "m")]
        self.sources = [PerformedSource("me", "2020"), PerformedSource()]


def junk(kind):
    """Things a checked field must refuse (None: the field is not checked)."""
    base = kind.split(":")[0]
    other = [1, "text", 2.5, {"a": 1}, ["x"], b"z", object(), FileLink("a", "b")]
    if base == "name":
        return [None, 1, b"x", ["x"], ("a", "b"), FileLink("a", "b")]
    if base == "checkedtext":
        return [1, b"x", ["x"], 2.5, object()]
    if base == "strs":
        return [1, ["a", 1], [None], [["a"]], FileLink("a", "b"), (b"a",)]
    if base in ("files", "attrs", "pacs"):
        return [1, "text", ["x"], [None], [LinkByUID("a", "b")], [2.5], [{"a": 1}]]
    if base == "pairs":
        return [1, "text", ["x"], [None], [IntegerBounds(0, 1)], [Property("p")], [("a", "b")]]
    if base == "bounds":
        return other + [None, NominalInteger(1)]
    if base == "property":
        return other + [None, Condition("c"), LinkByUID("a", "b")]
    if base == "value":
        return other + [IntegerBounds(0, 1), LinkByUID("a", "b")]
    if base == "cv":
        return other + [NominalInteger(1), NominalCategorical("x"), RealBounds(0, 1, "")]
    if base == "source":
        return other + ["me", LinkByUID("a", "b")]
    if base == "ref":
        return other + [NominalInteger(1), IntegerBounds(0, 1), Property("p"), ("id", "a"),
                        IngredientRun(), ProcessRun]
    if base in ("origin", "sample"):
        return ["no such", 7, "measured production", ["unknown"], None]
    return None


# exp: ("is", x) | ("eq", x) | ("list", [exp]) | ("map", [(k, v)])
def matches(exp, got):
    k, x = exp
    if k == "is":
        return got is x
    if k == "eq":
        return type(got) is type(x) and got == x
    if k == "list":
        return isinstance(got, list) and len(got) == len(x) and all(
            matches(a, b) for a, b in zip(x, got))
    return isinstance(got, dict) and list(got.items()) == x


def wrap(items, exps, how, single):
    """The items in some container; (argument, expectation, containers that may be edited later)."""
    if single and how == 4 and len(items) == 1:
        return items[0], ("list", exps), None
    if how == 1:
        return tuple(items), ("list", exps), None
    if how == 2:
        return (x for x in items), ("list", exps), None
    if how == 3 and not items:
        return None, ("list", []), None
    arg = list(items)
    return arg, ("list", exps), arg


def give(w, kind, r):
    """(argument, expectation, editable container) for a field of this kind."""
    n, picks, how, text = r
    base, _, of = kind.partition(":")
    if base in ("name", "freename"):
        return text, ("eq", text), None
    if base in ("text", "checkedtext"):
        return (None, ("is", None), None) if n % 4 == 0 else (text, ("eq", text), None)
    if base == "strs":
        items = [text + str(p % 3) for p in picks]
        return wrap(items, [("eq", x) for x in items], how, True)
    if base == "uids":
        items = [(("id", "Auto", "my_scope", "auto")[p % 3], text + str(p)) for p in picks]
        items = list(dict(items).items())
        if how == 0 and not items:
            return None, ("map", []), None
        if how == 4 and len(items) == 1:
            return items[0], ("map", items), None
        arg = CaseInsensitiveDict(items) if how == 1 else dict(items)
        return arg, ("map", items), arg
    if base == "pairs":
        items, exps = [], []
        for p in picks:
            t = pick(w.attr_templates[of] + w.links, p)
            b = pick(w.bounds[:1] + [None], p // 4)
            form = p % 3
            items.append(t if form == 0 else (t, b) if form == 1 else [t, b])
            exps.append(("list", [("is", t), ("is", None if form == 0 else b)]))
        # a lone pair is taken for one entry only if it holds bounds
        single = len(items) == 1 and (not isinstance(items[0], (list, tuple))
                                      or items[0][1] is not None)
        return wrap(items, exps, how, single)
    if base in ("files", "attrs", "pacs"):
        pool = {"files": w.files, "pacs": w.pacs}.get(base) or w.attrs[of]
        items = [pick(pool, p) for p in picks]
        return wrap(items, [("is", x) for x in items], how, True)
    if base == "ref":
        x = pick(w.refs[of] * 2 + w.links + [None], n)
    elif base == "fresh":
        x = pick([None, ProcessSpec("fresh"), w.links[0], ProcessSpec("fresh")], n)
    elif base == "value":
        x = pick(w.values + [None], n)
    elif base == "cv":
        x = pick(w.cvs + [None], n)
    elif base == "bounds":
        x = pick(w.bounds, n)
    elif base == "source":
        x = pick(w.sources + [None], n)
    elif base == "property":
        x = pick(w.attrs["p"], n)
    elif base in ("origin", "sample"):
        x, m = pick(ORIGINS if base == "origin" else SAMPLES, n)
        return x, ("is", m), None
    else:
        raise AssertionError(kind)
    return x, ("is", x), None


def default(kind):
    base = kind.split(":")[0]
    if base in LISTS:
        return "list", []
    if base == "uids":
        return "map", []
    if base == "origin":
        return "is", Origin.UNKNOWN
    if base == "sample":
        return "is", SampleType.UNKNOWN
    return "is", None


class Pool:
    def __init__(self, case):
        self.w = World()
        self.case = case
        self.objs = []      # (object, fields, {field: expectation}, hash)
        self.args = []      # keyword arguments each object was made from
        self.containers = []    # editable containers handed in

    def make(self, cls, kwargs, state):
        if "name" in kwargs and len(kwargs) % 2:
            kw = dict(kwargs)
            obj = cls(kw.pop("name"), **kw)
        else:
            obj = cls(**kwargs)
        self.objs.append((obj, CLASSES[cls], state, hash(obj)))
        self.args.append(kwargs)

    def new(self, c, chosen):
        cls = NAMES[c]
        fields = CLASSES[cls]
        kwargs, state = {}, {f: default(k) for f, k in fields.items()}
        if cls is LinkByUID:
            self.case.label("link")
        for k, f in enumerate(fields):
            r = chosen(k)
            if r is None and f in MANDATORY and not (cls is IngredientRun):
                r = [0, [], 0, "x"]
            if r is not None:
                kwargs[f], state[f], cont = give(self.w, fields[f], r)
                if cont is not None:
                    self.containers.append(cont)
        self.make(cls, kwargs, state)
        self.case.label("class:" + cls.__name__)

    def agree(self, what):
        for obj, fields, state, h in self.objs:
            for f in fields:
                try:
                    got = getattr(obj, f)
                except Exception as e:
                    raise Violation("{}: reading {} of a {} raised {}".format(
                        what, f, type(obj).__name__, type(e).__name__))
                require(matches(state[f], got), what + ": {} of a {} is {} instead of {}",
                        f, type(obj).__name__, got, state[f][1])
            if not isinstance(obj, LinkByUID):
                require(hash(obj) == h, what + ": the hash of a {} changed", type(obj).__name__)
            self.derived(obj, state, what)

    @staticmethod
    def derived(obj, state, what):
        if isinstance(obj, (ProcessRun, MaterialRun, MeasurementRun)):
            spec = state["spec"][1]
            want = None if spec is None or isinstance(spec, LinkByUID) else spec.template
            require(obj.template is want, what + ": the template of a {} is {}, its spec's is {}",
                    type(obj).__name__, obj.template, want)
        elif isinstance(obj, (IngredientRun, IngredientSpec)):
            require(obj.template is None, what + ": an ingredient has template {}", obj.template)
        elif isinstance(obj, PropertyAndConditions):
            p = state["property"][1]
            for f in ("name", "template", "origin", "value"):
                require(getattr(obj, f) is getattr(p, f),
                        what + ": {} of a property with conditions is {}", f, getattr(obj, f))


def check(recipe, case):
    p = Pool(case)
    shown = re.compile(r"\s+")
    with validation_level(recipe["level"]):
        for op in [recipe["first"]] + recipe["ops"]:
            step(p, op, case)
            p.agree("after " + shown.sub(" ", str(op[0])))


def step(p, op, case):
    k = op[0]
    if k == "new":
        p.new(op[1], lambda j: next(
            (r for f, r in sorted(op[2].items())
             if int(f) % len(CLASSES[NAMES[op[1]]]) == j), None))
        return
    if k == "full":
        p.new(op[1], lambda j: op[2][j % len(op[2])])
        return
    if k == "wt":
        # a spec others refer to takes another template
        kind = ("Process", "Measurement", "Material")[op[1] % 3]
        p.w.refs[kind + "Spec"][op[1] // 3].template = (
            p.w.refs[kind + "Template"] + [None])[op[2]]
        return
    if k == "given":
        cont = pick(p.containers, op[1])
        if cont is None:
            return
        case.interesting()
        if op[2] == 0 or not cont:
            cont.update({"more": "x"}) if isinstance(cont, dict) else cont.append("more")
        elif op[2] == 1:
            cont.clear()
        elif op[2] == 2:
            cont.popitem() if isinstance(cont, dict) else cont.pop(0)
        elif isinstance(cont, dict):
            cont[next(iter(cont))] = "changed"
        else:
            inner = cont[0]
            if isinstance(inner, list) and p.containers:
                inner[:] = ["junk"]
            cont.reverse()
        # later constructions must not reuse what is no longer valid
        for args in p.args:
            if any(v is cont for v in args.values()):
                args["\0stale"] = True
        return
    x = pick(p.objs, op[1])
    if x is None:
        return
    obj, fields, state, _ = x
    if k == "twin":
        args = pick(p.args, op[1])
        if "\0stale" in args or any(hasattr(v, "__next__") for v in args.values()):
            return
        fresh = {f: v for f, v in args.items() if fields[f].startswith("fresh")}
        begun = dict(state_of(p, fields, args))
        kwargs = dict(args)
        for f in fresh:
            kwargs.pop(f)
            begun[f] = default(fields[f])
        p.make(type(obj), kwargs, begun)
        case.label("twin")
        return
    f = pick(list(fields), op[2])
    kind = fields[f]
    base = kind.split(":")[0]
    if k == "set":
        arg, exp, cont = give(p.w, kind, op[3])
        setattr(obj, f, arg)
        state[f] = exp
        if cont is not None:
            p.containers.append(cont)
        case.interesting()
    elif k == "bad":
        bad = junk(kind)
        if bad is None or (base == "ref" and f in ("process",) and isinstance(
                obj, (MaterialSpec, IngredientSpec))):
            return
        thing = pick(bad, op[3])
        if base == "ref" and type(thing).__name__ == kind.partition(":")[2]:
            return
        case.interesting()
        case.label("refused:" + base)
        expect_raises((TypeError, ValueError), lambda: setattr(obj, f, thing),
                      "assigning {!r} to {} of a {}".format(thing, f, type(obj).__name__))
    elif k == "share":
        other = pick(p.objs, op[3])
        if other[1].get(f) != kind or base == "fresh" or other[0] is obj:
            return
        setattr(obj, f, getattr(other[0], f))
        state[f] = (other[2][f][0], copied(other[2][f][1]))
        case.interesting()
        case.label("shared")
    elif k == "edit":
        edit(p, obj, f, base, kind, state, op[3], op[4])


def state_of(p, fields, args):
    """What an object made from the same arguments must report (containers unchanged since)."""
    for f, kind in fields.items():
        if f not in args:
            yield f, default(kind)
            continue
        v = args[f]
        base = kind.split(":")[0]
        if base == "uids":
            if v is None:
                yield f, ("map", [])
            else:
                yield f, ("map", [v] if isinstance(v, tuple) else list(v.items()))
        elif base == "pairs":
            lone = v is not None and isinstance(v, (list, tuple)) and any(
                isinstance(x, (IntegerBounds, RealBounds)) for x in v)
            items = [] if v is None else list(v) if isinstance(v, (list, tuple)) and not lone \
                else [v]
            yield f, ("list", [("list", [("is", x[0]), ("is", x[1])]) if isinstance(
                x, (list, tuple)) else ("list", [("is", x), ("is", None)]) for x in items])
        elif base in LISTS:
            items = [] if v is None else list(v) if isinstance(v, (list, tuple)) else [v]
            yield f, ("list", [("eq" if isinstance(x, str) else "is", x) for x in items])
        elif base in ("origin", "sample"):
            yield f, ("is", next(m for x, m in ORIGINS + SAMPLES if x is v))
        else:
            yield f, ("eq" if isinstance(v, str) else "is", v)


def copied(x):
    return list(x) if isinstance(x, list) else x


def edit(p, obj, f, base, kind, state, r, how):
    """Edit the list or map a field hands out: that field of that object changes, nothing else."""
    got = getattr(obj, f)
    if base == "uids":
        scope = ("id", "Auto", "my_scope", "extra")[r[0] % 4]
        items = [(k, v) for k, v in state[f][1]]
        if how == 0:
            got.clear()
            items = []
        elif how == 1 and items:
            k = items[r[0] % len(items)][0]
            del got[k.upper()]
            items = [x for x in items if x[0] != k]
        elif scope in dict(items) or how % 2:
            got[scope] = r[3]
            if scope in dict(items):
                items = [(k, r[3] if k == scope else v) for k, v in items]
            else:
                items.append((scope, r[3]))
        else:
            obj.add_uid(scope, r[3])
            items.append((scope, r[3]))
        state[f] = ("map", items)
        return
    if base not in LISTS:
        return
    exps = list(state[f][1])
    _, (_, more), _ = give(p.w, kind, [r[0], r[1] or [r[0]], 1, r[3]])
    items, _, _ = give(p.w, kind, [r[0], r[1] or [r[0]], 1, r[3]])
    items = list(items)
    if how == 0:
        got.append(items[0])
        exps.append(more[0])
    elif how == 1:
        got.insert(0, items[0])
        exps.insert(0, more[0])
    elif how == 2:
        got.extend(items)
        exps += more
    elif how == 3:
        del got[:1]
        del exps[:1]
    else:
        got.clear()
        exps = []
    state[f] = ("list", exps)
