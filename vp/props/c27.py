"""C27: derived classes that take over a tag work as the library's own."""
import copy
import importlib
import inspect
import zlib

import gemd.json as gjson
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.util import complete_material_history
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal, Smiles,
                               UniformInteger, UniformReal)
from gemd.util import flatten
from hypothesis import strategies as st

from .. import build, model
from ..core import Case, require
from ..proc import isolated

CLASSES = [Condition, Parameter, Property, PropertyAndConditions, CategoricalBounds,
           CompositionBounds, IntegerBounds, MolecularStructureBounds, RealBounds, FileLink,
           IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, MeasurementRun,
           MeasurementSpec, ProcessRun, ProcessSpec, PerformedSource, ConditionTemplate,
           MaterialTemplate, MeasurementTemplate, ParameterTemplate, ProcessTemplate,
           PropertyTemplate, DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
           NominalComposition, NominalInteger, NominalReal, NormalReal, Smiles, UniformInteger,
           UniformReal]
# the statements that must hold of derived classes too, and how often each is asked
OF = {"c01": 5, "c02": 4, "c03": 4, "c04": 2, "c06": 3, "c07": 4, "c08": 1, "c12": 3, "c14": 2,
      "c19": 3, "c20": 4, "c21": 2, "c22": 2, "c23": 3, "c24": 3, "c26": 3}
LINKED = ["c01", "c02", "c03", "c20", "c23"]  # those that read documents holding links
FIELD = "remark"
REMARKS = [lambda: None, lambda: "text", lambda: 3, lambda: ["a", "b"], lambda: {"k": ["v", 1.5]},
           lambda: 0, lambda: [], lambda: ""]

RULE = ("a case of one of the other properties, run with classes derived from the library's in "
        "place of it - the entities with one further field; non-trivial as that property states")
BUDGET = {"quick": 12000, "thorough": 150000}
ASSUMPTIONS = ["a derived class calls its ancestor's constructor and names all its fields there",
               "those of the other properties"]

_derived = {}
_inner = {}
_untagged = {}


class Mixin:
    """An ancestor from outside the library."""

    def shown(self):
        return "{}: {}".format(type(self).__name__, getattr(self, FIELD, None))


def derive(cls, tag=True):
    """A class of the same name and tag, with one further field if it is an entity."""
    ns = {}
    if issubclass(cls, BaseEntity):
        params = list(inspect.signature(cls.__init__).parameters.values())
        keep = {p.name: p.default for p in params if p.default is not p.empty}
        sig, call, starred = [], [], False
        for p in params:
            if p.kind is p.KEYWORD_ONLY and not starred:
                sig.append("*")
                starred = True
            sig.append(p.name + ("=_keep[{!r}]".format(p.name) if p.name in keep else ""))
            call.append("{0}={0}".format(p.name) if starred else p.name)
        sig += ([] if starred else ["*"]) + [FIELD + "=None"]
        env = {"_keep": keep, "_base": cls}
        exec("def __init__({}):\n    _base.__init__({})\n    self.{f} = {f}\n".format(
            ", ".join(sig), ", ".join(call), f=FIELD), env)
        ns["__init__"] = env["__init__"]
    return type(cls)(cls.__name__, (Mixin, cls), ns, **({"typ": cls.typ} if tag else {}))


def swap(x):
    """x with every class of the library replaced by the one derived from it."""
    if isinstance(x, type):
        return _derived.get(x, x)
    if type(x) in (list, tuple, set, frozenset):
        return type(x)(swap(y) for y in x)
    if type(x) is dict:
        return {swap(k): swap(v) for k, v in x.items()}
    return x


def prepare():
    if _derived:
        return
    mods = {n: importlib.import_module("vp.props." + n) for n in OF}
    # first some use of the library's own classes, which must leave no trace
    for recipe in mods["c20"].fixed("quick"):
        obj = build.Graph(recipe["g"]).thing(recipe["what"])
        try:
            type(obj).from_dict(obj.as_dict())
            copy.deepcopy(obj).dump()
            gjson.loads(gjson.dumps([obj]))
            obj == type(obj).build(obj.dump())
            flatten(obj, "id")
            complete_material_history(obj)
        except Exception:                # for other properties to judge
            pass
    for cls in CLASSES:
        new = derive(cls)
        _derived[cls] = new
        model.FURTHER[new] = [FIELD] if issubclass(cls, BaseEntity) else []
    for m in [build] + list(mods.values()):
        for name, v in list(vars(m).items()):
            if not name.startswith("__"):
                w = swap(v)
                if w is not v:
                    setattr(m, name, w)
    plain = build.Graph.__init__

    def init(self, recipe):
        plain(self, recipe)
        for e in self.all:
            n = zlib.crc32("{} {}".format(type(e).__name__, e.name).encode("utf8", "replace"))
            setattr(e, FIELD, REMARKS[n % len(REMARKS)]())
    build.Graph.__init__ = init
    for n, m in mods.items():
        if hasattr(m, "prepare"):
            m.prepare()
        _inner[n] = m


def strategies(tier):
    res = [(1, st.fixed_dictionaries({
        "own": st.integers(0, 13), "name": st.sampled_from(["a", "", "b c"]),
        "tags": st.lists(st.sampled_from(["t", "u", ""]), max_size=3),
        "uids": st.dictionaries(st.sampled_from(["id", "Scope"]), st.sampled_from("12"),
                                min_size=1)}))]
    linked = {n: importlib.import_module("vp.props." + n).strategies(tier)[0][1] for n in LINKED}
    res.append((2, st.sampled_from(LINKED).flatmap(
        lambda n: st.fixed_dictionaries({"of": st.just(n), "case": linked[n],
                                         "link": st.just(True)}))
        # a link made by the shadowed class itself is not what its tag stands for any more
        .filter(lambda r: r["of"] != "c20" or r["case"]["what"][0] != "link")))
    for n, w in OF.items():
        inner = importlib.import_module("vp.props." + n).strategies(tier)
        if n == "c20":
            inner = inner[:1]            # its histories of declarations start from the library's
        total = sum(s[0] for s in inner)
        for weight, s in inner:
            res.append((w * weight / total, st.fixed_dictionaries({"of": st.just(n), "case": s})))
    return res


def own(recipe, case):
    """The library's own class and an untagged derived one, next to the one that took the tag."""
    cls = [c for c in CLASSES if issubclass(c, BaseEntity)][recipe["own"]]
    case.label("own:" + cls.__name__)
    case.interesting()
    tagged = _derived[cls]
    if cls not in _untagged:
        _untagged[cls] = derive(cls, tag=False)
    loose = _untagged[cls]
    require(DictSerializable.class_mapping[cls.typ] is tagged, "{} is the class of the tag {}",
            DictSerializable.class_mapping[cls.typ], cls.typ)
    data = {"name": recipe["name"], "tags": recipe["tags"], "uids": recipe["uids"],
            FIELD: "more"}
    if "bounds" in model.FIELDS[cls.__name__]:
        data["bounds"] = IntegerBounds(0, 1)
    if "allowed_names" in model.FIELDS[cls.__name__]:
        data["allowed_names"] = ["x"]
    if cls is IngredientRun:
        data.pop("name")
    kept = {k: v for k, v in data.items() if k != FIELD}
    for c, has in ((cls, False), (tagged, True), (loose, True)):
        objs = [c(**(data if has else kept)), c.from_dict(dict(data, type=cls.typ))]
        for obj in objs:
            require(type(obj) is c and obj.typ == cls.typ, "from_dict of {} made a {}", c,
                    type(obj))
            d = obj.as_dict()
            require(set(d) == set(model.FIELDS[cls.__name__]) | {"type"} | ({FIELD} if has else
                                                                           set()),
                    "as_dict of a {} has keys {}", cls.__name__, sorted(d))
            require(all(d[k] == v for k, v in data.items() if k in d), "as_dict changed {} to {}",
                    data, d)
            for res in (DictSerializable.build(obj.dump()), gjson.loads(gjson.dumps(obj))):
                require(type(res) is tagged and getattr(res, FIELD) == ("more" if has else None),
                        "a document of a {} gave a {} with {}", c, type(res), vars(res))
                require({k: res.as_dict()[k] for k in kept} == kept, "{} became {}", kept, res)
        require(objs[0] == objs[1], "two builds of a {} differ", c)


def with_link_class(recipe):
    """A case run where a class derived from the link class has taken over its tag."""
    type(LinkByUID)("LinkByUID", (Mixin, LinkByUID), {}, typ=LinkByUID.typ)
    got = Case()
    _inner[recipe["of"]].check(recipe["case"], got)
    return [got.labels, got.nontrivial]


def check(recipe, case):
    if "own" in recipe:
        own(recipe, case)
        return
    if "link" in recipe:
        case.label("link class")
        labels, nontrivial = isolated(with_link_class, recipe)
        for k, n in labels.items():
            case.label(k, n)
        if nontrivial:
            case.interesting()
        return
    case.label("of:" + recipe["of"])
    _inner[recipe["of"]].check(recipe["case"], case)
