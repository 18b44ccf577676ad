"""Independent description of GEMD graphs: which public fields exist, what they refer to.

Nothing here uses the library's own traversal, dictionary form or equality.
"""
from collections import Counter
from collections.abc import Iterable, Mapping

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID

from .core import Violation, require

_OBJ = ["name", "uids", "tags", "notes", "file_links"]
_QUANT = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
_ATTR = ["name", "notes", "value", "template", "origin", "file_links"]
_AT = ["name", "description", "bounds", "uids", "tags"]
_OT = ["name", "description", "uids", "tags"]

# class name -> writable (forward) fields
FIELDS = {
    "PropertyTemplate": _AT, "ConditionTemplate": _AT, "ParameterTemplate": _AT,
    "MaterialTemplate": _OT + ["properties"],
    "ProcessTemplate": _OT + ["conditions", "parameters", "allowed_names", "allowed_labels"],
    "MeasurementTemplate": _OT + ["properties", "conditions", "parameters"],
    "ProcessSpec": _OBJ + ["template", "conditions", "parameters"],
    "MeasurementSpec": _OBJ + ["template", "conditions", "parameters"],
    "MaterialSpec": _OBJ + ["template", "process", "properties"],
    "IngredientSpec": _OBJ + ["material", "process", "labels"] + _QUANT,
    "ProcessRun": _OBJ + ["spec", "conditions", "parameters", "source"],
    "MaterialRun": _OBJ + ["spec", "process", "sample_type"],
    "IngredientRun": _OBJ + ["spec", "material", "process", "labels"] + _QUANT,
    "MeasurementRun": _OBJ + ["spec", "material", "properties", "conditions", "parameters",
                              "source"],
    "Property": _ATTR, "Condition": _ATTR, "Parameter": _ATTR,
    "PropertyAndConditions": ["property", "conditions"],
    "RealBounds": ["lower_bound", "upper_bound", "default_units"],
    "IntegerBounds": ["lower_bound", "upper_bound"],
    "CategoricalBounds": ["categories"],
    "CompositionBounds": ["components"],
    "MolecularStructureBounds": [],
    "NominalReal": ["nominal", "units"],
    "NormalReal": ["mean", "std", "units"],
    "UniformReal": ["lower_bound", "upper_bound", "units"],
    "NominalInteger": ["nominal"],
    "UniformInteger": ["lower_bound", "upper_bound"],
    "NominalCategorical": ["category"],
    "DiscreteCategorical": ["probabilities"],
    "EmpiricalFormula": ["formula"],
    "NominalComposition": ["quantities"],
    "InChI": ["inchi"],
    "Smiles": ["smiles"],
    "FileLink": ["filename", "url"],
    "PerformedSource": ["performed_by", "performed_date"],
    "LinkByUID": ["scope", "id"],
}
# class name -> back-reference fields (read only)
BACK = {
    "ProcessSpec": ["ingredients", "output_material"],
    "ProcessRun": ["ingredients", "output_material"],
    "MaterialRun": ["measurements"],
}


FURTHER = {}        # derived class -> the fields it adds (C27)


def fields(obj):
    name = type(obj).__name__
    if name not in FIELDS:
        raise Violation("object of unexpected class {}".format(name))
    return FIELDS[name] + FURTHER.get(type(obj), [])


def cname(obj):
    """The name of the class, marked if it is a derived one."""
    return type(obj).__name__ + ("*" if type(obj) in FURTHER else "")


def plain(x, on_entity, on_link=None):
    """A hashable, exact rendering of x; entities are rendered by on_entity."""
    if isinstance(x, BaseEntity):
        return on_entity(x)
    if isinstance(x, LinkByUID):
        if on_link is not None:
            return on_link(x)
        return ("link", x.scope, x.id)
    if isinstance(x, DictSerializable):
        return (cname(x),) + tuple(
            (f, plain(getattr(x, f), on_entity, on_link)) for f in fields(x))
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(plain(y, on_entity, on_link) for y in x)
    if isinstance(x, Mapping):
        return ("map", frozenset((plain(k, on_entity, on_link), plain(v, on_entity, on_link))
                                 for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(plain(y, on_entity, on_link) for y in x))
    if x is None or isinstance(x, bool):
        return ("const", repr(x))
    if isinstance(x, str):
        return ("str", str.__str__(x) if type(x) is str else str(x))
    if isinstance(x, int):
        return ("int", int(x))
    if isinstance(x, float):
        return ("float", float.__repr__(x))
    if isinstance(x, Iterable):
        return ("seq",) + tuple(plain(y, on_entity, on_link) for y in x)
    raise Violation("unexpected {} where plain data was expected".format(type(x).__name__))


def record(e, on_entity, on_link=None, skip=()):
    """Forward fields of one entity, rendered."""
    return (cname(e),) + tuple(
        (f, plain(getattr(e, f), on_entity, on_link)) for f in fields(e) if f not in skip)


def children(x):
    """Entities directly referred to by the forward fields of x (x may be any structure)."""
    out = []

    def grab(y):
        out.append(y)
        return ("e",)
    if isinstance(x, BaseEntity):
        record(x, grab)
    else:
        plain(x, grab)
    return out


def links(x):
    out = []

    def grab(y):
        out.append(y)
        return ("l",)
    if isinstance(x, BaseEntity):
        record(x, lambda e: ("e",), grab)
    else:
        plain(x, lambda e: ("e",), grab)
    return out


def back(e):
    res = []
    for f in BACK.get(type(e).__name__, ()):
        v = getattr(e, f)
        if isinstance(v, (list, tuple)):
            res.extend(y for y in v if isinstance(y, BaseEntity))
        elif isinstance(v, BaseEntity):
            res.append(v)
    return res


def closure(root, bidirectional=True):
    """Every entity reachable from root, each once (by identity)."""
    seen = {}
    todo = children(root) if not isinstance(root, BaseEntity) else [root]
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen[id(e)] = e
        todo.extend(children(e))
        if bidirectional:
            todo.extend(back(e))
    return list(seen.values())


def snapshot(root):
    """Identity-based picture of everything reachable from root, to detect any mutation."""
    ents = closure(root)
    pic = {}
    for e in ents:
        pic[id(e)] = (record(e, lambda y: ("id", id(y)), skip=("uids",)), dict(e.uids),
                      tuple((f, plain(getattr(e, f), lambda y: ("id", id(y))))
                            for f in BACK.get(type(e).__name__, ())))
    top = plain(root, lambda y: ("id", id(y)))
    return {"ents": ents, "pic": pic, "top": top}


def unchanged(before, root, what, gained_scope=None, may_gain=None):
    """root still looks like the snapshot; if gained_scope, uid-less entities gained one uid."""
    now = snapshot(root)
    require(now["top"] == before["top"], what + ": the top-level structure was changed")
    require(set(now["pic"]) == set(before["pic"]), what + ": the set of reachable objects changed")
    for i, (rec, uids, bk) in before["pic"].items():
        rec2, uids2, bk2 = now["pic"][i]
        if rec != rec2:
            for a, b in zip(rec, rec2):
                require(a == b, what + ": input field changed from {} to {}", a, b)
        require(bk == bk2, what + ": back-references of an input object changed from {} to {}",
                bk, bk2)
        if gained_scope is not None and not uids:
            require(len(uids2) == 1, what + ": uid-less entity has uids {} afterwards", uids2)
            (s, u), = uids2.items()
            require(s == gained_scope and isinstance(u, str) and u,
                    what + ": uid-less entity gained {}", uids2)
        else:
            require(uids == uids2, what + ": uids of an input object changed from {} to {}",
                    uids, uids2)


def key(e):
    """The identity of an entity with uids: its (scope, id) pairs, scopes case-folded."""
    return frozenset((s.lower(), i) for s, i in e.uids.items())


def picture(root, resolve=True):
    """uid-keyed picture of a graph in which every entity has uids.

    Links that denote an entity of the graph are shown as references to it (resolve=True), and the
    back-references are derived from the forward ones.
    """
    ents = closure(root)
    index = {}
    for e in ents:
        require(len(e.uids) > 0, "entity {} without uid", type(e).__name__)
        for pair in key(e):
            require(index.setdefault(pair, e) is e,
                    "two different objects carry the uid {}", pair)

    def on_entity(e):
        return ("ref", key(e))

    def on_link(lk):
        if resolve:
            t = index.get((lk.scope.lower(), lk.id))
            if t is not None:
                return ("ref", key(t))
        return ("link", lk.scope, lk.id)

    def rec_of(e):
        rec = record(e, on_entity, on_link)
        if type(e).__name__ == "IngredientRun" and isinstance(e.spec, LinkByUID) and resolve:
            spec = index.get((e.spec.scope.lower(), e.spec.id))
            if spec is not None:   # once resolved, name and labels are those of the spec
                sub = {f: (f, plain(getattr(spec, f), on_entity, on_link))
                       for f in ("name", "labels")}
                rec = rec[:1] + tuple(sub.get(x[0], x) for x in rec[1:])
        return rec
    recs = {key(e): rec_of(e) for e in ents}
    top = plain(root, on_entity, on_link)
    return {"recs": recs, "top": top, "ents": ents, "index": index}


def derived_back(recs):
    """Back-references implied by the forward ones: key -> {field: Counter of keys}."""
    res = {}
    for k, rec in recs.items():
        cls, fs = rec[0].rstrip("*"), dict(rec[1:])
        if cls in ("IngredientSpec", "IngredientRun") and fs["process"][0] == "ref":
            res.setdefault(fs["process"][1], {}).setdefault("ingredients", Counter())[k] += 1
        if cls in ("MaterialSpec", "MaterialRun") and fs["process"][0] == "ref":
            res.setdefault(fs["process"][1], {}).setdefault("output_material", Counter())[k] += 1
        if cls == "MeasurementRun" and fs["material"][0] == "ref":
            res.setdefault(fs["material"][1], {}).setdefault("measurements", Counter())[k] += 1
    return res


def check_back(pic, what):
    """Actual back-references of a graph agree with its forward references."""
    want = derived_back(pic["recs"])
    for e in pic["ents"]:
        for f in BACK.get(type(e).__name__, ()):
            v = getattr(e, f)
            if f == "output_material":
                got = Counter() if v is None else Counter([key(v)])
            else:
                require(all(isinstance(y, BaseEntity) for y in v),
                        what + ": {} holds something that is not an entity", f)
                got = Counter(key(y) for y in v)
            exp = want.get(key(e), {}).get(f, Counter())
            require(got == exp, what + ": {} of {} is {} but should be {}", f, e.name, got, exp)


def same_picture(a, b, what):
    """b reproduces a: same entities, same records, same top-level structure."""
    missing = set(a["recs"]) - set(b["recs"])
    extra = set(b["recs"]) - set(a["recs"])
    require(not missing, what + ": entities lost: {}", [sorted(m) for m in missing])
    require(not extra, what + ": entities invented: {}", [sorted(m) for m in extra])
    for k, rec in a["recs"].items():
        other = b["recs"][k]
        if rec != other:
            require(rec[0] == other[0], what + ": class {} became {}", rec[0], other[0])
            for x, y in zip(rec[1:], other[1:]):
                require(x == y, what + ": " + rec[0] + " field changed from {} to {}", x, y)
    require(a["top"] == b["top"], what + ": top-level structure {} became {}", a["top"], b["top"])


def match_links(exp, got, what, choose=None):
    """got is exp with every ("ref", key) replaced by a link carrying one of the key's pairs.

    choose(key, scope, id) may further restrict which link is allowed.
    """
    if isinstance(exp, tuple) and len(exp) == 2 and exp[0] == "ref":
        require(isinstance(got, tuple) and got[0] == "link",
                what + ": reference to {} became {}, not a link", sorted(exp[1]), got)
        require((got[1].lower(), got[2]) in exp[1],
                what + ": the link {} does not denote {}", got, sorted(exp[1]))
        if choose is not None:
            choose(exp[1], got[1], got[2])
        return
    if isinstance(exp, frozenset):
        require(isinstance(got, frozenset) and len(exp) == len(got),
                what + ": {} became {}", exp, got)
        rest = list(got)
        for x in exp:
            for i, y in enumerate(rest):
                try:
                    match_links(x, y, what, choose)
                except Violation:
                    continue
                del rest[i]
                break
            else:
                raise Violation(what + ": {} has no counterpart in {}".format(x, rest))
        return
    if isinstance(exp, tuple) and isinstance(got, tuple) and len(exp) == len(got):
        for x, y in zip(exp, got):
            match_links(x, y, what, choose)
        return
    require(exp == got, what + ": {} became {}", exp, got)


def ref_plain(x):
    """x (record of an entity, or structure) with entities shown as ("ref", key)."""
    def on_entity(e):
        return ("ref", key(e))
    return record(x, on_entity) if isinstance(x, BaseEntity) else plain(x, on_entity)


def unfold(x, index=None, memo=None):
    """Complete rendering of the tree below x along forward references, links resolved by index."""
    memo = {} if memo is None else memo

    def find(lk):
        return None if index is None else index.get((lk.scope, lk.id))

    def on_link(lk):
        t = find(lk)
        return ("link", lk.scope, lk.id) if t is None else on_entity(t)

    def on_entity(e):
        if id(e) not in memo:
            rec = record(e, on_entity, on_link)
            if type(e).__name__ == "IngredientRun" and isinstance(e.spec, LinkByUID):
                spec = find(e.spec)
                if spec is not None:
                    sub = {f: (f, plain(getattr(spec, f), on_entity, on_link))
                           for f in ("name", "labels")}
                    rec = rec[:1] + tuple(sub.get(y[0], y) for y in rec[1:])
            memo[id(e)] = (e, rec)
        return memo[id(e)][1]
    return plain(x, on_entity, on_link)


TYP = {
    "PropertyTemplate": "property_template", "ConditionTemplate": "condition_template",
    "ParameterTemplate": "parameter_template", "MaterialTemplate": "material_template",
    "ProcessTemplate": "process_template", "MeasurementTemplate": "measurement_template",
    "ProcessSpec": "process_spec", "MeasurementSpec": "measurement_spec",
    "MaterialSpec": "material_spec", "IngredientSpec": "ingredient_spec",
    "ProcessRun": "process_run", "MaterialRun": "material_run", "IngredientRun": "ingredient_run",
    "MeasurementRun": "measurement_run", "Property": "property", "Condition": "condition",
    "Parameter": "parameter", "PropertyAndConditions": "property_and_conditions",
    "RealBounds": "real_bounds", "IntegerBounds": "integer_bounds",
    "CategoricalBounds": "categorical_bounds", "CompositionBounds": "composition_bounds",
    "MolecularStructureBounds": "molecular_structure_bounds", "NominalReal": "nominal_real",
    "NormalReal": "normal_real", "UniformReal": "uniform_real",
    "NominalInteger": "nominal_integer", "UniformInteger": "uniform_integer",
    "NominalCategorical": "nominal_categorical", "DiscreteCategorical": "discrete_categorical",
    "EmpiricalFormula": "empirical_formula", "NominalComposition": "nominal_composition",
    "InChI": "inchi", "Smiles": "smiles", "FileLink": "file_link",
    "PerformedSource": "performed_source", "LinkByUID": "link_by_uid",
}


def json_form(x, on_entity=None):
    """The plain JSON data that describes x, by this module's own tables."""
    if isinstance(x, BaseEntity) and on_entity is not None:
        return on_entity(x)
    if isinstance(x, DictSerializable):
        d = {f: json_form(getattr(x, f), on_entity) for f in fields(x)}
        d["type"] = TYP[type(x).__name__]
        return d
    if isinstance(x, (list, tuple)):
        return [json_form(y, on_entity) for y in x]
    if isinstance(x, dict):
        return {k: json_form(v, on_entity) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, str) and type(x) is not str:
        return str(x)
    return x


def same_json(exp, got, what, path=""):
    """Exact comparison of JSON data; ("ref", key) in exp matches a link to one of key's uids."""
    if isinstance(exp, tuple) and exp[0] == "ref":
        require(isinstance(got, dict) and set(got) == {"type", "scope", "id"}
                and got["type"] == "link_by_uid" and (got["scope"].lower(), got["id"]) in exp[1],
                what + " at " + path.replace("{", "(").replace("}", ")") +
                ": expected a link to one of {}, got {}", sorted(exp[1]), got)
        return
    where = what + " at " + (path.replace("{", "(").replace("}", ")") or "top")
    require(type(exp) is type(got), where + ": {} became {}", exp, got)
    if isinstance(exp, dict):
        require(set(exp) == set(got), where + ": keys {} became {}", sorted(exp), sorted(got))
        for k in exp:
            same_json(exp[k], got[k], what, path + "/" + k)
    elif isinstance(exp, list):
        require(len(exp) == len(got), where + ": {} became {}", exp, got)
        for i, (a, b) in enumerate(zip(exp, got)):
            same_json(a, b, what, "{}/{}".format(path, i))
    elif isinstance(exp, float):
        require(float.__repr__(exp) == float.__repr__(got), where + ": {} became {}", exp, got)
    else:
        require(exp == got, where + ": {} became {}", exp, got)
