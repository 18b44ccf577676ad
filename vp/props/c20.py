"""C20: dictionary and raw JSON forms of one object are faithful."""
import json

import gemd.json as gjson
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.json import GEMDJson
from hypothesis import strategies as st

from .. import gens, history, model
from ..build import Graph
from ..core import Violation, expect_raises, require
from ..proc import isolated
from .c03 import compare

RULE = ("an object of any serialisable class inside a graph, an extra field and an unknown tag, "
        "or a history of class declarations; non-trivial: the object has a nested object, or a "
        "class declaration took or was refused a tag")
BUDGET = {"quick": 7800, "thorough": 50000}
ASSUMPTIONS = ["dictionary keys in user data are strings other than 'type'"]


def strategies(tier):
    obj = st.fixed_dictionaries({
        "what": st.one_of(st.integers(-14, -1).map(lambda i: ["e", i]),
                          gens.value().map(lambda v: ["val", v]),
                          gens.bounds().map(lambda b: ["bnd", b]),
                          gens.attribute(True, "pcm").map(lambda a: ["attr", a]),
                          gens.ref(True, True, none=False).map(lambda r: ["link", r])),
        "extra": st.sampled_from(["zzz", "_name", "Type", "typ", "uid"]),
        "edits": history.ops(), "g": gens.graph(sizes={k: 2 for k in gens.SIZES})})
    decl = st.fixed_dictionaries({"decl": st.lists(
        st.tuples(st.integers(0, 9), st.sampled_from([None, 0, 1, 2, "own", "other"])).map(list),
        min_size=1, max_size=6)})
    return [(6, obj), (1, decl)]


def fixed(tier):
    """One plain object of every class."""
    a = {"name": "a", "value": ["ni", 1], "tmpl": 0}
    g = {"at": [{"k": k, "name": k, "bounds": ["int", 0, 5]} for k in "pcm"],
         "ot": [{"k": "material", "name": "t", "p": [[0, 0]]},
                {"k": "process", "name": "t", "c": [[0, 1]], "m": [[0, 2]], "anames": ["n"],
                 "alabels": ["l"]},
                {"k": "measurement", "name": "t", "p": [[0, 2]], "c": [[0, 0]], "m": [[0, 0]]}],
         "ps": [{"name": "s", "tmpl": 0, "c": [a], "m": [a], "tags": ["t"]}],
         "es": [{"name": "s", "tmpl": 0, "c": [a], "m": [a], "notes": "n"}],
         "ms": [{"name": "s", "tmpl": 0, "proc": 0, "p": [dict(a, conds=[a])]}],
         "is": [{"name": "s", "mat": 0, "proc": 0, "labels": ["l"],
                 "q": {"mf": ["nr", 0.5, ""], "aq": ["nr", 1.0, "kg"]}}],
         "pr": [{"name": "r", "spec": 0, "c": [a], "source": ["me", "then"]}],
         "mr": [{"name": "r", "spec": 0, "proc": 0, "sample": "virtual"}],
         "ir": [{"name": "r", "spec": 0, "mat": 0, "proc": 0, "q": {"vf": ["nr", 0.5, ""]}}],
         "er": [{"name": "r", "spec": 0, "mat": 0, "p": [a], "files": [["f", "u"]]}]}
    what = [["e", i] for i in range(14)] + [["val", v] for v in (
        ["nr", 1.5, "m"], ["norm", 1.5, 0.5, "m"], ["ur", 0.5, 1.5, "kg"], ["ni", 3],
        ["ui", 1, 3], ["nc", "x"], ["dc", [["x", 0.5], ["y", 0.5]]], ["ef", "H2O"],
        ["comp", [["x", 0.5]]], ["inchi", "InChI=1S/H2O/h1H2"], ["smiles", "CC"])]
    what += [["bnd", b] for b in (["real", 0.5, 1.5, "m"], ["int", 0, 5], ["cat", ["x"]],
                                  ["comp", ["x"]], ["mol"])]
    what += [["attr", dict(a, k=k)] for k in "pcm"] + [["link", {"x": ["id", "1"]}]]
    for extra in ("zzz", "typ"):
        for w in what:
            yield {"what": w, "extra": extra, "g": g}


def check(recipe, case):
    if "decl" in recipe:
        isolated(declare, recipe["decl"])
        case.interesting()
        case.label("declarations")
        return
    g = Graph(recipe["g"])
    obj = g.thing(recipe["what"])
    if obj is None:
        return
    cls = type(obj)
    ident = {"on_entity": lambda y: ("id", id(y))}
    case.label("class:" + cls.__name__)
    if model.children(obj) or len(model.links(obj)):
        case.interesting()

    def first():
        DictSerializable.build(obj.dump())
        repr(obj)
        GEMDJson(scope="thin").thin_dumps(obj)
    history.age(recipe.get("edits"), g, first, case)

    # dictionary form
    before = model.snapshot(obj)
    d = obj.as_dict()
    require(set(d) == set(model.fields(obj)) | {"type"}, "as_dict of {} has keys {}",
            cls.__name__, sorted(d))
    require(d["type"] == model.TYP[cls.__name__], "as_dict type tag is {}", d["type"])
    for f in model.fields(obj):
        require(model.json_form(d[f], **ident) == model.json_form(getattr(obj, f), **ident),
                "as_dict field {} of {} is {}", f, cls.__name__, d[f])
    # raw JSON forms
    want = model.unfold(obj)
    jf = model.json_form(obj)
    enc = GEMDJson()
    dumped = obj.dump()
    model.same_json(jf, dumped, "dump()")
    text = enc.raw_dumps(obj)
    model.same_json(jf, json.loads(text), "raw_dumps()")
    printed(obj)
    renamed(obj)
    model.unchanged(before, obj, "dictionary, raw and printed forms")
    for what, res in (("build(dump())", DictSerializable.build(dumped)),
                      ("raw_loads(raw_dumps())", enc.raw_loads(text)),
                      ("build with an extra field",
                       cls.build(dict(json.loads(text), **{recipe["extra"]: 1})))):
        require(type(res) is cls, "{} made a {}", what, type(res).__name__)
        compare(want, model.unfold(res), what)
    model.unchanged(before, obj, "rebuilding from raw forms")
    bad = dict(json.loads(text), type="no_such_type")
    expect_raises(TypeError, lambda: cls.build(bad), "build with an unknown type tag")
    expect_raises(TypeError, lambda: enc.raw_loads(json.dumps({"a": [bad]})),
                  "raw_loads with a nested unknown type tag")
    expect_raises(TypeError, lambda: gjson.loads(json.dumps({"context": [], "object": bad})),
                  "loads with an unknown type tag")
    # thin form
    thin = GEMDJson(scope="thin").thin_dumps(obj)
    model.unchanged(before, obj, "thin_dumps", gained_scope="thin")
    exp = {f: model.json_form(getattr(obj, f), on_entity=lambda y: ("ref", model.key(y)))
           for f in model.fields(obj)}
    exp["type"] = model.TYP[cls.__name__]
    model.same_json(exp, json.loads(thin), "thin_dumps()")
    back = enc.raw_loads(thin)
    require(type(back) is cls, "thin form made a {}", type(back).__name__)
    model.match_links(model.ref_plain(obj), model.ref_plain(back), "thin form")
    # several raw forms side by side: links stay links
    ents = model.closure(obj)[:6]
    if ents:
        lks = [LinkByUID(*next(iter(e.uids.items()))) for e in ents]
        text = "[{}]".format(", ".join([GEMDJson(scope="thin").thin_dumps(e) for e in ents]
                                       + [enc.raw_dumps(lk) for lk in lks]))
        back = enc.raw_loads(text)
        require(len(back) == 2 * len(ents), "raw_loads of a list gave {} items", len(back))
        for e, r in zip(ents, back):
            require(type(r) is type(e), "raw_loads of a list made a {}", type(r).__name__)
            model.match_links(model.ref_plain(e), model.ref_plain(r), "raw_loads of a list")
        for lk, r in zip(lks, back[len(ents):]):
            require(isinstance(r, LinkByUID) and (r.scope, r.id) == (lk.scope, lk.id),
                    "raw_loads turned the link {} into a {}", lk, type(r).__name__)
    # from_dict (last: the rebuilt entity joins the same processes and materials)
    d = dict(obj.as_dict(), **{recipe["extra"]: 1})
    rec = {f: model.json_form(getattr(obj, f), **ident) for f in model.fields(obj)}
    res = cls.from_dict(d)
    require(type(res) is cls and res is not obj, "from_dict made a {}", type(res).__name__)
    for f in model.fields(obj):
        require(model.json_form(getattr(res, f), **ident) == rec[f],
                "from_dict(as_dict()) changed {} of {} to {}", f, cls.__name__, getattr(res, f))


# spelled so that the generators, which reuse literals of the source, never come up with it
OTHER = "".join(["some", "other", "name"])


def renamed(obj):
    """Back-references are shown by their names, whatever these are."""
    for x in model.back(obj):
        if type(x).__name__ != "IngredientRun":
            before, x.name = x.name, OTHER
            require(OTHER in repr(obj), "repr of a {} does not show the name of its {}",
                    type(obj).__name__, type(x).__name__)
            x.name = before


def printed(obj):
    """The printed form is finite and shows every field; back-references by class and name."""
    for form in (repr, str):
        try:
            text = form(obj)
        except RecursionError:
            raise Violation("printing a {} does not end".format(type(obj).__name__))
        for f in model.fields(obj):
            v = getattr(obj, f)
            require(f in text, "{} of a {} does not show {}", form.__name__, type(obj).__name__, f)
            if v is None or isinstance(v, (bool, int, float)) or type(v) is str and v.isalnum():
                require(repr(v) in text, "{} of a {} shows {}, not {} for {}", form.__name__,
                        type(obj).__name__, text, v, f)
        for x in model.back(obj) + model.children(obj):
            require(not str(x.name).isalnum() or str(x.name) in text,
                    "{} of a {} does not show {}", form.__name__, type(obj).__name__, x.name)
        for x in model.back(obj):
            require(type(x).__name__ in text, "{} of a {} does not show a {}", form.__name__,
                    type(obj).__name__, type(x).__name__)


def declare(history):
    from gemd.entity.attribute import Property
    from gemd.entity.object import ProcessSpec
    from gemd.entity.value import NominalInteger
    classes = [ProcessSpec, NominalInteger, Property]
    samples = {"process_spec": lambda: ProcessSpec("a", uids={"id": "1"}),
               "nominal_integer": lambda: NominalInteger(3), "property": lambda: Property("p")}
    tags = list(samples)
    base = DictSerializable.class_mapping
    mapping = dict(base)
    tag_of = {c: c.typ for c in classes}
    root_of = {ProcessSpec: "process_spec", NominalInteger: "nominal_integer",
               Property: "property"}
    for n, (p, typ) in enumerate(history):
        parent = classes[p % len(classes)]
        tag = {None: None, "own": "own_tag_{}".format(n), "other": "link_by_uid"}.get(
            typ, tags[typ % 3] if isinstance(typ, int) else None)
        kw = {} if tag is None else {"typ": tag}

        def make():
            return type(parent)("Sub{}".format(n), (parent,), {}, **kw)
        if tag is not None and tag in mapping and not issubclass(parent, mapping[tag]):
            expect_raises(ValueError, make, "a class taking the tag of a non-ancestor")
        else:
            new = make()
            classes.append(new)
            tag_of[new] = tag or tag_of[parent]
            root_of[new] = root_of[parent]
            if tag is not None:
                mapping[tag] = new
        now = DictSerializable.class_mapping
        require(now == mapping, "class mapping differs for {}",
                [k for k in set(now) | set(mapping) if now.get(k) is not mapping.get(k)])
        now.clear()
        require(DictSerializable.class_mapping == mapping, "the mapping handed out is live")
        for c in classes:
            sample = samples[root_of[c]]()
            data = dict(sample.dump(), type=tag_of[c])
            for res in (DictSerializable.build(data), GEMDJson().raw_loads(json.dumps(data))):
                require(type(res) is mapping[tag_of[c]], "tag {} built a {} instead of a {}",
                        tag_of[c], type(res).__name__, mapping[tag_of[c]].__name__)
                require(res.as_dict()["type"] == tag_of[type(res)], "wrong tag {}",
                        res.as_dict()["type"])
            if root_of[c] == "process_spec" and tag_of[c] not in samples:
                continue         # a document only orders entities of the shipped tags
            copied = gjson.loads(gjson.dumps({"x": res}))["x"]
            require(type(copied) is type(res), "JSON turned a {} into a {}", type(res).__name__,
                    type(copied).__name__)
    return True
