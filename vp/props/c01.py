"""C01: JSON round trip reproduces the whole object graph."""
import io
import json as std_json
import os

import gemd.json as gjson
from gemd.json import GEMDJson
from hypothesis import strategies as st

from .. import gens, history, model
from ..build import Graph
from ..core import require

RULE = ("a graph recipe over all 14 entity classes plus a container recipe; non-trivial: at least "
        "two entities are reachable and something is shared, linked, attributed or nested")
BUDGET = {"quick": 7800, "thorough": 60000}
ASSUMPTIONS = ["uid (scope, id) pairs are unique to one object, as GEMD requires",
               "each process produces at most one material",
               "strings are valid unicode; dictionary keys are strings other than 'type'"]

ROUTES = ["module", "json", "file", "copy", "indent", "twice", "kwargs", "kwargs"]


def strategies(tier):
    def recipe(g):
        return st.fixed_dictionaries({
            "route": st.sampled_from(ROUTES), "root": gens.root(), "edits": history.ops(),
            "scope": st.sampled_from(["auto", "auto", "id", "my_scope", "NEW"]), "g": g,
            "kw": st.fixed_dictionaries({}, optional={
                "indent": st.sampled_from([0, 1, 3, "\t"]), "ensure_ascii": st.booleans(),
                "separators": st.sampled_from([(",", ":"), (" ,", " : ")]).map(list)})})
    return [(3, recipe(gens.graph())), (1, recipe(gens.graph(links=False, big=2))),
            (2, recipe(gens.topology())), (0.06, recipe(gens.long()))]


def known():
    return {
        "composition-type": {"g": {}, "root": ["val", ["comp", [["type", 1.0]]]],
                             "route": "json", "scope": "auto"},
        "category-type": {"g": {}, "root": ["val", ["dc", [["type", 1.0]]]],
                          "route": "json", "scope": "auto"},
        "dict-type": {"g": {}, "root": ["dict", [["type", ["lit", "x"]]]],
                      "route": "json", "scope": "auto"},
        "uid-type": {"g": {"ps": [{"name": "a", "uids": [["type", "1"]]}]}, "root": ["e", 0],
                     "route": "json", "scope": "auto"},
    }


def with_kwargs(obj, enc, kw):
    """Keyword arguments reach json.dumps and json.loads, through every entry point."""
    if "separators" in kw:
        kw = dict(kw, separators=tuple(kw["separators"]))
    plain = enc.dumps(obj)
    want = std_json.dumps(std_json.loads(plain), sort_keys=True, **kw)
    for what, fn in (("GEMDJson", enc), ("gemd.json", gjson)):
        require(fn.dumps(obj, **kw) == want, "{}.dumps(**{}) is not the text of dumps() formatted "
                "as json.dumps does", what, kw)
        with io.StringIO() as f:
            fn.dump(obj, f, **kw)
            require(f.getvalue() == want, "{}.dump(**{}) wrote another text than dumps", what, kw)
    thin = std_json.dumps(std_json.loads(enc.thin_dumps(obj)), sort_keys=True, **kw)
    require(enc.thin_dumps(obj, **kw) == thin, "thin_dumps(**{}) is formatted otherwise", kw)
    result = []
    for text, fns in ((want, (enc.loads, gjson.loads, enc.load, gjson.load)),
                      (thin, (enc.raw_loads,))):
        expect = []
        std_json.loads(text, parse_float=lambda t: expect.append(t) or float(t))
        for fn in fns:
            got = []
            src = io.StringIO(text) if fn.__name__ == "load" else text
            result.append(fn(src, parse_float=lambda t: got.append(t) or float(t)))
            require(got == expect, "{}(parse_float=...) called it with {} instead of {}",
                    fn.__name__, got, expect)
    return result[len(plain) % 4]


def roundtrip(obj, route, scope, kw):
    enc = GEMDJson(scope=scope)
    if route == "kwargs":
        return with_kwargs(obj, enc, kw), scope
    if route == "module":
        return gjson.loads(gjson.dumps(obj)), "auto"
    if route == "json":
        return enc.loads(enc.dumps(obj)), scope
    if route == "copy":
        return enc.copy(obj), scope
    if route == "indent":
        return gjson.loads(enc.dumps(obj, indent=2)), scope
    if route == "twice":
        return enc.loads(enc.dumps(enc.loads(enc.dumps(obj)))), scope
    if route == "file":
        path = os.path.join(os.environ["VP_SCRATCH"], "c01-{}.json".format(os.getpid()))
        with open(path, "w", encoding="utf-8") as f:
            enc.dump(obj, f)
        with open(path, encoding="utf-8") as f:
            res = enc.load(f)
        with io.StringIO() as f:
            gjson.dump(obj, f)
            f.seek(0)
            again = gjson.load(f)
        require(model.picture(again)["top"] == model.picture(res)["top"],
                "gemd.json.load and GEMDJson.load disagree")
        return res, scope
    raise AssertionError(route)


def check(recipe, case):
    g = Graph(recipe["g"])
    obj = g.thing(recipe["root"])
    # (a material is not moved to another process: two may claim one then)
    history.age(recipe.get("edits"), g, lambda: gjson.loads(gjson.dumps(obj)), case,
                skip=[("MaterialRun", "process"), ("MaterialSpec", "process")])
    before = model.snapshot(obj)
    res, scope = roundtrip(obj, recipe["route"], recipe["scope"], recipe.get("kw", {}))
    model.unchanged(before, obj, "dumping", gained_scope=scope)
    want = model.picture(obj)
    got = model.picture(res)
    model.same_picture(want, got, "round trip")
    model.check_back(got, "round trip")
    for e in got["ents"]:
        require(all(e is not x for x in want["ents"]), "the loaded graph shares an object with "
                "the input")
    left = [lk for e in got["ents"] for lk in model.links(e)] + model.links(res)
    for lk in left:
        require((lk.scope.lower(), lk.id) not in got["index"],
                "a link to an object of the same document was left unresolved: {}", lk)
    n = len(want["ents"])
    case.label("entities:" + ("0" if n == 0 else "1" if n == 1 else "2-5" if n < 6 else "6+"))
    case.label("route:" + recipe["route"])
    for e in want["ents"]:
        case.label("class:" + type(e).__name__)
    if left:
        case.label("dangling links kept")
    resolved = sum(len(model.links(e)) for e in want["ents"]) + len(model.links(obj)) - len(left)
    if resolved:
        case.label("links resolved")
    if n >= 2:
        case.interesting()
