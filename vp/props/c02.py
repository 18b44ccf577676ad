"""C02: flattening lists every reachable entity once, dependencies first."""
from gemd.util import flatten
from gemd.entity.object import (MaterialRun, MaterialSpec, MeasurementSpec, ProcessRun,
                                ProcessSpec)
from gemd.entity.template import ProcessTemplate
from hypothesis import strategies as st

from .. import gens, history, model
from ..build import Graph
from ..core import expect_raises, require

RULE = ("a graph recipe, a root or container, and a scope or none; non-trivial: two or more "
        "entities are reachable, a uid-less entity is met without a scope, or separate copies of an "
        "entity share a uid")
BUDGET = {"quick": 7800, "thorough": 60000}
ASSUMPTIONS = ["objects that share a uid (scope, id) pair are copies of one entity"]


def strategies(tier):
    def recipe(g, root=None):
        return st.fixed_dictionaries({
            "scope": st.sampled_from([None, "auto", "auto", "id", "NEW"]),
            "root": root or st.one_of(*[gens.root()] * 4, gens.unusual()), "g": g,
            "edits": history.ops()})
    return [(2, recipe(gens.graph())), (1, recipe(gens.graph(uid_min=1, big=2))),
            (2, recipe(gens.topology(displaces=True))), (1, recipe(gens.topology(uid_min=1))), (1, twins()),
            (0.05, recipe(gens.long()))]


def twins():
    """Separate objects that share some of their uids: copies of one entity."""
    pair = st.tuples(st.sampled_from(["a", "B", "c", "d", "é"]), st.sampled_from(["1", "2", "x"])).map(list)
    one = st.fixed_dictionaries({
        "k": st.integers(0, len(KINDS) - 1), "uids": st.lists(pair, min_size=1, max_size=6),
        "under": st.one_of(st.none(), st.lists(pair, min_size=1, max_size=2))})
    return st.fixed_dictionaries({"twins": st.lists(one, min_size=2, max_size=6),
                                  "box": st.sampled_from(["list", "tuple", "dict", "keys", "nest"])})


KINDS = [MaterialRun, ProcessRun, MeasurementSpec, MaterialSpec, ProcessTemplate]


def check_twins(recipe, case):
    made = []
    for t in recipe["twins"]:
        kw = {}
        if t["under"] and t["k"] in (0, 3):
            kw["process"] = (ProcessRun if t["k"] == 0 else ProcessSpec)("p", uids=dict(t["under"]))
        made.append(KINDS[t["k"]]("m", uids=dict(t["uids"]), **kw))
    box = {"list": made, "tuple": tuple(made), "dict": {"x": made[0], "y": made[1:]},
           "keys": dict.fromkeys(made), "nest": [made[:1], [made[1:]]]}[recipe["box"]]
    ents = model.closure(box)
    res = flatten(box)
    seen = {}
    for i, r in enumerate(res):
        for pair in model.key(r):
            require(pair not in seen, "flatten lists {} twice", pair)
        for pair in model.key(r):
            seen[pair] = i
    groups = []                        # entities connected by the uids they share
    for e in ents:
        mine = set(model.key(e))
        for g in [g for g in groups if g & mine]:
            groups.remove(g)
            mine |= g
        groups.append(mine)
    for g in groups:
        require(any(pair in seen for pair in g), "flatten dropped {}", sorted(g))
    if len(res) < len(ents):
        case.label("copies")
        case.interesting()


def check(recipe, case):
    if "twins" in recipe:
        check_twins(recipe, case)
        return
    g = Graph(recipe["g"])
    obj = g.thing(recipe["root"])
    scope = recipe["scope"]
    history.age(recipe.get("edits"), g, lambda: flatten(obj, scope), case)
    ents = model.closure(obj)
    before = model.snapshot(obj)
    if scope is None and any(len(e.uids) == 0 for e in ents):
        expect_raises(ValueError, lambda: flatten(obj), "flatten of a uid-less entity, no scope")
        model.unchanged(before, obj, "refused flatten")
        case.label("refused")
        case.interesting()
        return
    res = flatten(obj) if scope is None else flatten(obj, scope)
    model.unchanged(before, obj, "flatten", gained_scope=scope)
    want = {model.key(e): e for e in ents}
    seen = {}
    for i, r in enumerate(res):
        require(isinstance(r, model.BaseEntity), "flatten returned a {}", type(r).__name__)
        k = model.key(r)
        require(k in want, "flatten returned an object that is not reachable: {}", sorted(k))
        require(k not in seen, "flatten returned {} twice", sorted(k))
        require(all(r is not e for e in ents), "flatten returned an input object itself")
        seen[k] = i
        model.match_links(model.ref_plain(want[k]), model.ref_plain(r), "flatten")
    missing = set(want) - set(seen)
    require(not missing, "flatten dropped {}", [sorted(m) for m in missing])
    where = {pair: i for k, i in seen.items() for pair in k}
    for i, r in enumerate(res):
        for lk in model.links(r):
            j = where.get((lk.scope.lower(), lk.id))
            require(j is None or j < i, "{} precedes {} to which it refers", type(r).__name__, lk)
    n = len(ents)
    case.label("entities:" + ("0" if n == 0 else "1" if n == 1 else "2-5" if n < 6 else "6+"))
    if n >= 2:
        case.interesting()
