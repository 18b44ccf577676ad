"""C19: traversals visit every reachable entity exactly once."""
from collections import Counter

from gemd.util import recursive_flatmap, recursive_foreach, set_uuids
from hypothesis import strategies as st

from .. import gens, history, model
from ..build import Graph
from ..core import require

RULE = ("a graph recipe plus a root, nested container or entity-keyed dictionary; non-trivial: two "
        "or more entities are reachable")
BUDGET = {"quick": 9000, "thorough": 60000}


def strategies(tier):
    def recipe(g):
        return st.fixed_dictionaries({
            "scope": st.sampled_from(["auto", "id", "NEW"]), "first": st.booleans(),
            "root": st.one_of(gens.root(), gens.root(), gens.keyed(), gens.unusual()), "g": g,
            "edits": history.ops()})
    return [(2, recipe(gens.graph())), (3, recipe(gens.topology(displaces=True))),
            (1, recipe(gens.graph(uid_min=1))), (0.05, recipe(gens.long()))]


def once(got, want, what):
    names = {id(e): type(e).__name__ for e in want}
    count = Counter(id(e) for e in got)
    for e in want:
        n = count.pop(id(e), 0)
        require(n == 1, what + ": {} {} visited {} times", names[id(e)], e.name, n)
    require(not count, what + ": visited {} objects that are not reachable", len(count))


def check(recipe, case):
    g = Graph(recipe["g"])
    obj = g.thing(recipe["root"])
    seen = []
    fail = [recipe["first"]]

    def note(e):
        """Breaks off the first time it is used in some cases."""
        if fail[0] and (len(seen) == 1 or recipe["scope"] == "id"):
            raise ValueError("not this time")
        seen.append(e)

    def first():
        for e in g.all:
            e.all_dependencies()
        recursive_flatmap(obj, lambda e: [e])
        recursive_foreach(obj, note, apply_first=recipe["first"])
    history.age(recipe.get("edits"), g, first, case)
    fail[0] = False
    before = model.snapshot(obj)
    everything = model.closure(obj)
    forward = model.closure(obj, bidirectional=False)

    seen.clear()
    recursive_foreach(obj, note, apply_first=recipe["first"])
    once(seen, everything, "recursive_foreach")
    out = recursive_flatmap(obj, lambda e: [("x", e), ("y", e)], unidirectional=True)
    once([e for t, e in out if t == "x"], forward, "recursive_flatmap")
    once([e for t, e in out if t == "y"], forward, "recursive_flatmap")
    out = recursive_flatmap(obj, lambda e: [e], unidirectional=False)
    once(out, everything, "recursive_flatmap(unidirectional=False)")
    require(recursive_flatmap(obj, lambda e: []) == [], "an empty map gave a result")
    for e in everything:
        deps = e.all_dependencies()
        kids = {id(c) for c in model.children(e)}
        lks = {(k.scope, k.id) for k in model.links(e)}
        require({id(d) for d in deps if isinstance(d, model.BaseEntity)} == kids,
                "dependencies of {} are {}", type(e).__name__, deps)
        require({(d.scope, d.id) for d in deps if not isinstance(d, model.BaseEntity)} == lks,
                "link dependencies of {} are {}", type(e).__name__, deps)
        if lks:
            case.label("link dependencies")
    model.unchanged(before, obj, "traversal")

    had = {id(e) for e in everything if len(e.uids)}
    set_uuids(obj, recipe["scope"])
    model.unchanged(before, obj, "set_uuids", gained_scope=recipe["scope"])
    new = [e.uids[recipe["scope"]] for e in everything if id(e) not in had]
    require(len(set(new)) == len(new), "set_uuids repeated an id")
    n = len(everything)
    case.label("entities:" + ("0" if n == 0 else "1" if n == 1 else "2-5" if n < 6 else "6+"))
    if len(forward) < n:
        case.label("back-references matter")
    if n >= 2:
        case.interesting()
