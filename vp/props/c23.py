"""C23: a complete material history holds every connected object once."""
from gemd.entity.util import complete_material_history
from hypothesis import strategies as st

from .. import gens, history, model
from ..build import Graph
from ..core import require

RULE = ("a graph recipe and a starting entity; non-trivial: two or more entities are connected "
        "to the start")
BUDGET = {"quick": 8000, "thorough": 20000}
ASSUMPTIONS = ["uid (scope, id) pairs are unique to one object, as GEMD requires"]


def strategies(tier):
    def recipe(g):
        return st.fixed_dictionaries({"start": st.one_of(
            st.integers(-12, -1), st.integers(-12, -1),
            st.sampled_from([["k", "mr", -1], ["k", "mr", 0], ["k", "pr", -1], ["k", "ms", -1]])),
            "g": g, "edits": history.ops()})
    small = {k: 2 for k in gens.SIZES}
    return [(2, recipe(gens.graph(sizes=small))), (1, recipe(gens.graph(uid_min=1, sizes=small))),
            (2, recipe(gens.topology(3, displaces=True))), (1, recipe(gens.topology(3, uid_min=1))), (0.06, recipe(gens.long(9, 5))),
            (0.03, recipe(st.builds(gens.large, st.just("hub"), st.integers(8, 14), st.just(1),
                                    st.booleans(), st.sampled_from([0, 1, 3]))))]


def check(recipe, case):
    g = Graph(recipe["g"])
    start = recipe["start"]
    obj = g.thing(start if isinstance(start, list) else ["e", start])
    if obj is None:
        return
    history.age(recipe.get("edits"), g, lambda: complete_material_history(obj), case)
    ents = model.closure(obj)
    before = model.snapshot(obj)
    hist = complete_material_history(obj)
    model.unchanged(before, obj, "complete_material_history", gained_scope="auto")
    by_key = {model.key(e): e for e in ents}
    index = {pair: k for k in by_key for pair in k}
    require(isinstance(hist, list) and all(isinstance(d, dict) for d in hist),
            "the history is not a list of dictionaries")
    seen = set()
    for d in hist:
        k = frozenset((s.lower(), i) for s, i in d["uids"].items())
        require(k in by_key, "the history holds an unconnected object {}", sorted(k))
        require(k not in seen, "the history holds {} twice", sorted(k))
        seen.add(k)
        e = by_key[k]
        exp = {f: model.json_form(getattr(e, f), on_entity=lambda y: ("ref", model.key(y)))
               for f in model.fields(e)}
        exp["type"] = model.TYP[type(e).__name__]
        exp = resolved(exp, e, index, by_key)
        model.same_json(exp, d, "history entry for " + type(e).__name__)
    missing = set(by_key) - seen
    require(not missing, "the history lacks {}", [sorted(m) for m in missing])
    n = len(ents)
    case.label("entities:" + ("1" if n == 1 else "2-5" if n < 6 else "6+"))
    if n >= 2:
        case.interesting()


def resolved(exp, e, index, by_key):
    """An ingredient run whose spec was given as a link to a connected spec shows its name."""
    from gemd.entity.link_by_uid import LinkByUID
    if type(e).__name__ == "IngredientRun" and isinstance(e.spec, LinkByUID):
        k = index.get((e.spec.scope.lower(), e.spec.id))
        if k is not None:
            exp["name"] = by_key[k].name
            exp["labels"] = list(by_key[k].labels)
    return relink(exp, index)


def relink(x, index):
    """Links given in the input to a connected object may come back with another of its uids."""
    if isinstance(x, dict):
        if set(x) == {"type", "scope", "id"} and x["type"] == "link_by_uid":
            k = index.get((x["scope"].lower(), x["id"]))
            return x if k is None else ("ref", k)
        return {a: relink(b, index) for a, b in x.items()}
    if isinstance(x, list):
        return [relink(b, index) for b in x]
    return x
