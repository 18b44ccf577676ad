"""C03: link substitution and object substitution are inverse."""
from collections import UserDict, UserList, deque

from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import make_index, substitute_links, substitute_objects
from hypothesis import strategies as st

from .. import gens, history, model
from ..build import Graph
from ..core import Violation, expect_raises, require

RULE = ("a graph in which every entity has uids, a root or container, preferred scope, fallback "
        "flag, in-place flag and an index subset; non-trivial: a reference is replaced or a "
        "substitution is refused")
BUDGET = {"quick": 7800, "thorough": 60000}
ASSUMPTIONS = ["every entity involved has at least one uid; uid pairs are unique to one object"]
BOXES = (list, dict, deque, UserList, UserDict)


def strategies(tier):
    def recipe(g):
        return st.fixed_dictionaries({
            "scope": st.sampled_from([None, None, "auto", "id", "ID", "Scope", "sCOPE", "none"]),
            "fallback": st.sampled_from([True, True, False]), "inplace": st.booleans(),
            "inplace2": st.booleans(), "drop": st.lists(st.integers(0, 30), max_size=4),
            "tuples": st.booleans(),
            "root": st.one_of(*[st.one_of(gens.root(), gens.keyed())] * 4, gens.unusual(
                ["deque", "userlist", "userdict"])), "g": g, "edits": history.ops()})
    return [(3, recipe(gens.graph(uid_min=1))), (2, recipe(gens.topology(uid_min=1, displaces=True))),
            (0.05, recipe(gens.long().map(identified)))]


def identified(g):
    """The graph with a uid on every node."""
    for k, nodes in g.items():
        for i, n in enumerate(nodes):
            n.setdefault("uids", [["id" if i % 3 else "auto", "{}{}".format(k, i)]])
    return g


def check(recipe, case):
    g = Graph(recipe["g"])
    obj = g.thing(recipe["root"])
    scope, fallback = recipe["scope"], recipe["fallback"]

    def first():
        substitute_objects(substitute_links(obj, scope), make_index(obj))
    history.age(recipe.get("edits"), g, first, case)

    # the index
    forward = model.closure(obj, bidirectional=False)
    before = model.snapshot(obj)
    idx = make_index(obj)
    want_idx = {(s, i): e for e in forward for s, i in e.uids.items()}
    require(len(idx) == len(want_idx) and set((k.scope, k.id) for k in idx) == set(want_idx),
            "make_index holds {} but should hold {}", list(idx), list(want_idx))
    for k, e in want_idx.items():
        require(idx.get(LinkByUID(*k)) is e and idx.get(k) is e,
                "make_index maps {} to a different object", k)
    model.unchanged(before, obj, "make_index")

    # objects -> links
    shown = model.ref_plain(obj)
    top = [obj] if isinstance(obj, BaseEntity) else []
    below = [e for e in model.children(obj)]
    by_key = {model.key(e): e for e in g.all}
    refuse = scope is not None and not fallback and any(
        scope.lower() not in {s.lower() for s in e.uids} for e in below)

    def choose(k, s, i):
        if scope is not None:
            uids = {a.lower(): b for a, b in by_key[k].uids.items()}
            if scope.lower() in uids:
                require(s.lower() == scope.lower() and i == uids[scope.lower()],
                        "preferred scope {} not used: link is ({}, {})", scope, s, i)

    def links(inplace):
        return substitute_links(obj, scope, allow_fallback=fallback, inplace=inplace)
    if refuse:
        expect_raises(ValueError, lambda: links(False), "substitute_links without the scope")
        model.unchanged(before, obj, "refused substitute_links")
        if recipe["inplace"]:
            expect_raises(ValueError, lambda: links(True), "substitute_links in place")
        case.label("refused")
        case.interesting()
        return
    linked = links(False)
    model.unchanged(before, obj, "substitute_links")
    require(not top or linked is not obj, "the copying form returned its argument")
    require(type(linked) is type(obj) or isinstance(obj, BOXES) or obj in below,
            "substitute_links turned a {} into a {}", type(obj).__name__, type(linked).__name__)
    if not (isinstance(obj, BaseEntity)):
        model.match_links(shown, model.ref_plain(linked), "substitute_links", choose)
    else:
        require(isinstance(linked, BaseEntity), "the top-level entity was replaced by a {}",
                type(linked).__name__)
        model.match_links(shown, model.ref_plain(linked), "substitute_links", choose)

    # links -> objects, with part of the index
    part = dict(sorted(want_idx.items()))
    keys = list(part)
    for d in recipe["drop"]:
        if keys:
            part.pop(keys[d % len(keys)], None)
    index = part if recipe["tuples"] else {LinkByUID(*k): e for k, e in part.items()}
    want = model.unfold(linked, part)
    lb = model.snapshot(linked)
    ib = model.snapshot(list(part.values()))
    restored = substitute_objects(linked, index)
    model.unchanged(lb, linked, "substitute_objects")
    model.unchanged(ib, list(part.values()), "substitute_objects (the index)")
    compare(want, model.unfold(restored), "substitute_objects")
    made = model.links(linked)
    if all((lk.scope, lk.id) in want_idx for lk in made) and not recipe["drop"]:
        case.label("full inverse")
        compare(model.unfold(obj, part), model.unfold(restored), "links and back")

    # the in-place forms
    if recipe["inplace2"]:
        if isinstance(linked, BOXES) or not isinstance(linked, (tuple, LinkByUID)):
            res = substitute_objects(linked, index, inplace=True)
            if isinstance(linked, BOXES) or isinstance(linked, model.DictSerializable):
                require(res is linked, "the in-place form returned another object")
            compare(want, model.unfold(res), "in-place substitute_objects")
            got = [e for e in model.children(res) if e is not res]
            known = {id(e) for e in part.values()}
            require(all(id(e) in known for e in got),
                    "in-place substitution put in objects that are not those of the index")
    if recipe["inplace"]:
        others = {id(e): model.record(e, lambda y: ("id", id(y))) for e in g.all if e is not obj}
        res = links(True)
        if isinstance(obj, BOXES) or isinstance(obj, model.DictSerializable):
            require(res is obj, "the in-place form returned another object")
        model.match_links(shown, model.ref_plain(res), "in-place substitute_links", choose)
        for e in g.all:
            if e is not obj and not recipe["inplace2"]:
                require(others[id(e)] == model.record(e, lambda y: ("id", id(y))),
                        "in-place substitution changed an entity below the top level")
        case.label("in place")
    if below:
        case.label("replaced", len(below))
        case.interesting()
    case.label("scope:{}".format(scope))
    if recipe["drop"] and len(part) < len(keys):
        case.label("partial index")


def compare(want, got, what):
    if want == got:
        return
    path = []
    a, b = want, got
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                path.append(str(x[0]) if isinstance(x, tuple) and x else str(x))
                a, b = x, y
                break
        else:
            break
    raise Violation("{}: at {} expected {} but found {}".format(
        what, "/".join(path)[:200], str(a)[:300], str(b)[:300]))
