"""Edits of a graph between two uses of it: what an answer is made from has to be its latest state."""
from gemd.entity.base_entity import BaseEntity
from hypothesis import strategies as st

from . import build
from .core import pick
from .props import c26

FRESH = "now-{}".format(3 * 37)


def ops(uids=True):
    """Zero to four edits; none at all in half of the cases."""
    i = st.integers(0, 40)
    kinds = [st.tuples(st.just("ref"), i, i, st.one_of(st.none(), i, i)),
             st.tuples(st.just("ref"), i, i, i),
             st.tuples(st.just("attr"), i, i, st.one_of(st.none(), i), st.just(1),
                       st.integers(-2, 9).map(lambda x: ["ni", x]), st.sampled_from("xyz")),
             st.tuples(st.just("entry"), i, i, i, st.just(1), st.just(None)),
             st.tuples(st.just("drop"), i, i), st.tuples(st.just("tag"), i, st.sampled_from("tu")),
             st.tuples(st.just("text"), i, st.sampled_from(["a", "other", ""])),
             st.tuples(st.just("file"), i, i)]
    if uids:
        kinds += [st.tuples(st.just("uid"), i, i)] * 2
    return st.one_of(st.just([]), st.lists(st.one_of(*kinds).map(list), min_size=1, max_size=4))


def edit(op, n, ents):
    e = pick(ents, op[1])
    if op[0] == "uid":
        # an id that no other entity has, under a scope it has or a new one
        scopes = sorted(e.uids) + ["id", "auto"]
        e.uids.pop(scopes[op[2] % len(scopes)], None) if op[2] % 5 == 4 and len(e.uids) > 1 \
            else e.uids.update({scopes[op[2] % len(scopes)]: FRESH + str(n)})
    elif op[0] == "file":
        e.file_links.append(build.FileLink("late", str(op[2]))) if hasattr(e, "file_links") \
            else setattr(e, "description", "late")
    else:
        act = c26.edit(op, ents)
        if act is not None:
            act()


def age(edits, graph, warm, case, skip=()):
    """Ask once for the answer, which is then thrown away, and edit the graph."""
    if not edits:
        return
    ents = [e for e in graph.all if isinstance(e, BaseEntity)]
    if not ents:
        return
    try:
        warm()
    except (ValueError, TypeError):       # what is refused is judged afterwards, not here
        pass
    for n, op in enumerate(edits):
        if op[0] == "ref" and skip:
            e = pick([x for x in ents if type(x).__name__ in c26.REFS], op[1])
            if e is not None and (type(e).__name__, pick(
                    sorted(c26.REFS[type(e).__name__]), op[2])) in skip:
                continue
        try:
            edit(op, n, ents)
        except (ValueError, TypeError, IndexError):
            pass
    case.label("asked before an edit")
