"""C21: links made from an entity always denote that entity."""
from gemd.entity.link_by_uid import LinkByUID
from hypothesis import strategies as st

from .. import gens, model
from ..build import Graph
from ..core import expect_raises, require

RULE = ("one entity of any class with 0-4 uids, a requested scope and a fallback choice; "
        "non-trivial: every case (each decides one request)")
BUDGET = {"quick": 18000, "thorough": 120000}
SCOPES = gens.SCOPES + [None, "AUTO", "Id", "MY_SCOPE", "none", "Type", "ÜNÏ"]


def strategies(tier):
    kinds = list(gens.SIZES)
    one = st.sampled_from(kinds).flatmap(lambda k: st.fixed_dictionaries({
        "how": st.sampled_from(["to_link", "to_link", "from_entity"]),
        "scope": st.one_of(st.sampled_from(SCOPES), gens.free_text()),
        "fallback": st.sampled_from([None, True, False]),
        "edits": st.lists(st.tuples(st.integers(0, 4), st.booleans()).map(list), max_size=3),
        "g": st.builds(lambda n, u: {k: [dict(n, uids=u)]},
                       gens.node(k, False), gens.uids(0, 4))}))
    return [(1, one)]


class Lookalike:
    """Not a string, but printed as one."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    __repr__ = __str__


def check(recipe, case):
    e = Graph(recipe["g"]).all[0]
    scope, fb = recipe["scope"], recipe["fallback"]
    for n, again in recipe.get("edits", []):       # links made of an earlier state of its uids
        for how in (e.to_link, lambda s: e.to_link(s, allow_fallback=True)):
            for s in [scope, *e.uids]:
                try:
                    how(s)
                except ValueError:
                    pass
        if len(e.uids):
            s = sorted(e.uids)[n % len(e.uids)]
            if again:
                e.uids[s] = e.uids[s] + "+"
            else:
                del e.uids[s]
        else:
            e.uids["id"] = "late"
    had = {s.lower(): i for s, i in e.uids.items()}
    before = model.snapshot(e)
    case.interesting()
    if recipe["how"] == "to_link":
        kw = {} if fb is None else {"allow_fallback": fb}

        def call():
            return e.to_link(**kw) if scope is None else e.to_link(scope, **kw)
        if not had or (scope is not None and scope.lower() not in had and not fb):
            expect_raises(ValueError, call, "to_link({!r}, {}) on uids {}".format(scope, kw, had))
            model.unchanged(before, e, "to_link")
            case.label("refused")
            return
        lk = call()
        model.unchanged(before, e, "to_link")
        want = scope
    else:
        lk = LinkByUID.from_entity(e) if scope is None else LinkByUID.from_entity(e, scope=scope)
        want = "auto" if scope is None else scope
        model.unchanged(before, e, "from_entity", gained_scope=want)
    require(isinstance(lk, LinkByUID), "got a {}", type(lk).__name__)
    now = {s.lower(): i for s, i in e.uids.items()}
    require(now.get(lk.scope.lower()) == lk.id, "link {} is not a uid of the entity {}", lk, now)
    if want is not None and want.lower() in now:
        require(lk.scope.lower() == want.lower(), "scope {} was requested, link is {}", want, lk)
        case.label("requested scope")
    else:
        case.label("fallback")
    require(e == lk and lk == e, "the entity does not equal its link")
    pair = (lk.scope, lk.id)
    require(lk == pair and pair == lk and hash(lk) == hash(pair), "link differs from its pair")
    require({lk: 1}.get(pair) == 1 and {pair: 1}.get(lk) == 1, "not interchangeable as a key")
    require(e == pair and e == LinkByUID(lk.scope.swapcase(), lk.id) or
            lk.scope.swapcase().lower() != lk.scope.lower(), "scope case matters in comparison")
    for x in ((lk.scope, Lookalike(lk.id)), (Lookalike(lk.scope), lk.id), (lk.scope,),
              (lk.scope, lk.id, lk.id), ()):
        require(not (lk == x) and not (x == lk), "{} equals {}", lk, x)
    other = LinkByUID(lk.scope, lk.id + "~")
    require(not (e == other) and not (other == e) and not (e == (lk.scope, lk.id + "~")),
            "the entity equals a link to another id")
    require(not (e == LinkByUID("no such scope", lk.id)), "entity equals a link in another scope")
