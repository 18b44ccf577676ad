"""C12: equality is symmetric, discriminating and always terminates."""
import copy

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds import RealBounds
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.value import NominalReal
from hypothesis import strategies as st

from .. import build, gens, model
from ..core import pick, require

RULE = ("two builds of one graph, the second with tags, attributes, files and siblings in another "
        "order, compared object by object, then one field of one reachable object of the second "
        "changed; or pairs of values, bounds, attributes and links; non-trivial: the objects "
        "compared refer to others, or two different things are compared")
BUDGET = {"quick": 14000, "thorough": 200000}
ASSUMPTIONS = [
    "with equal uids an empty list equals any list (documented for flattened objects): not judged",
    "a link that denotes an object inside the structure stands for it whatever its fields",
    "reference chains shorter than the interpreter's recursion limit"]


def strategies(tier):
    mut = st.tuples(st.integers(0, 400), st.integers(0, 30), st.integers(0, 5))
    extra = {"i": st.one_of(st.integers(-8, -1), st.integers(-8, -1), st.integers(0, 40)),
             "mut": st.lists(mut.map(list), min_size=1, max_size=3),
             "j": st.integers(0, 40), "rev": st.integers(0, 31)}
    full = st.fixed_dictionaries({"g": gens.graph(links=False), **extra})
    linky = st.fixed_dictionaries({"g": gens.graph(links=True, uid_min=0), **extra})
    topo = st.fixed_dictionaries({"g": gens.topology(5, displaces=True), **extra})
    twins = st.fixed_dictionaries({"g": twin_topology(), **extra})
    named = st.fixed_dictionaries({"g": twin_topology(True),
                                   "how": st.sampled_from([None, "uid", "rewire", "rewire"]),
                                   **extra})
    rewired = st.fixed_dictionaries({"g": st.one_of(gens.topology(4), twin_topology()),
                                     "how": st.just("rewire"), **extra})
    leaf = st.one_of(gens.value().map(lambda v: ["val", v]), gens.bounds().map(
        lambda b: ["bnd", b]), small_value(), small_value(), small_value(),
        st.tuples(st.sampled_from(["a", "A", "b"]), st.sampled_from(["1", "2", "A", "a"])).map(
            lambda t: ["lnk", list(t)]), small_attr(), small_attr())
    pairs = st.fixed_dictionaries({"xs": st.lists(leaf, min_size=2, max_size=5)})
    uid = st.fixed_dictionaries({"uids": gens.uids(0, 4), "q": st.lists(
        st.tuples(st.sampled_from(gens.SCOPES), st.sampled_from(gens.IDS),
                  st.integers(0, 3)).map(list), min_size=1, max_size=6),
        "kind": st.sampled_from(["ps", "ms", "ir", "at"])})
    return [(4, full), (2, linky), (4, topo), (4, twins), (3, named), (2, rewired), (3, pairs), (2, uid),
            (0.2, st.fixed_dictionaries({"g": gens.long(), **extra}))]


def twin_topology(named=False):
    """Two names only, and at most the shared objects have uids: equal but distinct siblings."""
    r = gens.ref(False, False)
    nm = st.sampled_from(["a", "a", "b"])
    if named:
        r = st.one_of(st.just(0), r)
        nm = st.just("a")
    ids = {"uids": st.sampled_from([[], [["id", "1"]], [["id", "1"], ["Scope", "2"]]])}

    def kind(m, uids=True):
        m = dict(m, **(ids if named and uids else {}))
        return st.lists(st.fixed_dictionaries(dict({"name": nm}, **m)), min_size=1, max_size=4)
    if named:
        return st.fixed_dictionaries({
            "ps": kind({}), "es": kind({}), "ms": kind({"proc": r}),
            "is": kind({"mat": r, "proc": r}, False), "pr": kind({"spec": r}),
            "mr": kind({"spec": r, "proc": r}),
            "ir": kind({"spec": r, "mat": r, "proc": r}, False),
            "er": kind({"spec": r, "mat": r}, False)})
    return st.fixed_dictionaries({
        "ps": kind({}), "ms": kind({"proc": r}), "is": kind({"mat": r, "proc": r}),
        "pr": kind({"spec": r}), "mr": kind({"spec": r, "proc": r}),
        "ir": kind({"spec": r, "mat": r, "proc": r}), "er": kind({"mat": r})})


def small_value():
    n = st.sampled_from([0, 1, 1.0, 2, 0.0])
    u = st.sampled_from(["m", "meter", "cm", ""])
    sp = st.tuples(n, n).map(lambda t: sorted(t))
    i = st.integers(0, 2)
    c = st.lists(st.sampled_from("ab"), min_size=1, max_size=2, unique=True)
    return st.one_of(
        st.tuples(n, u).map(lambda t: ["val", ["nr", t[0], t[1]]]),
        st.tuples(n, n, u).map(lambda t: ["val", ["norm", t[0], t[1], t[2]]]),
        st.tuples(sp, u).map(lambda t: ["val", ["ur", t[0][0], t[0][1], t[1]]]),
        st.tuples(sp, u).map(lambda t: ["bnd", ["real", t[0][0], t[0][1], t[1]]]),
        i.map(lambda x: ["val", ["ni", x]]),
        st.tuples(i, i).map(sorted).map(lambda t: ["val", ["ui"] + t]),
        st.tuples(i, i).map(sorted).map(lambda t: ["bnd", ["int"] + t]),
        c.map(lambda x: ["bnd", ["cat", x]]), c.map(lambda x: ["bnd", ["comp", x]]),
        st.sampled_from("ab").map(lambda x: ["val", ["nc", x]]),
        c.map(lambda x: ["val", ["dc", [[k, 1 / len(x)] for k in x]]]),
        st.lists(st.tuples(st.sampled_from("ab"), n).map(list), max_size=2,
                 unique_by=lambda t: t[0]).map(lambda q: ["val", ["comp", q]]),
        st.sampled_from(["H2O", "OH2", "HO"]).map(lambda f: ["val", ["ef", f]]),
        st.sampled_from(["C", "CC"]).map(lambda f: ["val", ["smiles", f]]))


def small_attr():
    return st.fixed_dictionaries(
        {"k": st.sampled_from("pcm"), "name": st.sampled_from("ab")},
        optional={"value": small_value().filter(lambda v: v[0] == "val").map(lambda v: v[1]),
                  "notes": st.sampled_from([None, "n"]),
                  "origin": st.sampled_from(["measured", "computed", "unknown"]),
                  "files": st.lists(st.sampled_from([["f", "u"], ["f", "v"]]), max_size=2),
                  "tmpl": st.sampled_from([{"x": ["id", "1"]}, {"x": ["id", "2"]}, None])}
    ).map(lambda a: ["attr", a])


def check(recipe, case):
    if "xs" in recipe:
        pairs(recipe, case)
    elif "q" in recipe:
        by_uid(recipe, case)
    else:
        graphs(recipe, case)


def eq(a, b, want, what, *args):
    """a == b, both ways round, with != as its opposite; want None: only symmetry."""
    r = a == b
    require(isinstance(r, bool), what + ": == gave {}", *args, r)
    s = b == a
    require(r is s, what + ": a == b is {} but b == a is {}", *args, r, s)
    require((a != b) is not r, what + ": a != b agrees with a == b", *args)
    if want is not None:
        require(r is want, what + ": == is {} instead of {}", *args, r, want)
    return r


# ---------------------------------------------------------------- plain things
def norm(x):
    """Semantic rendering: numbers by value, everything else exactly."""
    if isinstance(x, (LinkByUID, DictSerializable)):
        return (type(x).__name__,) + tuple((f, norm(getattr(x, f))) for f in model.fields(x))
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(norm(y) for y in x)
    if isinstance(x, dict):
        return ("map", frozenset((k, norm(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(x))
    if isinstance(x, str):
        return str(x)
    return x


def pairs(recipe, case):
    def make(r):
        if r[0] == "lnk":
            return LinkByUID(*r[1])
        if r[0] == "attr":
            return build.Graph({}).attr(r[1])
        return build.value(r[1]) if r[0] == "val" else build.bounds(r[1])
    xs = [make(r) for r in recipe["xs"]]
    ys = [make(r) for r in recipe["xs"]]
    case.interesting()
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            want = norm(x) == norm(y)
            case.label("pair:{}".format(want))
            eq(x, y, want, "{} and {}", recipe["xs"][i], recipe["xs"][j])
        for odd in (None, "a", 1, [], ("a", "1"), {}, object):
            want = odd == ("a", "1") and recipe["xs"][i] == ["lnk", ["a", "1"]]
            eq(x, odd, want, "{} and {}", recipe["xs"][i], odd)


# ---------------------------------------------------------------- links and pairs
def by_uid(recipe, case):
    g = build.Graph({recipe["kind"]: [dict({"name": "x", "uids": recipe["uids"]},
                                           **({"k": "p", "bounds": ["mol"]}
                                              if recipe["kind"] == "at" else {}))]})
    e = g.all[0]
    folded = {s.lower(): i for s, i in e.uids.items()}
    if folded:
        case.interesting()
    for scope, id_, mode in recipe["q"] + [[s, i, m] for s, i in e.uids.items()
                                           for m in (0, 1, 2, 3)]:
        shown = (scope, scope.upper(), scope.lower(), scope.swapcase())[mode]
        if shown.lower() != scope.lower():
            shown = scope
        want = shown.lower() in folded and folded[shown.lower()] == id_
        case.label("uid:{}".format(want))
        eq(e, LinkByUID(shown, id_), want, "entity {} and link {}:{}", dict(e.uids), shown, id_)
        eq(e, (shown, id_), want, "entity {} and pair {}:{}", dict(e.uids), shown, id_)
        eq(e, (shown, id_, "x"), False, "entity and a triple")
        eq(e, (shown,), False, "entity and a 1-tuple")
        eq(e, shown, False, "entity and a string")
        eq(e, None, False, "entity and None")


# ---------------------------------------------------------------- graphs
def distinct_uids(g):
    g = copy.deepcopy(g)
    for k, nodes in g.items():
        for i, n in enumerate(nodes):
            if n.get("uids"):
                n["uids"] = [[s, "{}{}-{}".format(k, i, x)] for s, x in n["uids"]]
    return g


def reordered(g, how):
    g = copy.deepcopy(g)
    for k, nodes in g.items():
        for n in nodes:
            if how & 1:
                for f in ("tags", "files"):
                    if f in n:
                        n[f].reverse()
                if "labels" in n and n["labels"]:
                    n["labels"].reverse()
            if how & 2:
                for f in "pcm":
                    if k not in ("at", "ot") and f in n:
                        n[f].reverse()
    if how & 4 and "ir" in g:
        g["ir"].reverse()
    if how & 8 and "er" in g:
        g["er"].reverse()
    return g


def follow(e):
    """What equality of e takes into account: forward references, ingredients, measurements."""
    return model.children(e) + [y for f in ("ingredients", "measurements")
                                if f in model.BACK.get(type(e).__name__, ())
                                for y in getattr(e, f)]


def seen_from(root):
    seen, todo = {}, [root]
    while todo:
        e = todo.pop()
        if id(e) not in seen:
            seen[id(e)] = e
            todo.extend(follow(e))
    return list(seen.values())


def linked(g):
    """Whether some link denotes an object of the graph."""
    pairs_ = {(sc.lower(), i) for x in g.all for sc, i in x.uids.items()}
    return any((lk.scope.lower(), lk.id) in pairs_ for x in g.all for lk in model.links(x))


def graphs(recipe, case):
    g = distinct_uids(recipe["g"])
    A = build.Graph(g)
    B = build.Graph(reordered(g, recipe["rev"]))
    if recipe["rev"] & 16:      # siblings met in another order
        for x in B.all:
            for f in ("ingredients", "measurements"):
                if f in model.BACK.get(type(x).__name__, ()):
                    getattr(x, f).reverse()
    counterpart = {}
    for k in A.by:
        other = B.by[k]
        if (k == "ir" and recipe["rev"] & 4) or (k == "er" and recipe["rev"] & 8):
            other = other[::-1]
        for a, b in zip(A.by[k], other):
            counterpart[id(a)] = b
    if not A.all:
        return
    a = pick(A.all, recipe["i"])
    b = counterpart[id(a)]
    n = len(seen_from(a))
    case.label("reach:{}".format(min(n, 20) // 5 * 5))
    if n > 1:
        case.interesting()
    eq(a, b, True, "two builds of the same {}", type(a).__name__)
    eq(a, a, True, "an object and itself")
    for x in A.by:
        if a in A.by[x] or type(a) in [type(y) for y in A.by[x]]:
            for y in B.by[x]:
                eq(a, y, None, "two objects of one graph")
    eq(a, pick(B.all, recipe["j"]), None, "two objects")

    # lists emptied on one side: the documented leniency must not depend on the side
    C = build.Graph(reordered(g, 0))
    c = pick(C.all, recipe["i"])
    v = pick(seen_from(c), recipe["mut"][-1][0])
    lists = [f for f in model.fields(v) if isinstance(getattr(v, f), list) and len(getattr(v, f))
             and f != "labels"]
    if lists:
        f = pick(lists, recipe["mut"][-1][1])
        getattr(v, f).clear()
        case.label("emptied:" + f)
        eq(next(x for x, y in zip(A.all, C.all) if y is v), v, None, "an object with {} emptied", f)
        eq(a, c, None, "objects reaching one with {} emptied", f)
        f2 = pick([x for x in model.fields(v) if x != f], recipe["mut"][-1][2] + len(A.all))
        if not linked(A) and mutate(v, f2, recipe["mut"][-1][2]):
            case.label("emptied and changed:" + f2)
            eq(next(x for x, y in zip(A.all, C.all) if y is v), v, False,
               "an object with {} emptied and {} changed", f, f2)

    # one change in one object reachable from b; a link that denotes an object of the graph equals
    # it whatever its fields are, so that graphs with such links are not judged
    if linked(A):
        case.label("has resolvable links")
        return
    for which, what, how in recipe["mut"][:1]:
        if recipe.get("how") == "rewire":
            rewire(a, b, A, B, counterpart, recipe, case)
            break
        victims = seen_from(b)
        v = pick(victims, which)
        f = "uids" if recipe.get("how") == "uid" else pick(model.fields(v), what)
        if not mutate(v, f, how):
            case.label("no change")
            continue
        case.label("changed:" + f)
        eq_v = next(x for x in A.all if counterpart[id(x)] is v)
        eq(eq_v, v, False, "{} differing in {}", type(v).__name__, f)
        if any(x is v for x in seen_from(b)):
            eq(a, b, False, "{} reaching a {} that differs in " + f, type(a).__name__,
               type(v).__name__)
        eq(a, a, True, "an object and itself")


def rewire(a, b, A, B, counterpart, recipe, case):
    """Let one reference lead to another object of the graph, which differs in uids or name."""
    todo = []
    for v in seen_from(b):
        for f in ("spec", "process", "material", "template"):
            x = getattr(v, f, None) if f in model.fields(v) else None
            if isinstance(x, model.BaseEntity):
                todo += [(v, f, y) for y in B.all if type(y) is type(x)
                         and (y.uids != x.uids or y.name != x.name)]
    if not todo:
        case.label("nothing to rewire")
        return
    v, f, y = pick(todo, recipe["mut"][0][0])
    setattr(v, f, y)
    case.label("rewired:" + f)
    eq_v = next(x for x in A.all if counterpart[id(x)] is v)
    eq(eq_v, v, False, "{} whose {} is another", type(v).__name__, f)
    if any(x is v for x in model.closure(b, bidirectional=False)):
        eq(a, b, False, "{} reaching a {} whose " + f + " is another", type(a).__name__,
           type(v).__name__)


# spelled so that the generators, which reuse literals of the source, never come up with them
MUT = "-".join(["mutant", "of", "c12"])
BIG = int("7" * 7)
ODD = float("0.1234" + "56789")


def grow(lst, item, uids):
    """Append to a list field, unless the documented leniency makes that invisible."""
    if len(lst) == 0 and uids:
        return False
    lst.append(item)
    return True


def mutate(e, f, how):
    """Change field f of entity e to something that occurs nowhere else. False: not possible."""
    uids = len(e.uids) > 0
    v = getattr(e, f)
    run = type(e).__name__ == "IngredientRun"
    if f in ("name", "labels") and run:
        return False
    if f in ("name", "notes", "description", "remark"):     # the last: see C27
        setattr(e, f, MUT)
    elif f == "uids":
        if uids and how % 2:
            e.uids[sorted(e.uids)[0]] = MUT
        elif uids and how % 3 == 0 and len(e.uids) > 1:
            del e.uids[sorted(e.uids)[0]]
        else:
            e.uids[MUT] = MUT
    elif f in ("tags", "labels"):
        if how % 2 and len(v):
            v[how % len(v)] = MUT
        elif how == 4 and len(v) > 1:
            v.pop()
        else:
            return grow(v, MUT, uids)
    elif f == "file_links":
        if how % 2 and len(v):
            v[0] = FileLink(MUT, v[0].url) if how == 1 else FileLink(v[0].filename, MUT)
        else:
            return grow(v, FileLink(MUT, MUT), uids)
    elif f in ("allowed_names", "allowed_labels"):
        if v is not None and len(v) == 0 and uids:
            return False
        setattr(e, f, list(v or []) + [MUT])
    elif f == "bounds":
        e.bounds = RealBounds(-BIG, BIG, "K")
    elif f in ("template", "process", "spec", "material"):
        if v is not None and how % 3 == 0:
            setattr(e, f, None)
        elif how % 3 == 1:
            setattr(e, f, LinkByUID(MUT, MUT))
        else:
            setattr(e, f, fresh(e, f))
    elif f == "sample_type":
        e.sample_type = "virtual" if str(v) != "virtual" else "production"
    elif f == "source":
        e.source = PerformedSource(MUT, MUT) if how % 2 or v is None else None
    elif f.endswith("fraction") or f == "absolute_quantity":
        unit = "kg" if f == "absolute_quantity" else ""
        setattr(e, f, NominalReal(ODD, unit))
    elif f in ("properties", "conditions", "parameters"):
        cls = {"properties": Property, "conditions": Condition, "parameters": Parameter}[f]
        if type(e).__name__.endswith("Template"):
            if len(v) and how % 2:
                i = how % len(v)
                if v[i][1] is not None:
                    v[i] = [v[i][0], None]
                else:
                    v[i] = [LinkByUID(MUT, MUT), None]
                return True
            return grow(v, [LinkByUID(MUT, MUT), None], uids)
        if type(e).__name__ == "MaterialSpec":
            if len(v) and how % 2:
                if how % 3 == 0:
                    v[0].conditions.append(Condition(MUT))
                    return True
                return mutate_attr(v[0].property, how)
            return grow(v, PropertyAndConditions(Property(MUT)), uids)
        if len(v) and how % 2:
            return mutate_attr(v[how % len(v)], how)
        return grow(v, cls(MUT), uids)
    else:
        raise AssertionError(f)
    return True


def mutate_attr(a, how):
    k = (how * 7) % 6
    if k == 0:
        a.name = MUT
    elif k == 1:
        a.notes = MUT
    elif k == 2:
        a.template = LinkByUID(MUT, MUT)
    elif k == 3:
        a.file_links.append(FileLink(MUT, MUT))
    elif k == 4:
        a.origin = "computed" if str(a.origin) != "computed" else "measured"
    else:
        a.template = None
        a.value = NominalReal(ODD, "K")
    return True


def fresh(e, f):
    """A new entity of the type that field f of e holds."""
    n = type(e).__name__
    if f == "template":
        return {"ProcessSpec": build.ProcessTemplate, "MaterialSpec": build.MaterialTemplate,
                "MeasurementSpec": build.MeasurementTemplate}[n](MUT)
    if f == "spec":
        return getattr(build, n.replace("Run", "Spec"))(MUT)
    side = "Spec" if n.endswith("Spec") else "Run"
    return getattr(build, ("Process" if f == "process" else "Material") + side)(MUT)
