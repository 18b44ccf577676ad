"""Hypothesis strategies for the JSON recipes that vp.build turns into live objects."""
from hypothesis import strategies as st

WORDS = ["a", "b", "A", "flour", "Flour", "", " a", "name", "link_by_uid", "null", "1", "true",
         "x y", "quo\"te\\", "ünï", "\u2028", "日本", "auto", "_private", "a.b", "process_run",
         "x\r\ny", "two\nlines\n", "tail ", "\ttab", "e\u0301", "\u00e9", "{0} {x}", "%s %", "\x00", "NaN",
         "\ufeffbom", "long " * 60, "<b>&amp;</b>", "None", "[]", "'q'"]


def free_text():
    return st.text(st.characters(exclude_categories=("Cs",)), max_size=6)


def text():
    return st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), free_text())


def key_text():
    """Text used as a dictionary key: the reserved key 'type' is a known finding of its own."""
    return text().filter(lambda s: s != "type")


def opt(s):
    return st.one_of(st.none(), s)


def small_list(s, n=3):
    return st.lists(s, max_size=n)


def words():
    """A list of short texts, now and then a long one."""
    few = small_list(text())
    return st.one_of(few, few, few, few, few, st.lists(st.sampled_from(WORDS), min_size=4, max_size=14))


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e-9, 1e300, -1e300, 5e-324, 2.5, 100.0, 1 / 3, 273.15]


def num():
    return st.one_of(st.sampled_from(FLOATS), st.integers(-5, 1000),
                     st.floats(allow_nan=False, allow_infinity=False))


def span():
    return st.tuples(num(), num()).map(lambda t: sorted(t, key=float))


INTS = [0, 1, -1, 2, 7, 10, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 10 ** 30, -10 ** 18]


def integer():
    return st.one_of(st.sampled_from(INTS), st.integers(-20, 20), st.integers())


def ispan():
    return st.tuples(integer(), integer()).map(sorted)


UNITS = ["", "m", "g/cm^3", "degC", "kg", "percent", "J/mol/K", "1/s", "g / 2.5 cm", "K", "mm",
         "dimensionless", "m**0.5", "ug"]


def unit():
    return st.sampled_from(UNITS)


ELEMENTS = ["H", "He", "Na", "Cl", "C", "O", "U", "D", "Og"]


def formula():
    return st.lists(st.tuples(st.sampled_from(ELEMENTS), st.sampled_from(["", "2", "0.5", "12"])),
                    min_size=1, max_size=4).map(lambda l: "".join(a + b for a, b in l))


def probs():
    """Category weights that sum to one within rounding."""
    return st.lists(st.tuples(key_text(), st.integers(1, 9)), min_size=1, max_size=4,
                    unique_by=lambda t: t[0]).map(
        lambda l: [[k, w / sum(x[1] for x in l)] for k, w in l])


def quantities():
    return st.lists(st.tuples(key_text(), num()).map(list), max_size=4, unique_by=lambda t: t[0])


CATS = ["a", "b", "c", "A", "d e"]


def cats(min_size=0):
    return st.lists(st.one_of(st.sampled_from(CATS), text()), min_size=min_size, max_size=4,
                    unique=True)


def value():
    return st.one_of(
        st.tuples(st.just("nr"), num(), unit()).map(list),
        st.tuples(st.just("norm"), num(), num(), unit()).map(list),
        st.tuples(span(), unit()).map(lambda t: ["ur", t[0][0], t[0][1], t[1]]),
        integer().map(lambda i: ["ni", i]),
        ispan().map(lambda t: ["ui", t[0], t[1]]),
        st.one_of(st.sampled_from(CATS), text()).map(lambda s: ["nc", s]),
        probs().map(lambda p: ["dc", p]),
        formula().map(lambda s: ["ef", s]),
        quantities().map(lambda q: ["comp", q]),
        st.sampled_from(["InChI=1S/H2O/h1H2", "1S/CH4/h1H4", "H2O", "inchi=1S/x", "1s/1s/1s",
                         "inchi inchi"]).map(lambda s: ["inchi", s]),
        st.one_of(st.sampled_from(["CC", "c1ccccc1", "[Na+].[Cl-]", ""]), text()).map(
            lambda s: ["smiles", s]),
    )


def bounds():
    return st.one_of(
        st.tuples(span(), unit()).map(lambda t: ["real", t[0][0], t[0][1], t[1]]),
        ispan().map(lambda t: ["int", t[0], t[1]]),
        cats().map(lambda c: ["cat", c]),
        st.lists(st.one_of(st.sampled_from(ELEMENTS), text()), max_size=4, unique=True).map(
            lambda c: ["comp", c]),
        st.just(["mol"]),
    )


SCOPES = ["auto", "id", "my_scope", "Scope", "X-1", "seq", "self", "ünï", "uid", "a b"]
IDS = ["1", "2", "a", "A", "b", "x-y", "", "日本", "0123"]


ALIKE = ["a", "A", "a ", "aa", "aA", "AA", "á", "Á", "1", "01", "1.0"]


def uids(min_size=0, max_size=3):
    wide = st.lists(st.tuples(st.sampled_from(SCOPES),
                              st.one_of(st.sampled_from(IDS), free_text())).map(list),
                    min_size=min_size, max_size=max_size)
    # ids that are easily mistaken for those of other objects
    near = st.lists(st.tuples(st.just("id"), st.sampled_from(ALIKE)).map(list),
                    min_size=min_size, max_size=1)
    return st.one_of(wide, wide, near)


def ref(links=True, dangling=True, none=True):
    alts = [st.integers(0, 4)] * 4
    if none:
        alts.append(st.none())
    if links:
        alts.append(st.fixed_dictionaries({"l": st.integers(0, 4), "s": st.integers(0, 2),
                                           "case": st.integers(0, 2)}))
    if dangling:
        alts.append(st.tuples(st.sampled_from(SCOPES), st.sampled_from(IDS)).map(
            lambda t: {"x": list(t)}))
    return st.one_of(alts)


def files():
    return small_list(st.tuples(text(), text()).map(list), 2)


ORIGINS = ["measured", "predicted", "summary", "specified", "computed", "unknown", "MEASURED"]
SAMPLES = ["production", "experimental", "virtual", "unknown", "Virtual"]


def attribute(links=True, kinds=None):
    base = {"name": text()}
    optional = {"value": value(), "tmpl": ref(links, links), "notes": opt(text()),
                "origin": st.sampled_from(ORIGINS), "files": files()}
    if kinds:
        base["k"] = st.sampled_from(kinds)
    return st.fixed_dictionaries(base, optional=optional)


def attrs(links=True, n=2):
    return small_list(attribute(links), n)


def quant_value():
    return st.one_of(
        st.tuples(st.just("nr"), st.sampled_from([0.0, 0.25, 0.5, 1.0, 1, 3.0]),
                  st.sampled_from(["", "kg", "percent"])).map(list),
        st.tuples(st.just("ur"), st.just(0.1), st.sampled_from([0.1, 0.9]),
                  st.sampled_from(["", "mol"])).map(list),
        st.tuples(st.just("norm"), st.just(0.3), st.just(0.1), st.just("")).map(list))


def quant():
    return st.fixed_dictionaries({}, optional={k: quant_value() for k in ("mf", "vf", "nf", "aq")})


def _obj(extra, uid_min, mand=None):
    m = {"name": text()}
    m.update(mand or {})
    if uid_min:
        m["uids"] = uids(uid_min)
    o = {"notes": opt(text()), "tags": words(), "files": files()}
    if not uid_min:
        o["uids"] = uids(0)
    o.update(extra)
    return st.fixed_dictionaries(m, optional=o)


def pairs(links):
    return small_list(st.tuples(ref(links, links, none=False), st.integers(0, 2)).map(list), 2)


def node(kind, links=True, uid_min=0):
    r = ref(links, links)
    if kind == "at":
        return st.fixed_dictionaries(
            {"k": st.sampled_from("pcm"), "name": text(), "bounds": bounds(),
             "uids": uids(uid_min)},
            optional={"desc": opt(text()), "tags": words()})
    if kind == "ot":
        return st.fixed_dictionaries(
            {"k": st.sampled_from(["material", "process", "measurement"]), "name": text(),
             "uids": uids(uid_min)},
            optional={"desc": opt(text()), "tags": words(), "p": pairs(links),
                      "c": pairs(links), "m": pairs(links), "anames": opt(words()),
                      "alabels": opt(words())})
    if kind in ("ps", "es"):
        return _obj({"tmpl": r, "c": attrs(links), "m": attrs(links)}, uid_min)
    if kind == "ms":
        p = st.tuples(attribute(links), attrs(links, 1)).map(lambda t: dict(t[0], conds=t[1]))
        return _obj({"tmpl": r, "p": small_list(p, 2)}, uid_min, {"proc": r})
    if kind == "is":
        return _obj({"labels": opt(words()), "q": quant()}, uid_min,
                    {"mat": r, "proc": r})
    if kind == "pr":
        return _obj({"c": attrs(links), "m": attrs(links),
                     "source": opt(st.tuples(opt(text()), opt(text())).map(list))}, uid_min,
                    {"spec": r})
    if kind == "mr":
        return _obj({"sample": st.sampled_from(SAMPLES)}, uid_min, {"spec": r, "proc": r})
    if kind == "ir":
        return _obj({"q": quant(), "unspec": st.sampled_from([0, 1])}, uid_min,
                    {"spec": r, "mat": r, "proc": r})
    if kind == "er":
        return _obj({"p": attrs(links), "c": attrs(links), "m": attrs(links),
                     "source": opt(st.tuples(opt(text()), opt(text())).map(list))}, uid_min,
                    {"spec": r, "mat": r})
    raise AssertionError(kind)


SIZES = {"at": 3, "ot": 3, "ps": 3, "es": 2, "ms": 3, "is": 3, "pr": 3, "mr": 3, "ir": 3, "er": 2}


def graph(links=True, uid_min=0, kinds=None, sizes=None, big=1, low=1):
    sizes = dict(SIZES, **(sizes or {}))
    kinds = kinds or list(SIZES)
    return st.fixed_dictionaries({
        k: st.lists(node(k, links, uid_min), min_size=min(low, sizes[k]),
                    max_size=sizes[k] * big) for k in kinds})


def bare(kind, uid_min=0):
    """Few fields: cheap nodes for large topologies."""
    r = ref(False, False)
    m = {"name": st.sampled_from(["a", "b", "c"])}
    if uid_min:
        m["uids"] = uids(1, 1)
    m.update({"ms": {"proc": r}, "is": {"mat": r, "proc": r}, "pr": {"spec": r},
              "mr": {"spec": r, "proc": r}, "ir": {"spec": r, "mat": r, "proc": r},
              "er": {"spec": r, "mat": r}}.get(kind, {}))
    return st.fixed_dictionaries(m, optional={} if uid_min else {"uids": uids(0, 2)})


def topology(n=5, uid_min=0, displaces=False):
    """Wide graphs of simple objects: sharing, cycles through back-references, many siblings;
    also materials displaced from their process by another one, if so chosen."""
    more = {"displaces": st.sampled_from([[], [{}]])} if displaces else {}
    return st.fixed_dictionaries(dict(more, **{
        k: st.lists(bare(k, uid_min), min_size=1 if k != "es" else 0, max_size=n)
        for k in ("ps", "es", "ms", "is", "pr", "mr", "ir", "er")}))


def literal():
    return st.one_of(st.none(), st.booleans(), st.integers(-2, 3), st.sampled_from([0.0, 1.0, 0.5]),
                     text())


def thing(links=True, depth=8):
    leaf = st.one_of(
        st.integers(-12, 12).map(lambda i: ["e", i]),
        st.integers(-6, -1).map(lambda i: ["e", i]),
        st.integers(-6, -1).map(lambda i: ["e", i]),
        value().map(lambda v: ["val", v]),
        bounds().map(lambda b: ["bnd", b]),
        attribute(links, "pcm").map(lambda a: ["attr", a]),
        literal().map(lambda x: ["lit", x]),
        *([ref(True, True, none=False).map(lambda r: ["link", r])] if links else []))
    return st.recursive(leaf, lambda inner: st.one_of(
        st.lists(inner, max_size=4).map(lambda l: ["list", l]),
        st.lists(inner, max_size=3).map(lambda l: ["tuple", l]),
        st.lists(st.tuples(key_text(), inner).map(list), max_size=3,
                 unique_by=lambda t: t[0]).map(lambda l: ["dict", l])), max_leaves=depth)


def root(links=True):
    """What to serialise: one object of the graph, several, or a nested structure."""
    return st.one_of(st.integers(-12, -1).map(lambda i: ["e", i]),
                     st.integers(-30, 10).map(lambda i: ["e", i]),
                     st.lists(st.integers(-20, 20).map(lambda i: ["e", i]), min_size=1,
                              max_size=4).map(lambda l: ["list", l]),
                     st.just(["all"]),
                     thing(links))


def keyed():
    """Dictionaries whose keys are entities."""
    inner = thing(True, 4)
    return st.lists(st.tuples(st.integers(-12, -1), inner).map(list), min_size=1,
                    max_size=3).map(lambda l: ["kdict", l])


UNUSUAL = ["set", "frozenset", "deque", "values", "keys", "userlist", "userdict", "proxy", "shelf"]


def unusual(kinds=UNUSUAL):
    """Sets, views, queues and other containers."""
    e = st.integers(-12, -1).map(lambda i: ["e", i])
    inner = st.one_of(e, e, thing(True, 3))
    kind = st.sampled_from(kinds)
    one = st.tuples(kind, st.lists(inner, min_size=1, max_size=4)).map(
        lambda t: ["odd", t[0], t[1]])
    return st.one_of(one, st.lists(st.one_of(one, e), min_size=1, max_size=3).map(
        lambda l: ["list", l]), st.tuples(kind, st.lists(one, min_size=1, max_size=3)).map(
        lambda t: ["odd", t[0], t[1]]))


def long(n=60, least=10):
    """Large regular graphs: long chains, wide processes, meshes."""
    return st.builds(
        large, st.sampled_from(["chain", "chain", "fan", "mesh", "hub"]), st.integers(least, n),
        st.integers(1, 3), st.booleans(), st.sampled_from([0, 0, 1, 3]))


def large(shape, n, w, alike, uid_step):
    count = [0]

    def nd(**k):
        count[0] += 1
        k.setdefault("name", "n" if alike else "n{}".format(count[0]))
        if uid_step and count[0] % uid_step == 0:
            k["uids"] = [["id", str(count[0])]]
        return k
    if shape == "hub":
        return {"at": [nd(k="p", bounds=["int", 0, 9])],
                "ps": [nd(), nd()], "es": [nd()], "ms": [nd(proc=0), nd(proc=1)],
                "is": [nd(mat=0, proc=1) for _ in range(n)], "pr": [nd(spec=0), nd(spec=1)],
                "mr": [nd(spec=0, proc=0), nd(spec=1, proc=1)],
                "ir": [nd(spec=i, mat=0, proc=1) for i in range(n)],
                "er": [nd(spec=0, mat=1, tags=["t{}".format(j) for j in range(n if i == 0 else 0)],
                          p=[{"name": "p{}".format(j), "value": ["ni", j % 9]}
                             for j in range(n if i == 1 else 0)])
                       for i in range(n)]}
    if shape == "chain":
        hops = [(i, i + 1) for i in range(n - 1) for _ in range(w)]
    elif shape == "fan":
        hops = [(i, n - 1) for i in range(n - 1)]
    else:
        hops = [(i, j) for j in range(n) for i in range(max(0, j - w), j)]
    g = {"at": [nd(k="p", bounds=["int", 0, 9]) for _ in range(w)],
         "ot": [nd(k="material", p=[[i, 0] for i in range(w)])],
         "ps": [nd() for _ in range(n)],
         "es": [nd()],
         "ms": [nd(proc=i, tmpl=0 if i % 2 else None) for i in range(n)],
         "is": [nd(mat=a, proc=b) for a, b in hops],
         "pr": [nd(spec=i) for i in range(n)],
         "mr": [nd(spec=i, proc=i) for i in range(n)],
         "ir": [nd(spec=k, mat=a, proc=b) for k, (a, b) in enumerate(hops)],
         "er": [nd(spec=0, mat=i) for i in range(0, n, w)]}
    return g
