"""C13: uid maps ignore case on lookup and never hold two cases of a key."""
import copy

from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.object import MaterialRun, ProcessSpec
from hypothesis import strategies as st

from ..core import expect_raises, require

RULE = ("a history of insertions, lookups, removals and copies on one uid map, free standing or of "
        "an entity, mirrored on an ordered list of pairs; non-trivial: a key is looked up, removed "
        "or offered in another letter case than it is held in")
BUDGET = {"quick": 42000, "thorough": 400000}
ASSUMPTIONS = ["letter case is that of str.lower()", "d1 | d2 gives a plain dict and is not judged",
               "setdefault of a key held in another letter case is a lookup"]

KEYS = ["a", "A", "b", "B", "id", "ID", "Id", "iD", "auto", "Auto", "AUTO", "", "x-1", "X-1", "ü",
        "Ü", "self", "seq", "Self", "a b", "A b", "mapping", "key", "İ", "ß", "type", "Σς"]
VALS = ["1", "2", "x", "", "日", None]


def strategies(tier):
    k = st.one_of(st.sampled_from(KEYS[:4]), st.sampled_from(KEYS), st.text(max_size=3).filter(
        lambda s: s.isprintable()))
    v = st.sampled_from(VALS)
    prs = st.lists(st.tuples(k, v).map(list), max_size=4)
    how = st.sampled_from(["dict", "pairs", "kw", "cid", "gen", "mix"])
    op = st.one_of(
        st.tuples(st.just("set"), k, v), st.tuples(st.just("set"), k, v),
        st.tuples(st.just("look"), k), st.tuples(st.just("del"), k),
        st.tuples(st.just("pop"), k), st.tuples(st.just("popd"), k, v),
        st.tuples(st.just("popitem")), st.tuples(st.just("clear")),
        st.tuples(st.just("setdefault"), k, v),
        st.tuples(st.just("update"), prs, how), st.tuples(st.just("ior"), prs, how),
        st.tuples(st.just("new"), prs, how), st.tuples(st.just("fromkeys"), prs, v),
        st.tuples(st.just("copy"), st.sampled_from(["method", "copy", "deep", "ctor"])),
        st.tuples(st.just("other"), st.sampled_from(["set", "del", "clear"]), k),
        st.tuples(st.just("add_uid"), k, v), st.tuples(st.just("assign"), prs, how)).map(list)
    return [(1, st.fixed_dictionaries({"entity": st.booleans(),
                                       "ops": st.lists(op, min_size=2, max_size=16)}))]


class Model:
    def __init__(self, pairs=()):
        self.pairs = []
        for k, v in pairs:
            self.put(k, v)

    def find(self, k):
        return next((i for i, (x, _) in enumerate(self.pairs) if x.lower() == k.lower()), None)

    def put(self, k, v):
        i = self.find(k)
        if i is None:
            self.pairs.append((k, v))
        elif self.pairs[i][0] != k:
            raise ValueError(k)
        else:
            self.pairs[i] = (k, v)

    def clone(self):
        m = Model()
        m.pairs = list(self.pairs)
        return m


def given(pairs, how):
    """(positional, keywords, pairs in effect) of one way of handing pairs over."""
    if how == "kw" or how == "mix":
        n = 0 if how == "kw" else len(pairs) // 2
        names = [p for p in pairs[n:] if p[0] not in ("seq", "mapping", "self")]
        head = [tuple(p) for p in pairs[:n]]
        return (head if head else None), dict(names), head + list(dict(names).items())
    if how == "dict":
        return dict(pairs), {}, list(dict(pairs).items())
    if how == "cid":
        seen, ok = set(), []
        for k, v in pairs:
            if k.lower() not in seen:
                seen.add(k.lower())
                ok.append((k, v))
        return CaseInsensitiveDict(ok), {}, ok
    ps = [tuple(p) for p in pairs]
    return (ps if how == "pairs" else (p for p in ps)), {}, ps


def same(d, m, what):
    require(list(d) == [k for k, _ in m.pairs], what + ": keys {} instead of {}", list(d),
            [k for k, _ in m.pairs])
    require(list(d.items()) == m.pairs and list(d.values()) == [v for _, v in m.pairs]
            and list(d.keys()) == list(d) and len(d) == len(m.pairs) and bool(d) == bool(m.pairs),
            what + ": items {} instead of {}", list(d.items()), m.pairs)
    for k, v in m.pairs:
        for shown in {k, k.upper(), k.lower(), k.swapcase()}:
            if shown.lower() != k.lower():
                continue
            require(shown in d and d[shown] == v and d.get(shown) == v
                    and d.get(shown, "?") == v, what + ": {} is not found as {}", k, shown)
    for k in KEYS:
        require((k in d) is (m.find(k) is not None), what + ": {} in the map is {}", k, k in d)


def check(recipe, case):
    ent = None
    if recipe["entity"]:
        ent = ProcessSpec("p")
        d = ent.uids
    else:
        d = CaseInsensitiveDict()
    m = Model()
    kept = []                                    # earlier maps, which must not change any more

    def offer(act, k_pairs, what, target=None, refuse=ValueError):
        """Insertion of pairs into m (or a new model) by act."""
        want = m.clone() if target is None else target
        try:
            for k, v in k_pairs:
                want.put(k, v)
        except ValueError:
            case.label("refused")
            case.interesting()
            expect_raises(refuse, act, what)
            return None
        act()
        return want

    for step, op in enumerate(recipe["ops"]):
        name = op[0]
        what = "step {} ({})".format(step, op)
        if name in ("set", "look", "del", "pop", "popd", "setdefault") and \
                m.find(op[1]) is not None and m.pairs[m.find(op[1])][0] != op[1]:
            case.label("other case:" + name)
            case.interesting()
        if name == "set":
            m = offer(lambda: d.__setitem__(op[1], op[2]), [op[1:]], what) or m
        elif name == "look":
            i = m.find(op[1])
            if i is None:
                expect_raises(KeyError, lambda: d[op[1]], what)
                require(d.get(op[1]) is None and d.get(op[1], 5) == 5 and op[1] not in d,
                        what + ": an absent key is found")
            else:
                require(d[op[1]] == m.pairs[i][1], what + ": found {}", d[op[1]])
        elif name in ("del", "pop"):
            i = m.find(op[1])

            def act():
                if name == "del":
                    del d[op[1]]
                else:
                    return d.pop(op[1])
            if i is None:
                expect_raises(KeyError, act, what)
            else:
                res = act()
                require(name == "del" or res == m.pairs[i][1], what + ": popped {}", res)
                del m.pairs[i]
        elif name == "popd":
            i = m.find(op[1])
            want = op[2] if i is None else m.pairs.pop(i)[1]
            got = d.pop(op[1], op[2])
            require(got == want, what + ": popped {} instead of {}", got, want)
        elif name == "popitem":
            if m.pairs:
                require(d.popitem() == m.pairs.pop(), what + ": not the last item")
            else:
                expect_raises(KeyError, d.popitem, what)
        elif name == "clear":
            d.clear()
            m.pairs.clear()
        elif name == "setdefault":
            i = m.find(op[1])
            got = d.setdefault(op[1], op[2])
            if i is None:
                m.put(op[1], op[2])
            want = m.pairs[m.find(op[1])][1]
            require(got == want, what + ": gave {} instead of {}", got, want)
        elif name == "update":
            pos, kw, eff = given(op[1], op[2])

            def act():
                if pos is None:
                    d.update(**kw)
                else:
                    d.update(pos, **kw)
            m = offer(act, eff, what) or m
        elif name == "ior":
            pos, kw, eff = given(op[1], "dict" if op[2] in ("kw", "mix") else op[2])

            def act():
                box = d
                box |= pos
                require(box is d, "|= made another map")
            m = offer(act, eff, what) or m
        elif name == "new" or (name == "assign" and ent is None):
            pos, kw, eff = given(op[1], op[2])
            made = []

            def act():
                made.append(CaseInsensitiveDict(**kw) if pos is None
                            else CaseInsensitiveDict(pos, **kw))
            res = offer(act, eff, what, target=Model())
            if res is not None:
                if ent is None:
                    kept.append((d, m))
                    d, m = made[0], res
                else:
                    same(made[0], res, what)
        elif name == "fromkeys":
            ks = [k for k, _ in op[1]]
            made = []
            res = offer(lambda: made.append(CaseInsensitiveDict.fromkeys(ks, op[2])),
                        [(k, op[2]) for k in ks], what, target=Model())
            if res is not None:
                same(made[0], res, what)
        elif name == "copy":
            c = {"method": d.copy, "copy": lambda: copy.copy(d), "deep": lambda: copy.deepcopy(d),
                 "ctor": lambda: CaseInsensitiveDict(d)}[op[1]]()
            require(isinstance(c, CaseInsensitiveDict) and c is not d, what + ": not a uid map")
            same(c, m, what)
            kept.append((c, m.clone()))
            case.label("copied")
        elif name == "other" and kept:
            # change an earlier copy: it must stay consistent and leave this map alone
            c, cm = kept[-1]
            i = cm.find(op[2])
            if op[1] == "clear":
                c.clear()
                cm.pairs.clear()
            elif op[1] == "del" and i is not None:
                del c[op[2]]
                del cm.pairs[i]
            elif op[1] == "set" and i is None:
                c[op[2]] = "new"
                cm.put(op[2], "new")
        elif name == "add_uid" and ent is not None:
            m = offer(lambda: ent.add_uid(op[1], op[2]), [op[1:]], what) or m
        elif name == "assign":
            pos, kw, eff = given(op[1], "dict" if op[2] != "cid" else op[2])
            construct = len(op[1]) % 2

            def act():
                nonlocal ent
                if construct:
                    ent = MaterialRun("m", uids=pos)
                else:
                    ent.uids = pos
            res = offer(act, eff, what, target=Model())
            if res is not None:
                m, d = res, ent.uids
                require(d is not pos, "the entity shares the map it was given")
        if ent is not None:
            require(ent.uids is d, what + ": the entity's map was exchanged")
        same(d, m, what)
        for c, cm in kept[-3:]:
            same(c, cm, what + ", an earlier copy")
