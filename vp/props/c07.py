"""C07: object templates constrain attributes however they are added."""
from gemd.entity.attribute import PropertyAndConditions
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (MaterialSpec, MeasurementRun, MeasurementSpec, ProcessRun,
                                ProcessSpec)
from hypothesis import strategies as st

from .. import build
from ..core import expect_raises, pick, require
from ..limits import contained, sort_of, within
from ..logs import Warnings, judged

RULE = ("a history of list operations on the conditions, parameters or properties of an object "
        "whose template has entries with and without restricted bounds, each operation at its own "
        "level, with object templates exchanged and extended on the way; non-trivial: an "
        "attribute that matches an entry but not its bounds is offered, or restricted bounds that "
        "are too wide")
BUDGET = {"quick": 27000, "thorough": 300000}
ASSUMPTIONS = ["attributes without a value are not offered",
               "obj.field += items re-validates the items already there; it is used only while "
               "these conform"]

HOSTS = {"ps": (ProcessSpec, "process", "cm"), "pr": (ProcessRun, "process", "cm"),
         "es": (MeasurementSpec, "measurement", "cm"), "er": (MeasurementRun, "measurement", "pcm"),
         "ms": (MaterialSpec, "material", "p")}
FIELD = {"p": "properties", "c": "conditions", "m": "parameters"}
SPEC = {"pr": ProcessSpec, "er": MeasurementSpec}
NAMES = ["a", "b", "A"]


def bnd(kind="int"):
    i = st.integers(-2, 6)
    sp = st.tuples(i, i).map(sorted)
    span = st.one_of(sp, st.sampled_from([[0, 4], [-2, 6], [0, 6]]))
    if kind == "int":
        return span.map(lambda t: ["int", t[0], t[1]])
    if kind == "real":
        return st.tuples(span, st.sampled_from(["m", "m", "cm", "s"])).map(
            lambda t: ["real", (100 if t[1] == "cm" else 1) * t[0][0],
                       (100 if t[1] == "cm" else 1) * t[0][1], t[1]])
    return st.lists(st.sampled_from("xyz"), min_size=1, max_size=3, unique=True).map(
        lambda c: ["cat", sorted(c)])


def val(kind="int"):
    i = st.integers(-2, 6)
    if kind == "int":
        return st.one_of(i.map(lambda x: ["ni", x]),
                         st.tuples(i, i).map(sorted).map(lambda t: ["ui"] + t))
    if kind == "real":
        return st.one_of(i.map(lambda x: ["nr", x, "m"]),
                         st.tuples(i, i).map(sorted).map(lambda t: ["ur", t[0], t[1], "m"]),
                         i.map(lambda x: ["norm", 100 * x + 50, 1, "cm"]))
    return st.sampled_from("xyz").map(lambda x: ["nc", x])


def either(make, kind):
    """Mostly of one kind, so that matching entries are often satisfied."""
    return st.one_of(*[make(kind)] * 6, *[make(k) for k in ("int", "real", "cat")])


def entry(kind):
    """[attribute template, as a link?, None | bounds recipe | "same" | "half" | "wide"]"""
    return st.tuples(st.integers(0, 2), st.sampled_from([False, False, True]),
                     st.one_of(st.none(), st.just("same"), st.just("half"), st.just("half"),
                               st.just("wide"), bnd(kind))).map(list)


def attribute(kind):
    return st.fixed_dictionaries({
        "n": st.integers(0, 2), "v": either(val, kind),
        "t": st.one_of(st.none(), st.integers(0, 3), st.integers(0, 3)),
        "l": st.sampled_from([False, False, True])})


def strategies(tier):
    return [(1, st.sampled_from(["int", "real", "cat"]).flatmap(history))]


def history(kind):
    lv = st.sampled_from([0, 1, 2, 2, 2])
    i = st.integers(0, 7)
    at = st.integers(-5, 7)
    ix = st.lists(i, max_size=4)
    how = st.sampled_from(["list", "gen", "tuple"])
    op = st.one_of(
        st.tuples(st.just("append"), lv, i), st.tuples(st.just("append"), lv, i),
        st.tuples(st.just("insert"), lv, i, at), st.tuples(st.just("set"), lv, i, at),
        st.tuples(st.just("extend"), lv, ix, how), st.tuples(st.just("iadd"), lv, ix, how),
        st.tuples(st.just("fadd"), lv, ix, how), st.tuples(st.just("slice"), lv, ix, i, i),
        st.tuples(st.just("assign"), lv, ix, how), st.tuples(st.just("new"), lv, ix, how),
        st.tuples(st.just("one"), lv, i),
        st.tuples(st.just("pop"), i), st.tuples(st.just("tmpl"), st.sampled_from([0, 1, 1, 2, 3]), st.booleans()),
        st.tuples(st.just("tadd"), lv, st.integers(0, 1), entry(kind), st.sampled_from(
            ["append", "insert", "extend", "set", "assign", "iadd"])),
        # what earlier verdicts rested on changes in place
        st.tuples(st.just("bounds"), i, either(bnd, kind)),
        st.tuples(st.just("value"), i, either(val, kind), st.booleans()),
        st.tuples(st.just("name"), i, st.integers(0, 2), st.booleans())).map(list)
    return st.fixed_dictionaries({
        "host": st.sampled_from(sorted(HOSTS)), "k": st.integers(0, 2),
        "at": st.lists(either(bnd, kind), min_size=3, max_size=3),
        "names": st.lists(st.integers(0, 2), min_size=3, max_size=3),
        "ot": st.lists(st.lists(entry(kind), max_size=4), min_size=2, max_size=2),
        "attrs": st.lists(attribute(kind), min_size=3, max_size=8),
        "ops": st.lists(op, min_size=3, max_size=12)})


def resolve(b, mode):
    """The restricted bounds a recipe asks for."""
    if mode is None or isinstance(mode, list):
        return mode
    if mode == "same":
        return list(b)
    if mode == "half":
        return build.narrower(b, 2)
    if b[0] == "cat":
        return ["cat", b[1] + ["zz"]]
    return [b[0], b[1], b[2] + 1] + b[3:]


def check(recipe, case):
    host = recipe["host"]
    cls, okind, ks = HOSTS[host]
    k = ks[recipe["k"] % len(ks)]
    field = FIELD[k]
    acls, tcls, ocls = build.ATTR[k], build.ATMPL[k], build.OTMPL[okind]
    at_b, names = list(recipe["at"]), list(recipe["names"])
    attrs = [dict(a) for a in recipe["attrs"]]
    at = [tcls(NAMES[n], bounds=build.bounds(b), uids={"id": "t{}".format(i)})
          for i, (n, b) in enumerate(zip(names, at_b))]
    stranger = tcls("a", bounds=build.bounds(["int", 0, 0]), uids={"id": "other"})
    links = [LinkByUID("id", "t{}".format(i)) for i in range(3)] + [LinkByUID("id", "other")]

    def fits(e):
        b = resolve(at_b[e[0]], e[2])
        if b is None or e[1]:
            return True
        return contained(sort_of(["bnd", b]), sort_of(["bnd", at_b[e[0]]]))

    def live(e):
        b = resolve(at_b[e[0]], e[2])
        t = links[e[0]] if e[1] else at[e[0]]
        return t if b is None and e[0] % 2 else [t, build.bounds(b)]

    # two object templates; too wide restrictions are refused at construction already
    otmpls, entries = [], []
    for n, es in enumerate(recipe["ot"]):
        verdicts = [fits(e) for e in es]
        if False in verdicts:
            case.label("too wide at construction")
            case.interesting()
            expect_raises(ValueError, lambda: ocls("o", **{field: [live(e) for e in es]}),
                          "an object template with {}".format(es))
        es = [e for e, v in zip(es, verdicts) if v is True]
        otmpls.append(ocls("o{}".format(n), uids={"id": "o{}".format(n)},
                           **{field: [live(e) for e in es]}))
        entries.append([asked(e, at_b) for e in es])
    pool, raw = [], []
    for a in recipe["attrs"]:
        t = None if a["t"] is None else links[a["t"]] if a["l"] else (at + [stranger])[a["t"]]
        with validation_level(WarningLevel.IGNORE):
            x = acls(NAMES[a["n"]], value=build.value(a["v"]), template=t)
            raw.append(x)
            pool.append(PropertyAndConditions(x) if host == "ms" else x)

    def verdict(i, cur):
        """Does attribute i conform to object template cur?"""
        if cur not in (0, 1):
            return True
        a = attrs[i]
        if a["t"] is not None:
            e = next((e for e in entries[cur] if e[0] == a["t"]), None)
        else:
            e = next((e for e in entries[cur] if not e[1]
                      and names[e[0]] == a["n"]), None)
        if e is None:
            return True
        b = resolve(at_b[e[0]], e[2])
        if b is None:
            if e[1]:
                return True
            b = at_b[e[0]]
        v = within(a["v"], b)
        case.label("within:{}".format(v))
        if v is False:
            case.interesting()
        return v

    def all_of(idx, cur):
        vs = [verdict(i, cur) for i in idx]
        return False if False in vs else None if None in vs else True

    tref = {0: otmpls[0], 1: otmpls[1], 2: None, 3: LinkByUID("id", "o0")}
    specs = {j: SPEC[host]("s", template=t) for j, t in tref.items() if j != 3} \
        if host in SPEC else None

    def fresh(cur, items=()):
        kw = {field: items}
        if specs is None:
            return cls("h", template=tref[cur], **kw)
        return cls("h", spec=specs[cur] if cur != 3 else LinkByUID("id", "spec"), **kw)

    cur = 0
    obj = fresh(cur)
    held = []                                  # indexes into pool

    for step, op in enumerate(recipe["ops"]):
        name = op[0]
        lst = getattr(obj, field)
        if name in ("append", "insert", "set", "one"):
            i = op[2] % len(pool)
            x = pool[i]
            new = list(held)
            if name == "append":
                def act():
                    lst.append(x)
                new.append(i)
            elif name == "insert":
                def act():
                    lst.insert(op[3], x)
                new.insert(op[3], i)
            elif name == "one":
                def act():
                    setattr(obj, field, x)
                new = [i]
            else:
                if not held:
                    continue
                j = op[3] % len(held) - (len(held) if op[3] < 0 else 0)

                def act():
                    lst[j] = x
                new[j] = i
            if judged(op[1], verdict(i, cur), act, describe(attrs, op, entries, cur)):
                held = new
        elif name in ("extend", "iadd", "fadd", "slice", "assign", "new"):
            idx = [i % len(pool) for i in op[2]]
            xs = [pool[i] for i in idx]
            how = op[3]
            given = xs if how == "list" else tuple(xs) if how == "tuple" else (x for x in xs)
            new = held + idx
            made = []
            if name == "extend":
                def act():
                    lst.extend(given)
            elif name == "iadd" or (name == "fadd" and all_of(held, cur) is not True):
                def act():
                    box = lst
                    box += given
            elif name == "fadd":
                def act():
                    if field == "properties":
                        obj.properties += given
                    elif field == "conditions":
                        obj.conditions += given
                    else:
                        obj.parameters += given
            elif name == "slice":
                lo, hi = sorted((op[3] % (len(held) + 1), op[4] % (len(held) + 1)))

                def act():
                    lst[lo:hi] = xs
                new = held[:lo] + idx + held[hi:]
            elif name == "assign":
                def act():
                    setattr(obj, field, given)
                new = idx
            else:
                def act():
                    made.append(fresh(cur, given))
                new = idx
            if judged(op[1], all_of(idx, cur), act, describe(attrs, op, entries, cur)):
                held = new
                if made:
                    obj = made[0]
        elif name == "pop":
            if held:
                j = op[1] % len(held)
                lst.pop(j)
                held.pop(j)
        elif name == "tmpl":
            if specs is not None and op[2] and 3 not in (cur, op[1]):
                # the spec stays and takes another template; specs[j] keeps template j
                specs[cur].template, specs[op[1]].template = tref[op[1]], tref[cur]
                if cur == op[1]:
                    specs[cur].template = tref[cur]
                specs[cur], specs[op[1]] = specs[op[1]], specs[cur]
                case.label("the spec's template exchanged")
            cur = op[1]
            if specs is None:
                obj.template = tref[cur]
            elif cur == 3 or obj.spec is not specs[cur]:
                obj.spec = specs[cur] if cur != 3 else LinkByUID("id", "spec")
            case.label("template exchanged")
        elif name == "tadd":
            new = asked(op[3], at_b)
            widen(op, new, otmpls[op[2]], entries[op[2]], field, fits, live, case)
        elif name == "bounds":
            j = op[1] % len(at)
            at_b[j] = op[2]
            at[j].bounds = build.bounds(op[2])
            case.label("attribute template's bounds replaced")
        elif name == "value":
            j = op[1] % len(raw)
            v = build.value(op[2])
            if op[3] and type(v) is type(raw[j].value):
                build.become(raw[j].value, v)
            else:
                with validation_level(WarningLevel.IGNORE):
                    raw[j].value = v
            attrs[j]["v"] = op[2]
            case.label("attribute's value changed")
        elif name == "name":
            if op[3]:
                names[op[1] % len(at)] = op[2]
                at[op[1] % len(at)].name = NAMES[op[2]]
            else:
                attrs[op[1] % len(raw)]["n"] = op[2]
                raw[op[1] % len(raw)].name = NAMES[op[2]]
        require(same(getattr(obj, field), [pool[i] for i in held]),
                "after step {} ({}) the list holds {} instead of {}", step, op,
                [x.name for x in getattr(obj, field)], [pool[i].name for i in held])
        for j in (0, 1):
            seen = getattr(otmpls[j], field)
            require(len(seen) == len(entries[j]), "object template {} has {} entries, not {}", j,
                    len(seen), len(entries[j]))
            for e, s in zip(entries[j], seen):
                b = resolve(at_b[e[0]], e[2])
                require(s[0] is at[e[0]] or (e[1] and s[0] == links[e[0]]), "entry {} became {}",
                        e, s)
                require((s[1] is None) if b is None else s[1] == build.bounds(b),
                        "restricted bounds {} became {}", b, s[1])


def asked(e, at_b):
    """An entry with its restricted bounds spelled out, as they stay when the template changes."""
    return [e[0], e[1], resolve(at_b[e[0]], e[2])]


def widen(op, e, tmpl, entries, field, fits, live, case):
    """Add one more entry to an object template, at some level, by some route."""
    _, level, _, _, how = op
    ok = fits(e)
    if how == "assign" or not entries and how == "set":    # checks what is there once more
        verdicts = [ok] + [fits(x) for x in entries]
        ok = False if False in verdicts else None if None in verdicts else True
    if ok is None:
        return
    lst = getattr(tmpl, field)
    x = live(e)
    new = list(entries)
    if how == "append":
        def act():
            lst.append(x)
        new.append(e)
    elif how == "insert":
        def act():
            lst.insert(0, x)
        new.insert(0, e)
    elif how == "extend":
        def act():
            lst.extend([x])
        new.append(e)
    elif how == "iadd":
        def act():
            box = lst
            box += [x]
        new.append(e)
    elif how == "assign" or not entries:
        def act():
            setattr(tmpl, field, [x] + list(lst))
        new = [e] + new
    else:
        def act():
            lst[-1] = x
        new[-1] = e
    with Warnings() as w, validation_level(WarningLevel(level)):
        if ok:
            act()
            entries[:] = new
        else:
            case.label("too wide added")
            case.interesting()
            expect_raises(ValueError, act, "{} of an entry with too wide bounds {}".format(how, e))
    if ok:
        require(w.count == 0, "adding a fitting entry logs a warning")


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def describe(attrs, op, entries, cur):
    idx = op[2] if isinstance(op[2], list) else [op[2]]
    return "{} of {} with entries {}".format(
        op[0], [pick(attrs, i) for i in idx], entries[cur] if cur in (0, 1) else cur)
