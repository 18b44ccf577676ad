"""C22: an ingredient run always reports its spec's name and labels."""
import gemd.json as gjson
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import IngredientRun, IngredientSpec, ProcessSpec
from gemd.json import GEMDJson
from gemd.util import flatten, substitute_links
from hypothesis import strategies as st

from .. import gens
from ..core import expect_raises, require

RULE = ("a history of spec assignments, renames, relabelings, serialisations and refused "
        "assignments on 3 specs and 2 runs, against a model of the last name and labels seen; "
        "non-trivial: a spec is detached or a run is serialised")
BUDGET = {"quick": 15000, "thorough": 100000}


def strategies(tier):
    n = 14 if tier == "quick" else 30
    labels = st.one_of(st.none(), st.lists(gens.text(), max_size=3))
    i = st.integers(0, 1)
    s = st.integers(0, 2)
    op = st.one_of(
        st.tuples(st.just("spec"), i, s), st.tuples(st.just("spec"), i, s),
        st.tuples(st.just("detach"), i, st.sampled_from(["none", "link", "dangling"])),
        st.tuples(st.just("bad"), i, st.sampled_from(["str", "process", "run"])),
        st.tuples(st.just("name"), s, gens.text()),
        st.tuples(st.just("labels"), s, labels),
        st.tuples(st.just("append"), s, gens.text()),
        st.tuples(st.just("copy"), i, st.sampled_from(
            ["dict", "json", "raw", "thin", "links", "links!", "build", "flat"])),
        st.tuples(st.just("assign"), i, st.sampled_from(["name", "labels"])),
        st.tuples(st.just("ctor"), i, st.sampled_from(["name", "labels"])),
    ).map(list)
    return [(1, st.fixed_dictionaries({
        "specs": st.lists(st.tuples(gens.text(), labels).map(list), min_size=3, max_size=3),
        "ops": st.lists(op, min_size=1, max_size=n)}))]


def check(recipe, case):
    specs = [IngredientSpec(nm, labels=lb, uids={"id": str(k)})
             for k, (nm, lb) in enumerate(recipe["specs"])]
    m_spec = [[nm, list(lb or [])] for nm, lb in recipe["specs"]]
    runs = [IngredientRun(uids={"id": "r0"}), IngredientRun(spec=specs[0], uids={"id": "r1"})]
    # model of a run: index of its spec (or None), last name and labels
    m_run = [[None, None, None], [0, None, None]]

    def expected(r):
        k, nm, lb = m_run[r]
        return (nm, lb) if k is None else tuple(m_spec[k])

    def agree(run, want, what):
        require(run.name == want[0], what + ": name is {} instead of {}", run.name, want[0])
        got = run.labels
        require(got == want[1] if want[1] is None else (got is not None and list(got) == want[1]),
                what + ": labels are {} instead of {}", got, want[1])

    def remember(r):
        if m_run[r][0] is not None:
            m_run[r][1], m_run[r][2] = m_spec[m_run[r][0]][0], list(m_spec[m_run[r][0]][1])

    for op, a, b in recipe["ops"]:
        if op == "spec":
            remember(a)
            runs[a].spec = specs[b]
            m_run[a][0] = b
        elif op == "detach":
            if m_run[a][0] is not None:
                case.interesting()
            case.label("detach")
            remember(a)
            runs[a].spec = {"none": None, "dangling": LinkByUID("x", "y"),
                            "link": LinkByUID("id", "0")}[b]
            m_run[a][0] = None
        elif op == "bad":
            remember(a)
            bad = {"str": "spec", "process": ProcessSpec("p"), "run": runs[a]}[b]
            expect_raises(TypeError, lambda: setattr(runs[a], "spec", bad), "spec = " + b)
            want = None if m_run[a][0] is None else specs[m_run[a][0]]
            require(runs[a].spec is want or want is None and not isinstance(
                runs[a].spec, IngredientSpec), "a refused spec changed the run")
        elif op == "name":
            specs[a].name = b
            m_spec[a][0] = b
        elif op == "labels":
            specs[a].labels = b
            m_spec[a][1] = list(b or [])
        elif op == "append":
            specs[a].labels.append(b)
            m_spec[a][1].append(b)
        elif op == "copy":
            case.interesting()
            case.label("copy:" + b)
            run = runs[a]
            if b == "dict":
                new = IngredientRun.from_dict(run.as_dict())
            elif b == "json":
                new = gjson.loads(gjson.dumps([run]))[0]
            elif b == "raw":
                new = GEMDJson().raw_loads(GEMDJson().raw_dumps(run))
            elif b == "build":
                new = IngredientRun.build(run.dump())
            elif b == "thin":
                new = GEMDJson().raw_loads(GEMDJson().thin_dumps(run))
            elif b == "links":
                new = substitute_links(run)
            elif b == "flat":
                new, = [x for x in flatten(run) if isinstance(x, IngredientRun)]
            else:
                remember(a)
                new = substitute_links(run, inplace=True)
                require(new is run, "the in-place form returned another run")
                m_run[a][0] = None
            agree(new, expected(a), "after " + b)
            if m_run[a][0] is None:
                runs[a] = new
        elif op == "assign":
            case.label("assign refused")
            expect_raises(AttributeError, lambda: setattr(
                runs[a], b, "x" if b == "name" else ["x"]), "assigning run." + b)
        elif op == "ctor":
            expect_raises(TypeError, lambda: IngredientRun(
                spec=specs[a], **{b: "x" if b == "name" else ["x"]}), "IngredientRun({}=)".format(b))
        for r in (0, 1):
            agree(runs[r], expected(r), "after {} on run {}".format(op, a))
