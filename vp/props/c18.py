"""C18: instantiating a spec graph mirrors it exactly."""
from gemd.entity.attribute import Property, PropertyAndConditions
from gemd.entity.bounds import IntegerBounds
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.template import (MaterialTemplate, MeasurementTemplate, ProcessTemplate,
                                  PropertyTemplate)
from gemd.entity.util import make_instance
from gemd.entity.value import NominalReal
from hypothesis import strategies as st

from .. import gens, history
from ..build import Graph
from ..core import expect_raises, pick, require
from ..model import snapshot, unchanged

RULE = ("a spec graph (random, with sharing, cycles, equal but distinct specs, and chains of up to "
        "60 steps) instantiated from one of its specs, or something that is not a spec; "
        "non-trivial: at least three specs are reached")
BUDGET = {"quick": 24000, "thorough": 200000}
ASSUMPTIONS = ["specs refer to each other as objects; a graph holding links is not instantiable",
               "chains are at most 60 materials deep (the implementation is recursive)"]

KIND = {ProcessSpec: ProcessRun, MaterialSpec: MaterialRun, IngredientSpec: IngredientRun,
        MeasurementSpec: MeasurementRun}


def strategies(tier):
    start = {"edits": history.ops(), "at": st.integers(0, 40), "mess": st.integers(0, 40)}
    r = st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.none())
    name = st.sampled_from(["a", "a", "b", ""])
    wide = st.fixed_dictionaries(dict(start, graph=st.fixed_dictionaries({
        "displaces": st.sampled_from([[], [{}]]),
        "ps": st.lists(st.fixed_dictionaries({"name": name}), min_size=1, max_size=7),
        "es": st.lists(st.fixed_dictionaries({"name": name}), max_size=1),
        "ms": st.lists(st.fixed_dictionaries({"name": name, "proc": r}), min_size=1, max_size=7),
        "is": st.lists(st.fixed_dictionaries({"name": name, "mat": r, "proc": r}),
                       min_size=1, max_size=10)})))
    rich = st.fixed_dictionaries(dict(start, graph=gens.graph(
        links=False, kinds=["at", "ot", "ps", "es", "ms", "is"])))
    chain = st.fixed_dictionaries(dict(start, chain=st.integers(2, 60), extra=st.lists(
        st.tuples(st.integers(0, 59), st.integers(0, 59)).map(list), max_size=6)))
    other = st.fixed_dictionaries({"other": st.integers(0, 15)})
    return [(5, wide), (2, rich), (1, chain), (1, other)]


def ladder(n, extra):
    """A material made from a material made from ..., with extra ingredients across."""
    mats, procs, ings = [], [], []
    for i in range(n):
        p = ProcessSpec("p{}".format(i % 3))
        if mats:
            ings.append(IngredientSpec("i", material=mats[-1], process=p))
        mats.append(MaterialSpec("m{}".format(i % 2), process=p))
        procs.append(p)
    for a, b in extra:
        ings.append(IngredientSpec("x", material=mats[a % n], process=procs[b % n]))
    return mats[::-1] + procs + ings


def reached(root):
    """Specs reached through a material's process, a process's ingredients, an ingredient's
    material; in no particular order."""
    seen, todo = {}, [root]
    while todo:
        s = todo.pop()
        if s is None or id(s) in seen:
            continue
        seen[id(s)] = s
        if isinstance(s, MaterialSpec):
            todo.append(s.process)
        elif isinstance(s, ProcessSpec):
            todo.extend(s.ingredients)
        elif isinstance(s, IngredientSpec):
            todo.append(s.material)
    return seen


def runs_from(root):
    """Every run connected to root, in any direction."""
    seen, todo = {}, [root]
    while todo:
        r = todo.pop()
        if r is None or id(r) in seen:
            continue
        require(type(r) in KIND.values(), "an instance is connected to {}", r)
        seen[id(r)] = r
        if isinstance(r, MaterialRun):
            todo.append(r.process)
            todo.extend(r.measurements)
        elif isinstance(r, ProcessRun):
            todo.append(r.output_material)
            todo.extend(r.ingredients)
        elif isinstance(r, IngredientRun):
            todo += [r.material, r.process]
        else:
            todo.append(r.material)
    return list(seen.values())


def mirror(root, run):
    """run's graph mirrors the specs reached from root; returns its runs."""
    specs = reached(root)
    runs = runs_from(run)
    of = {}
    for r in runs:
        s = r.spec
        require(id(s) in specs and specs[id(s)] is s, "a run points to {}, which is not one of the "
                "specs reached", s)
        require(id(s) not in of, "two runs were made for one {} (name {})", type(s).__name__,
                s.name)
        of[id(s)] = r
    require(len(of) == len(specs), "{} specs are reached but {} connected runs were made",
            len(specs), len(of))
    require(run is of[id(root)], "the result does not point to the spec given")
    for i, s in specs.items():
        r = of[i]
        require(type(r) is KIND[type(s)], "a {} became a {}", type(s).__name__, type(r).__name__)
        require(r.name == s.name, "{} became {}", s.name, r.name)
        if isinstance(s, MaterialSpec):
            require(r.process is twin(s.process, of), "the process of a material differs")
            require(len(r.measurements) == 0, "a material run has measurements")
        elif isinstance(s, IngredientSpec):
            require(r.material is twin(s.material, of), "the material of an ingredient differs")
            require(r.process is twin(s.process, of), "the process of an ingredient is {}, "
                    "expected {}", r.process, twin(s.process, of))
        elif isinstance(s, ProcessSpec):
            makers = [of[j] for j, x in specs.items()
                      if isinstance(x, MaterialSpec) and x.process is s]
            if len(makers) > 1:        # any one of them may be the last to claim it
                require(any(r.output_material is x for x in makers), "the output of a process is "
                        "{}, expected one of {}", r.output_material, makers)
            else:
                require(r.output_material is (makers[0] if makers else None), "the output of a "
                        "process is {}, expected {}", r.output_material, makers)
            want = [id(of[id(x)]) for x in s.ingredients if id(x) in of]
            require(sorted(want) == sorted(id(x) for x in r.ingredients),
                    "the ingredients of a process are {}, those of its spec {}", r.ingredients,
                    s.ingredients)
        else:
            require(r.material is None, "a measurement has material {}", r.material)
    return runs


def twin(s, of):
    return None if s is None else of.get(id(s))


def others():
    return [None, "spec", 5, [], {}, MaterialRun("x"), ProcessRun("x"), IngredientRun(),
            MeasurementRun("x"), LinkByUID("a", "b"), MaterialTemplate("x"), ProcessTemplate("x"),
            MeasurementTemplate("x"), PropertyTemplate("x", bounds=IntegerBounds(0, 1)),
            [MaterialSpec("x")], PropertyAndConditions(property=Property(
                "x", value=NominalReal(1, ""))), MaterialSpec]


def check(recipe, case):
    if "other" in recipe:
        x = pick(others(), recipe["other"])
        case.label("not a spec")
        expect_raises(TypeError, lambda: make_instance(x), "make_instance({})".format(x))
        return
    if "chain" in recipe:
        specs = ladder(recipe["chain"], recipe["extra"])
    else:
        g = Graph(recipe["graph"])
        specs = [s for k in ("ms", "is", "ps", "es") for s in g.by[k]]
    root = pick(specs, recipe["at"])
    if "graph" in recipe:
        history.age(recipe.get("edits"), g, lambda: make_instance(root), case)
    n = len(reached(root))
    case.label("from a " + type(root).__name__)
    if n >= 3:
        case.interesting()
    before = snapshot(specs)
    a = make_instance(root)
    unchanged(before, specs, "make_instance")
    runs = mirror(root, a)
    b = make_instance(root)
    unchanged(before, specs, "make_instance")
    again = mirror(root, b)
    require(not {id(r) for r in runs} & {id(r) for r in again}, "two calls share a run")
    mirror(root, a)
    other = pick(specs, recipe["mess"])
    third = mirror(other, make_instance(other))
    require(not {id(r) for r in runs + again} & {id(r) for r in third},
            "instances of two specs share a run")
    mirror(root, a)
