"""Turn plain JSON recipes into live gemd objects, through the public constructors only."""
from collections import UserDict, UserList, deque
from types import MappingProxyType

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds,
                                MolecularStructureBounds, RealBounds)
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate,
                                  ParameterTemplate, ProcessTemplate, PropertyTemplate)
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical,
                               NominalComposition, NominalInteger, NominalReal, NormalReal, Smiles,
                               UniformInteger, UniformReal)

from .core import pick
from .model import fields

ATTR = {"p": Property, "c": Condition, "m": Parameter}
ATMPL = {"p": PropertyTemplate, "c": ConditionTemplate, "m": ParameterTemplate}
OTMPL = {"material": MaterialTemplate, "process": ProcessTemplate,
         "measurement": MeasurementTemplate}
ORDER = ["at", "ot", "ps", "es", "ms", "is", "pr", "mr", "ir", "er"]


class Shelf:
    """An iterable, and nothing more."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


def odd(kind, items):
    """A less usual container of these items (which must be hashable for some kinds)."""
    if kind in ("set", "frozenset", "keys"):
        items = [x for x in items if hashable(x)]
        return set(items) if kind == "set" else frozenset(items) if kind == "frozenset" \
            else {x: i for i, x in enumerate(items)}.keys()
    if kind in ("values", "userdict", "proxy"):
        d = {"k{}".format(i): x for i, x in enumerate(items)}
        return d.values() if kind == "values" else UserDict(d) if kind == "userdict" \
            else MappingProxyType(d)
    return deque(items) if kind == "deque" else UserList(items) if kind == "userlist" \
        else Shelf(items)


def value(r):
    if r is None:
        return None
    k, a = r[0], r[1:]
    if k == "nr":
        return NominalReal(a[0], a[1])
    if k == "norm":
        return NormalReal(a[0], a[1], a[2])
    if k == "ur":
        return UniformReal(a[0], a[1], a[2])
    if k == "ni":
        return NominalInteger(a[0])
    if k == "ui":
        return UniformInteger(a[0], a[1])
    if k == "nc":
        return NominalCategorical(a[0])
    if k == "dc":
        return DiscreteCategorical(dict(a[0]))
    if k == "ef":
        return EmpiricalFormula(a[0])
    if k == "comp":
        return NominalComposition(dict(a[0]))
    if k == "inchi":
        return InChI(a[0])
    if k == "smiles":
        return Smiles(a[0])
    raise AssertionError(r)


def bounds(r):
    if r is None:
        return None
    k, a = r[0], r[1:]
    if k == "real":
        return RealBounds(a[0], a[1], a[2])
    if k == "int":
        return IntegerBounds(a[0], a[1])
    if k == "cat":
        return CategoricalBounds(list(a[0]))
    if k == "comp":
        return CompositionBounds(list(a[0]))
    if k == "mol":
        return MolecularStructureBounds()
    raise AssertionError(r)


def become(obj, other):
    """Give a live value or bounds the fields of another object of its class, one by one."""
    todo = {f: getattr(other, f) for f in fields(obj)}
    for _ in range(4):                 # a lower bound may have to wait for the upper one
        for f, v in todo.items():
            try:
                setattr(obj, f, v)
            except ValueError:
                pass


def narrower(b, mode):
    """A bounds recipe inside bounds recipe b (mode 1: same, 2: strictly smaller if possible)."""
    if mode == 1 or b[0] == "mol":
        return list(b)
    if b[0] == "real":
        mid = min(max(b[1] / 2 + b[2] / 2, b[1]), b[2])
        return ["real", b[1], mid, b[3]]
    if b[0] == "int":
        return ["int", b[1], (b[1] + b[2]) // 2]
    items = sorted(b[1])
    return [b[0], items[:(len(items) + 1) // 2]]


class Uids:
    """Hands out uid maps in which no (scope, id) pair is used twice."""

    def __init__(self):
        self.used = set()

    def make(self, pairs):
        res = {}
        low = set()
        for scope, id_ in pairs or []:
            if scope.lower() in low:
                continue
            while (scope.lower(), id_) in self.used:
                id_ = id_ + "'"
            self.used.add((scope.lower(), id_))
            low.add(scope.lower())
            res[scope] = id_
        return res


class Graph:
    """The live objects of a graph recipe, by kind and in build order."""

    def __init__(self, recipe):
        self.by = {k: [] for k in ORDER}
        self.all = []
        self.uids = Uids()
        self.bounds_of = {}          # id(attribute template) -> its bounds recipe
        self.claimed = set()
        self.displaces = bool(recipe.get("displaces"))
        for k in ORDER:
            for node in recipe.get(k, []):
                obj = getattr(self, "_" + k)(node)
                self.by[k].append(obj)
                self.all.append(obj)

    # -- helpers
    def ref(self, r, candidates):
        if r is None:
            return None
        if isinstance(r, int):
            return pick(candidates, r)
        if "x" in r:
            return LinkByUID(r["x"][0], "dangling-" + r["x"][1])
        target = pick(candidates, r["l"])
        if target is None:
            return None
        if len(target.uids) == 0:
            return target
        scopes = sorted(target.uids)
        scope = scopes[r.get("s", 0) % len(scopes)]
        shown = {0: scope, 1: scope.upper(), 2: scope.lower()}[r.get("case", 0) % 3]
        if shown.lower() != scope.lower():
            shown = scope
        return LinkByUID(shown, target.uids[scope])

    @staticmethod
    def files(n):
        return [FileLink(a, b) for a, b in n.get("files", [])]

    @staticmethod
    def source(n):
        s = n.get("source")
        return None if s is None else PerformedSource(s[0], s[1])

    def attr(self, r):
        cls = ATTR[r["k"]]
        cands = [t for t in self.by["at"] if type(t) is ATMPL[r["k"]]]
        kw = {}
        if "origin" in r:
            kw["origin"] = r["origin"]
        return cls(r["name"], template=self.ref(r.get("tmpl"), cands), value=value(r.get("value")),
                   notes=r.get("notes"), file_links=self.files(r), **kw)

    def attrs(self, rs, k):
        return [self.attr(dict(r, k=k)) for r in rs or []]

    def common(self, n):
        return dict(uids=self.uids.make(n.get("uids")), tags=list(n.get("tags", [])),
                    notes=n.get("notes"), file_links=self.files(n))

    # -- one builder per kind
    def _at(self, n):
        obj = ATMPL[n["k"]](n["name"], description=n.get("desc"), bounds=bounds(n["bounds"]),
                            uids=self.uids.make(n.get("uids")), tags=list(n.get("tags", [])))
        self.bounds_of[id(obj)] = n["bounds"]
        return obj

    def pairs(self, rs, k):
        cands = [t for t in self.by["at"] if type(t) is ATMPL[k]]
        res = []
        for ref, mode in rs or []:
            t = self.ref(ref, cands)
            if t is None:
                continue
            if mode == 0:
                res.append(t if ref == 0 else [t, None])
            elif isinstance(t, LinkByUID):
                target = next((x for x in cands if any(
                    sc.lower() == t.scope.lower() and i == t.id for sc, i in x.uids.items())), None)
                # a dangling link may restrict to anything: nothing is known of its target
                b = ["int", 0, mode] if target is None else narrower(
                    self.bounds_of[id(target)], mode)
                res.append([t, bounds(b)])
            else:
                res.append((t, bounds(narrower(self.bounds_of[id(t)], mode))))
        return res

    def _ot(self, n):
        kw = {}
        k = n["k"]
        if k in ("material", "measurement"):
            kw["properties"] = self.pairs(n.get("p"), "p")
        if k in ("process", "measurement"):
            kw["conditions"] = self.pairs(n.get("c"), "c")
            kw["parameters"] = self.pairs(n.get("m"), "m")
        if k == "process":
            kw["allowed_names"] = n.get("anames")
            kw["allowed_labels"] = n.get("alabels")
        return OTMPL[k](n["name"], description=n.get("desc"),
                        uids=self.uids.make(n.get("uids")), tags=list(n.get("tags", [])), **kw)

    def tmpl(self, n, k):
        return self.ref(n.get("tmpl"), [t for t in self.by["ot"] if type(t) is OTMPL[k]])

    def _ps(self, n):
        return ProcessSpec(n["name"], template=self.tmpl(n, "process"),
                           conditions=self.attrs(n.get("c"), "c"),
                           parameters=self.attrs(n.get("m"), "m"), **self.common(n))

    def _es(self, n):
        return MeasurementSpec(n["name"], template=self.tmpl(n, "measurement"),
                               conditions=self.attrs(n.get("c"), "c"),
                               parameters=self.attrs(n.get("m"), "m"), **self.common(n))

    def claim(self, proc):
        """Each process makes one material: a second claim on it (even by link) is dropped,
        unless the recipe lets a material be displaced by a later one."""
        if proc is None:
            return None
        if self.displaces:
            return proc
        target = proc
        if isinstance(proc, LinkByUID):
            target = next((p for p in self.by["ps"] + self.by["pr"]
                           if any(s.lower() == proc.scope.lower() and i == proc.id
                                  for s, i in p.uids.items())), None)
            if target is None:
                return proc
        if id(target) in self.claimed:
            return None
        self.claimed.add(id(target))
        return proc

    def _ms(self, n):
        props = [PropertyAndConditions(property=self.attr(dict(p, k="p")),
                                       conditions=self.attrs(p.get("conds"), "c"))
                 for p in n.get("p", [])]
        return MaterialSpec(n["name"], template=self.tmpl(n, "material"),
                            process=self.claim(self.ref(n.get("proc"), self.by["ps"])),
                            properties=props, **self.common(n))

    @staticmethod
    def quant(n):
        q = n.get("q") or {}
        return {name: value(q.get(key)) for key, name in
                (("mf", "mass_fraction"), ("vf", "volume_fraction"), ("nf", "number_fraction"),
                 ("aq", "absolute_quantity")) if key in q}

    def _is(self, n):
        return IngredientSpec(n["name"], material=self.ref(n.get("mat"), self.by["ms"]),
                              process=self.ref(n.get("proc"), self.by["ps"]),
                              labels=n.get("labels"), **self.quant(n), **self.common(n))

    def _pr(self, n):
        return ProcessRun(n["name"], spec=self.ref(n.get("spec"), self.by["ps"]),
                          conditions=self.attrs(n.get("c"), "c"),
                          parameters=self.attrs(n.get("m"), "m"), source=self.source(n),
                          **self.common(n))

    def _mr(self, n):
        kw = {"sample_type": n["sample"]} if "sample" in n else {}
        return MaterialRun(n["name"], spec=self.ref(n.get("spec"), self.by["ms"]),
                           process=self.claim(self.ref(n.get("proc"), self.by["pr"])), **kw,
                           **self.common(n))

    def _ir(self, n):
        obj = IngredientRun(spec=self.ref(n.get("spec"), self.by["is"]),
                            material=self.ref(n.get("mat"), self.by["mr"]),
                            process=self.ref(n.get("proc"), self.by["pr"]),
                            **self.quant(n), **self.common(n))
        if n.get("unspec") is not None and isinstance(obj.spec, IngredientSpec):
            # keeps the name and labels of a spec it no longer points to
            obj.spec = None if n["unspec"] == 0 else LinkByUID("gone", "dangling-spec")
        return obj

    def _er(self, n):
        return MeasurementRun(n["name"], spec=self.ref(n.get("spec"), self.by["es"]),
                              material=self.ref(n.get("mat"), self.by["mr"]),
                              properties=self.attrs(n.get("p"), "p"),
                              conditions=self.attrs(n.get("c"), "c"),
                              parameters=self.attrs(n.get("m"), "m"), source=self.source(n),
                              **self.common(n))

    def thing(self, r):
        """Container recipe -> nested python structure around the graph's objects."""
        k = r[0]
        if k == "e":
            return pick(self.all, r[1])
        if k == "k":
            return pick(self.by[r[1]], r[2])
        if k == "all":
            return list(self.all)
        if k == "list":
            return [self.thing(x) for x in r[1]]
        if k == "tuple":
            return tuple(self.thing(x) for x in r[1])
        if k == "dict":
            return {key: self.thing(x) for key, x in r[1]}
        if k == "kdict":
            return {pick(self.all, i): self.thing(x) for i, x in r[1]} if self.all else {}
        if k == "odd":
            return odd(r[1], [self.thing(x) for x in r[2]])
        if k == "attr":
            return self.attr(r[1])
        if k == "val":
            return value(r[1])
        if k == "bnd":
            return bounds(r[1])
        if k == "lit":
            return r[1]
        if k == "link":
            return self.ref(r[1], self.all)
        raise AssertionError(r)
