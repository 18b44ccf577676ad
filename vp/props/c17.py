"""C17: builders wire up complete, consistent structures."""
from contextlib import nullcontext

from gemd.builders.impl import (add_attribute, add_edge, add_measurement, make_attribute, make_node,
                                make_value)
from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec,
                                MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
from gemd.entity.template import MaterialTemplate, MeasurementTemplate, ProcessTemplate
from gemd.entity.value import (EmpiricalFormula, InChI, NominalCategorical, NominalInteger,
                               NominalReal, Smiles)
from gemd.enumeration import Origin, SampleType
from hypothesis import strategies as st

from .. import gens
from ..build import ATMPL, ATTR, bounds, value
from ..core import expect_raises, pick, require
from ..model import BACK, fields, plain

RULE = ("a script of builder calls over generated templates: nodes, edges, measurements, "
        "attributes, with every combination of optional arguments, on complete and incomplete "
        "materials; non-trivial: an edge or measurement or attribute on a built node, or a refusal")
BUDGET = {"quick": 36000, "thorough": 300000}
ASSUMPTIONS = ["a refused call may leave the ingredient or measurement it had already made in place"]

NAMES = ["a", "b", "", "mix", "a ", "ünï", "Mixing", "0", "A", "mixing", "MIX"]
UNITS = ["", "kg", "m", "mol", "g/cm^3", "degC"]


def strategies(tier):
    name = st.sampled_from(NAMES)
    opt_name = st.one_of(st.none(), name)
    idx = st.integers(0, 9)
    opt_idx = st.one_of(st.none(), idx)
    node = st.fixed_dictionaries({"op": st.just("node"), "name": name, "pname": opt_name,
                                  "pt": opt_idx, "mt": opt_idx})
    raw = st.fixed_dictionaries({"op": st.just("raw"), "name": name, "how": st.sampled_from(
        ["nospec", "noproc", "specnoproc", "bare", "linkspec"])})
    frac = st.one_of(st.none(), st.sampled_from([0, 1, 0.0, 0.5, 1.0, 0.25]),
                     st.tuples(st.just("nr"), st.sampled_from([0.0, 0.3]), st.just("")).map(list),
                     st.just(["ur", 0.1, 0.4, ""]), st.just(["norm", 0.5, 0.1, "percent"]))
    quant = st.one_of(st.none(), st.sampled_from([0, 3, 0.0, 2.5, 10 ** 20]),
                      st.just(["nr", 4.0, "kg"]), st.just(["ur", 1.0, 2.0, "mol"]))
    edge = st.fixed_dictionaries({
        "op": st.just("edge"), "i": idx, "o": idx, "name": opt_name, "mf": frac, "nf": frac,
        "vf": frac, "aq": quant, "au": st.one_of(st.none(), st.none(), st.sampled_from(UNITS))})
    prim = st.one_of(st.integers(-3, 9), st.sampled_from([2.5, -1.0, 3.0, 0.0, 0, 1e300, 2 ** 60]),
                     st.sampled_from(["a", "b", "H2O", "NaCl", "InChI=1S/H2O/h1H2", "CC", "",
                                      "InChI", "inchi=x", "1S/CH4", "xInChI=1S/x", "InChI=2S/H2O", "InChI=", " InChI=1S/x",
                                      "INCHI=1S/x"]))
    val = st.one_of(prim.map(lambda p: ["prim", p]), prim.map(lambda p: ["prim", p]),
                    gens.value().map(lambda v: ["value", v]))
    attr = st.fixed_dictionaries({"op": st.just("attr"), "at": idx,
                                  "t": st.one_of(st.integers(0, 40), st.just(0)),
                                  "v": val, "fit": st.booleans()})
    listed = st.one_of(
        st.fixed_dictionaries({"k": st.sampled_from("pcm"), "name": name, "v": gens.value()}),
        st.fixed_dictionaries({"k": st.sampled_from("pcm"), "name": name, "v": gens.value()}),
        st.fixed_dictionaries({"k": st.sampled_from("pcm"), "name": name, "v": gens.value()}),
        st.sampled_from([{"k": "pac"}, {"k": "junk"}]))
    meas = st.fixed_dictionaries({
        "op": st.just("meas"), "m": idx, "name": opt_name, "t": opt_idx,
        "attrs": st.one_of(st.none(), st.lists(listed, max_size=4))})
    free = st.fixed_dictionaries({"op": st.just("value"), "b": gens.bounds(), "v": prim,
                                  "k": st.sampled_from("pcm"), "name": name})
    junk = st.fixed_dictionaries({"op": st.just("junk"), "w": st.integers(0, 5)})
    rebound = st.fixed_dictionaries({"op": st.just("rebound"), "at": idx, "b": gens.bounds()})
    rename = st.fixed_dictionaries({"op": st.just("rename"), "k": st.sampled_from("aoom"),
                                    "t": idx, "name": name})
    at = st.fixed_dictionaries({"k": st.sampled_from("pcmp"), "b": gens.bounds(),
                                "name": st.one_of(name, st.sampled_from(["a", "b"]),
                                                  st.sampled_from(["a", "b"]))})
    ot = st.fixed_dictionaries({"k": st.integers(0, 2), "name": name})
    script = st.lists(st.one_of(node, node, edge, edge, edge, meas, meas, attr, attr, attr, raw,
                                free, junk, rebound, rename), min_size=1, max_size=12)
    return [(1, st.fixed_dictionaries({
        "at": st.lists(at, max_size=5), "ot": st.lists(ot, max_size=4), "first": node,
        "quiet": st.booleans(), "ops": script})),
            # attributes made of templates whose name and bounds change in between
            (0.3, st.fixed_dictionaries({
                "at": st.lists(at, min_size=1, max_size=2), "ot": st.lists(ot, max_size=2),
                "first": node, "quiet": st.just(True),
                "ops": st.lists(st.one_of(
                    attr.map(lambda a: dict(a, fit=True)), attr.map(lambda a: dict(a, fit=True)),
                    st.fixed_dictionaries({"op": st.just("attr"), "at": idx, "t": st.integers(0, 5),
                                           "v": st.sampled_from([1, 3, "H2O", "a"]).map(
                                               lambda p: ["prim", p]), "fit": st.just(True)}),
                    rebound, rebound, rename, meas, edge), min_size=3, max_size=10)})),
            # many attributes of few names on one object
            (0.15, st.fixed_dictionaries({
                "at": st.lists(st.fixed_dictionaries({
                    "k": st.sampled_from("ppcc"), "b": st.just(["int", 0, 9]),
                    "name": st.sampled_from("ab")}), min_size=3, max_size=5),
                "ot": st.just([]), "first": node, "quiet": st.just(True),
                "ops": st.lists(st.fixed_dictionaries({
                    "op": st.just("attr"), "at": idx, "t": st.sampled_from([0, 0, 0, 1]),
                    "v": st.just(["prim", 1]), "fit": st.just(True)}), min_size=4, max_size=9)}))]


def quantity(x):
    """Live argument and the value expected on the ingredient."""
    if isinstance(x, list):
        v = value(x)
        return v, v
    return x, x


DEFAULTS = {"uids": {}, "tags": [], "notes": None, "file_links": [], "template": None,
            "conditions": [], "parameters": [], "properties": [], "source": None,
            "sample_type": SampleType.UNKNOWN, "labels": [], "mass_fraction": None,
            "number_fraction": None, "volume_fraction": None, "absolute_quantity": None,
            "spec": None, "material": None, "process": None, "output_material": None,
            "ingredients": [], "measurements": []}


class Script:
    def __init__(self, recipe):
        self.attr_templates = [ATMPL[a["k"]](a["name"], bounds=bounds(a["b"]))
                               for a in recipe["at"]]
        self.at_recipes = [dict(a) for a in recipe["at"]]
        ot = [(MaterialTemplate, ProcessTemplate, MeasurementTemplate)[o["k"]](o["name"])
              for o in recipe["ot"]]
        self.mt = [t for t in ot if isinstance(t, MaterialTemplate)]
        self.pt = [t for t in ot if isinstance(t, ProcessTemplate)]
        self.et = [t for t in ot if isinstance(t, MeasurementTemplate)]
        self.objs, self.want, self.mats, self.raw = [], {}, [], {}

    # the model: for every object made so far, each field it should have
    def add(self, obj, cls, **expected):
        require(type(obj) is cls, "expected a {}, got {}", cls.__name__, obj)
        require(all(o is not obj for o in self.objs), "the {} is not a new object", cls.__name__)
        self.objs.append(obj)
        w = {f: DEFAULTS[f] for f in list(fields(obj)) + BACK.get(cls.__name__, []) if f != "name"}
        w = {f: list(v) if isinstance(v, list) else v for f, v in w.items()}
        w.update(expected)
        self.want[id(obj)] = w

    def verify(self, op):
        def show(e):
            return ("object", id(e))
        for o in self.objs:
            for f, w in self.want[id(o)].items():
                g = getattr(o, f)
                if isinstance(w, list) and w and not isinstance(w[0], str):
                    require(len(g) == len(w) and all(same(a, b) for a, b in zip(g, w)),
                            "after {}: {} of the {} is {}, expected {}", op, f, type(o).__name__,
                            g, w)
                elif hasattr(w, "typ") or f == "sample_type":
                    require(g is w, "after {}: {} of the {} is {}, expected {}", op, f,
                            type(o).__name__, g, w)
                else:
                    require(plain(g, show) == plain(w, show),
                            "after {}: {} of the {} is {}, expected {}", op, f, type(o).__name__,
                            g, w)

    def resync(self):
        """After a refused call: take what is there as the starting point."""
        for o in self.objs:
            for f in self.want[id(o)]:
                g = getattr(o, f)
                self.want[id(o)][f] = list(g) if isinstance(g, list) else g

    # operations
    def rebound(self, op, case):
        """Give an attribute template other bounds: what is made of it next follows those."""
        if self.attr_templates:
            i = op["at"] % len(self.attr_templates)
            self.attr_templates[i].bounds = bounds(op["b"])
            self.at_recipes[i]["b"] = op["b"]
            case.label("bounds replaced")

    def rename(self, op, case):
        """Give a template or material another name: what is made of it next is named so."""
        pool = {"a": self.attr_templates, "o": self.mt + self.pt + self.et, "m": self.mats}
        x = pick(pool[op["k"]], op["t"])
        if x is not None:
            x.name = op["name"]
            if id(x) in self.want:
                self.want[id(x)]["name"] = op["name"]
            case.label("renamed")

    def node(self, op):
        pt = None if op["pt"] is None else pick(self.pt, op["pt"])
        mt = None if op["mt"] is None else pick(self.mt, op["mt"])
        kw = {}
        if op["pname"] is not None:
            kw["process_name"] = op["pname"]
        if pt is not None:
            kw["process_template"] = pt
        if mt is not None:
            kw["material_template"] = mt
        run = make_node(op["name"], **kw)
        require(isinstance(run, MaterialRun), "make_node returned {}", run)
        spec, pr = run.spec, run.process
        require(isinstance(spec, MaterialSpec) and isinstance(pr, ProcessRun),
                "the node has spec {} and process {}", spec, pr)
        ps = pr.spec
        require(isinstance(ps, ProcessSpec), "the process run has spec {}", ps)
        pname = op["pname"] if op["pname"] is not None else pt.name if pt is not None \
            else op["name"]
        self.add(run, MaterialRun, name=op["name"], spec=spec, process=pr)
        self.add(spec, MaterialSpec, name=op["name"], process=ps, template=mt)
        self.add(pr, ProcessRun, name=pname, spec=ps, output_material=run)
        self.add(ps, ProcessSpec, name=pname, template=pt, output_material=spec)
        require(run.template is mt and pr.template is pt, "the templates seen by the runs are {} "
                "and {}", run.template, pr.template)
        self.mats.append(run)

    def make_raw(self, op):
        how = op["how"]
        spec = None
        if how in ("noproc", "specnoproc"):
            spec = MaterialSpec("s")
            if how == "noproc":
                spec.process = ProcessSpec("sp")
        elif how == "linkspec":
            spec = LinkByUID("scope", "id")
        run = MaterialRun(op["name"], spec=spec)
        if how in ("nospec", "specnoproc", "linkspec"):
            run.process = ProcessRun("rp")
            self.add(run.process, ProcessRun, name="rp", output_material=run)
        self.add(run, MaterialRun, name=op["name"], spec=spec, process=run.process)
        if isinstance(spec, MaterialSpec):
            self.add(spec, MaterialSpec, name="s", process=spec.process)
            if spec.process is not None:
                self.add(spec.process, ProcessSpec, name="sp", output_material=spec)
        self.mats.append(run)
        self.raw[id(run)] = how

    def edge(self, op, case):
        src, dst = pick(self.mats, op["i"]), pick(self.mats, op["o"])
        kw, expect = {}, {}
        for key, f in (("mf", "mass_fraction"), ("nf", "number_fraction"),
                       ("vf", "volume_fraction"), ("aq", "absolute_quantity")):
            arg, v = quantity(op[key])
            if arg is not None:
                kw[f], expect[f] = arg, v
        if op["name"] is not None:
            kw["name"] = op["name"]
        if op["au"] is not None:
            kw["absolute_units"] = op["au"]
        number = isinstance(op["aq"], (int, float))
        wrong = []
        if id(dst) in self.raw:
            wrong.append("incomplete output")
        if self.raw.get(id(src)) in ("nospec", "bare"):
            wrong.append("input without spec")
        if number and op["au"] is None:
            wrong.append("number without units")
        if not number and op["au"] is not None:
            wrong.append("units without number")
        if wrong:
            case.label("edge refused")
            case.interesting()
            expect_raises(ValueError, lambda: add_edge(src, dst, **kw),
                          "add_edge with {}".format(", ".join(wrong)))
            self.resync()
            return
        run = add_edge(src, dst, **kw)
        require(isinstance(run, IngredientRun), "add_edge returned {}", run)
        spec = run.spec
        require(isinstance(spec, IngredientSpec), "the ingredient has spec {}", spec)
        case.label("edge")
        case.interesting()
        name = op["name"] if op["name"] is not None else src.name
        vals = {}
        for f, v in expect.items():
            if isinstance(v, (int, float)):
                g = getattr(run, f)
                require(type(g) is NominalReal and type(g.nominal) is float
                        and g.nominal == float(v), "{}={} became {}", f, v, g)
                u = "dimensionless" if f != "absolute_quantity" else canonical(op["au"])
                require(g.units == u, "{}={} with units {} became {}", f, v, op["au"], g)
                v = g
            vals[f] = v
        self.add(run, IngredientRun, name=name, spec=spec, material=src, process=dst.process, **vals)
        self.add(spec, IngredientSpec, name=name, material=src.spec, process=dst.spec.process)
        self.want[id(dst.process)]["ingredients"].append(run)
        self.want[id(dst.spec.process)]["ingredients"].append(spec)

    def meas(self, op, case):
        mat = pick(self.mats, op["m"])
        t = None if op["t"] is None else pick(self.et, op["t"])
        kw, lists, bad = {}, {"p": [], "c": [], "m": []}, False
        if op["name"] is not None:
            kw["name"] = op["name"]
        if t is not None:
            kw["template"] = t
        if op["attrs"] is not None:
            kw["attributes"] = []
            for a in op["attrs"]:
                if a["k"] == "pac":
                    x = PropertyAndConditions(property=Property("x"))
                elif a["k"] == "junk":
                    x = "not an attribute"
                else:
                    x = ATTR[a["k"]](a["name"], value=value(a["v"]))
                    lists[a["k"]].append(x)
                bad = bad or a["k"] in ("pac", "junk")
                kw["attributes"].append(x)
        if op["name"] is None and t is None or bad:
            case.label("measurement refused")
            case.interesting()
            expect_raises(ValueError, lambda: add_measurement(mat, **kw),
                          "add_measurement({})".format(sorted(kw)))
            self.resync()
            return
        run = add_measurement(mat, **kw)
        case.label("measurement")
        case.interesting()
        require(isinstance(run, MeasurementRun), "add_measurement returned {}", run)
        name = op["name"] if op["name"] is not None else t.name
        spec = run.spec
        self.add(run, MeasurementRun, name=name, spec=spec, material=mat, properties=lists["p"],
                 conditions=lists["c"], parameters=lists["m"])
        self.add(spec, MeasurementSpec, name=name, template=t)
        require(run.template is t, "the template seen by the run is {}", run.template)
        self.want[id(mat)]["measurements"].append(run)

    def attr(self, op, case):
        if not self.attr_templates:
            return
        i = op["at"] % len(self.attr_templates)
        tmpl, k = self.attr_templates[i], self.at_recipes[i]["k"]
        targets = self.objs
        if op["fit"]:
            kinds = {"p": (MaterialSpec, MeasurementRun),
                     "c": (MaterialSpec, ProcessRun, ProcessSpec, MeasurementRun, MeasurementSpec),
                     "m": (ProcessRun, ProcessSpec, MeasurementRun, MeasurementSpec)}[k]
            targets = [o for o in targets if isinstance(o, kinds)]
        target = pick(targets, op["t"])
        if target is None:
            return
        arg, ok = given(op["v"], self.at_recipes[i]["b"])
        if ok is None:
            self.resync()
            return
        w = self.want[id(target)]
        if isinstance(target, MaterialSpec):
            allowed = k == "p" or k == "c" and len(target.properties) > 0
        else:
            field = {"p": "properties", "c": "conditions", "m": "parameters"}[k]
            allowed = field in w
        case.interesting()
        if not allowed:
            case.label("attribute refused")
            expect_raises(ValueError, lambda: add_attribute(target, tmpl, arg),
                          "adding a {} to a {}".format(ATTR[k].__name__, type(target).__name__))
            self.resync()
            return
        case.label("attribute on a " + type(target).__name__)
        conds = [list(p.conditions) for p in target.properties] \
            if isinstance(target, MaterialSpec) else None
        a = add_attribute(target, tmpl, arg)
        self.attribute(a, k, tmpl, arg, op["v"], self.at_recipes[i]["b"])
        if conds is None:
            w[field].append(a)
            require(getattr(target, field)[-1] is a, "the returned attribute is not the last of {}",
                    field)
            return
        if k == "p":
            conds.append([])
            pac = target.properties[-1]
            require(type(pac) is PropertyAndConditions and pac.property is a,
                    "the material spec holds {} instead of the returned property", pac)
            w["properties"] = w["properties"] + [pac]
        else:
            conds[-1].append(a)
        now = [list(p.conditions) for p in target.properties]
        require(len(now) == len(conds) and all(
            len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(now, conds)),
            "the conditions of the properties are {}, expected {}", now, conds)

    @staticmethod
    def attribute(a, k, tmpl, arg, v, b):
        require(type(a) is ATTR[k], "expected a {}, got {}", ATTR[k].__name__, a)
        require(a.name == tmpl.name and a.template is tmpl and a.notes is None
                and list(a.file_links) == [] and a.origin is Origin.UNKNOWN,
                "the attribute made from {} is {}", tmpl, a)
        if v[0] == "value":
            require(a.value is arg, "the given value became {}", a.value)
        else:
            typed(a.value, v[1], b)


def same(a, b):
    return a is b


def canonical(u):
    return NominalReal(0, u).units


def suits(p, b):
    """Which value class a plain number or string becomes; None where nothing is promised."""
    k = b[0]
    number = isinstance(p, (int, float))
    if k == "real":
        return NominalReal if number else None
    if k == "int":
        return NominalInteger if number and p == int(p) else None
    if k == "cat":
        return NominalCategorical if isinstance(p, str) else None
    if k == "comp":
        return EmpiricalFormula if p in ("H2O", "NaCl", "CC") else None
    if isinstance(p, str):
        return InChI if p.startswith("InChI=") else Smiles
    return None


def given(v, b):
    """(argument, whether its outcome is promised)."""
    if v[0] == "value":
        return value(v[1]), True
    return v[1], True if suits(v[1], b) else None


def typed(g, p, b):
    cls = suits(p, b)
    require(type(g) is cls, "{} with bounds {} became {}", p, b, g)
    got, = [getattr(g, f) for f in fields(g) if f != "units"]
    require(got == p and type(got) is (float if cls is NominalReal else int
                                       if cls is NominalInteger else str),
            "{} with bounds {} became {}", p, b, g)
    if cls is NominalReal:
        require(g.units == bounds(b).default_units, "{} with bounds {} became {}", p, b, g)


def check(recipe, case):
    with validation_level(WarningLevel.IGNORE) if recipe["quiet"] else nullcontext():
        s = Script(recipe)
        s.node(recipe["first"])
        s.verify("node")
        for op in recipe["ops"]:
            k = op["op"]
            if k == "node":
                s.node(op)
            elif k == "raw":
                s.make_raw(op)
            elif k == "edge":
                s.edge(op, case)
            elif k == "meas":
                s.meas(op, case)
            elif k == "attr":
                s.attr(op, case)
            elif k in ("rebound", "rename"):
                getattr(s, k)(op, case)
            elif k == "value":
                b = bounds(op["b"])
                if suits(op["v"], op["b"]) is not None:
                    case.label("value of {} bounds".format(op["b"][0]))
                    typed(make_value(op["v"], b), op["v"], op["b"])
                    t = ATMPL[op["k"]](op["name"], bounds=b)
                    s.attribute(make_attribute(t, op["v"]), op["k"], t, op["v"],
                                ["prim", op["v"]], op["b"])
            else:
                bad = [None, "x", 5, s.mats[0], Property("x"), MaterialTemplate("x")][op["w"]]
                case.label("junk refused")
                expect_raises(ValueError, lambda: make_value(1, bad), "make_value for a non-bounds")
                expect_raises(ValueError, lambda: make_attribute(bad, 1),
                              "make_attribute for a non-template")
                expect_raises(ValueError, lambda: add_attribute(s.mats[0].process, bad, 1),
                              "add_attribute for a non-template")
            s.verify(k)
