"""C25: demonstration data is complete, reproducible and true to its inputs."""
import random
import string

from gemd.demo import cake as dc
from gemd.demo import material_run_example as dm
from gemd.demo import measurement_example as de
from gemd.demo import strehlow_and_cook as ds
from gemd.demo import table_example as dt
from gemd.entity.bounds import CategoricalBounds, CompositionBounds
from gemd.entity.bounds_validation import validation_level
from gemd.entity.file_link import FileLink
from gemd.entity.object import MaterialRun, MaterialSpec, ProcessRun
from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, NominalCategorical,
                               NominalReal, NormalReal, UniformReal)
from gemd.enumeration import Origin
from gemd.units import parse_units
from hypothesis import strategies as st

from .. import gens, model
from ..core import require
from ..logs import Warnings
from ..units_gen import close

RULE = ("a seed with optional templates, recipe, picture and scopes for the cake; a table of "
        "Strehlow-and-Cook rows; a material record; a data frame; or a number of flexural "
        "measurements; non-trivial: the cake is built twice, the table repeats a formula or an "
        "attribute, or the record has experiments")
BUDGET = {"quick": 4800, "thorough": 30000}
ASSUMPTIONS = ["only the first occurrence of an attribute name within one Strehlow-and-Cook row "
               "is kept (stated in the code)", "units of ingested texts are single words"]

SAC_CATS = {
    "Crystallinity": ["Amorphous", "Polycrystalline", "Single crystalline"],
    "Color": ["Amber", "Black", "Brown-Black", "Yellow-White"],
    "Lasing": ["True", "False"], "Cathodoluminescence": ["True", "False"],
    "Mechanical luminescence": ["True", "False"], "Photoluminescence": ["True", "False"],
    "Electroluminescence": ["True", "False"], "Thermoluminescence": ["True", "False"],
    "Morphology": ["Thin film", "Bulk"],
    "Electric field polarization": ["Parallel to A axis", "Perpendicular to C axis"],
    "Phase": ["A", "B1", "Sapphire", "Cubic", "Trigonal"],
    "Transition": ["Direct", "Indirect", "G1 to X1", "L6+ to L6-"]}
SAC_REAL = {"Band gap": ("eV", 0.001, 100), "Temperature": ("K", 1, 1000),
            "Temperature derivative of band gap": ("eV/K", -0.01, 0.01)}
SAC_SPLIT = {"Phase": (["A", "B", "B1", "B2", "Fused quartz", "Natural diamond", "Rutile",
                        "Sapphire", "Synthetic quartz"], "Crystal system"),
             "Transition": (["Direct", "Excitonic", "Indirect"], "Bands")}
SAC_CONDS = {"Temperature", "Crystallinity", "Morphology", "Electric field polarization", "Phase",
             "Crystal system", "Transition", "Bands"}
SAC_TERMS = ["Band gap", "Temperature derivative of band gap", "Temperature", "Color",
             "Lasing", "Cathodoluminescence", "Mechanical luminescence", "Photoluminescence",
             "Electroluminescence", "Thermoluminescence", "Transition", "Bands",
             "Electric field polarization", "Crystallinity", "Morphology", "Phase",
             "Crystal system"]
EDITS = ["notes", "tags", "absolute_quantity", "mass_fraction", "volume_fraction",
         "number_fraction", "none"]
EV_IN_AJ = 0.1602176634        # exact by the definition of the electron volt


def strategies(tier):
    n = 4 if tier == "quick" else 10
    cake = st.fixed_dictionaries({
        "seed": st.one_of(st.integers(0, 10 ** 6), st.integers(), gens.text()),
        "tmpl": st.booleans(), "spec": st.booleans(), "pic": st.booleans(),
        "scope": st.sampled_from([None, ["mine", None], ["mine", "yours"], ["A b", "c"]]),
        "level": st.integers(1, 2), "global": st.booleans(),
        "edits": st.one_of(st.just([]), st.lists(st.tuples(
            st.one_of(st.just(-1), st.integers(0, 99)), st.sampled_from(EDITS), st.one_of(
                st.floats(1e-6, 0.9), st.sampled_from([0.0, 0.25, 0.9])),
            st.one_of(gens.text(), gens.text(), st.just("long notes " * 60)),
            st.lists(st.sampled_from(["raw material", "produce", "x"]), max_size=3, unique=True)
        ).map(list), max_size=12))})

    def attr(name):
        if name in SAC_REAL:
            u, lo, hi = SAC_REAL[name]
            num = st.floats(lo, hi).map(repr)
            sc = st.fixed_dictionaries({"value": num}, optional={
                "uncertainty": st.floats(0, 1e-3).map(repr)})
            extra = {"units": st.just(u)}
        else:
            sc, extra = st.fixed_dictionaries({"value": st.sampled_from(SAC_CATS[name])}), {}
        return st.fixed_dictionaries(dict(
            {"name": st.just(name), "scalars": sc.map(lambda s: [s])}, **extra))
    names = sorted(SAC_REAL) + sorted(SAC_CATS)
    cond = st.sampled_from([x for x in names if x in SAC_CONDS]).flatmap(attr)
    prop = st.sampled_from(names).flatmap(attr)
    prop = st.tuples(prop, st.fixed_dictionaries({}, optional={
        "conditions": st.lists(cond, max_size=3),
        "dataType": st.sampled_from(["EXPERIMENTAL", "COMPUTATIONAL", "OTHER"]),
        "method": gens.text().map(lambda s: {"name": s})})).map(lambda t: dict(t[0], **t[1]))
    part = st.tuples(st.sampled_from(["Ga", "As", "Li", "Br", "O", "C", "Al"]),
                     st.sampled_from(["1", "1", "2", "10", "11", "0.5", "1.5", "0.1"])).map(
                         lambda t: t[0] + t[1])
    row = st.fixed_dictionaries({
        "chemicalFormula": st.one_of(st.sampled_from(["Ga1As1", "O1", "Al10O1"]),
                                     st.lists(part, min_size=1, max_size=3).map("".join)),
        "properties": st.lists(prop, max_size=5)})
    rows = st.fixed_dictionaries({"sac": st.lists(row, min_size=1, max_size=n + 2),
                                  "tscope": st.sampled_from([None, "s"])})
    number = st.one_of(st.floats(0, 900), st.integers(0, 900))
    text = st.one_of(
        st.tuples(number, st.sampled_from(["g/cm^3", "kg/m^3", "K", "degF", "m^2/s", "nounit"]))
        .map(lambda t: "{} {}".format(*t)),
        st.tuples(number, st.sampled_from(["+-", "+/-"]), st.floats(0, 10),
                  st.sampled_from(["g/cm^3", "K", "nounit"])).map(
                      lambda t: "{} {} {} {}".format(*t)),
        number.map(str), number, st.sampled_from(["low", "medium", "high", "odd"]))
    tags = st.one_of(st.lists(gens.text(), max_size=3), st.sampled_from(["warm up", "x"]))
    exp = st.fixed_dictionaries({}, optional={
        "density": text, "kinematic viscosity": text, "temperature": text,
        "knob_2_setting": st.sampled_from(["low", "medium", "high"]), "other": text,
        "scan_id": gens.text(), "tags": tags})
    rec = st.fixed_dictionaries({}, optional={
        "sample_id": gens.text(), "tags": tags, "experiments": st.lists(exp, max_size=n)})
    ingest = st.fixed_dictionaries({"rec": rec, "spec": st.booleans(), "proc": st.booleans(),
                                    "more": st.one_of(st.none(), st.lists(rec, max_size=2))})
    cols = st.dictionaries(st.sampled_from(["vapor pressure", "temperature", "note"]),
                           st.just(1), max_size=3).map(sorted)
    frame = cols.flatmap(lambda c: st.fixed_dictionaries({
        "cols": st.just(c),
        "frame": st.lists(st.lists(st.floats(-5, 500), min_size=len(c), max_size=len(c)),
                          max_size=n)}))
    flex = st.fixed_dictionaries({
        "flex": st.integers(0, 5), "seed": st.integers(0, 99), "id": gens.text(),
        "d": st.floats(1e-3, 10), "tags": st.lists(gens.text(), max_size=3)})
    mini = st.fixed_dictionaries({"mini": st.lists(st.lists(
        st.sampled_from([1, 2, 1.5, "a", "b", None]), max_size=3), max_size=8)})
    return [(3, cake), (3, rows), (3, ingest), (1, frame), (1, flex), (1, mini)]


def fixed(tier):
    return [{"sac": "small", "tscope": None}, {"sac": "full", "tscope": None}]


def check(recipe, case):
    kind = next(k for k in ("sac", "rec", "frame", "flex", "mini", "seed") if k in recipe)
    case.label(kind)
    {"sac": sac, "rec": ingest, "frame": frame, "flex": flex, "mini": mini, "seed": cake}[kind](
        recipe, case)


# ---------------------------------------------------------------- cake
def cake(recipe, case):
    old = dc.get_demo_scope(), dc.get_template_scope()
    state = random.getstate()
    try:
        _cake(recipe, case)
    finally:
        dc.change_scope(old[0], templates=old[1])
        random.setstate(state)


def _cake(recipe, case):
    scope, tscope = recipe["scope"] or (None, None)
    if scope is not None:
        dc.change_scope(scope, templates=tscope)
        require(dc.get_demo_scope() == scope, "the demo scope is {}", dc.get_demo_scope())
        require(dc.get_template_scope() == (scope + "-template" if tscope is None else tscope),
                "the template scope is {}", dc.get_template_scope())
    scope, tscope = dc.get_demo_scope(), dc.get_template_scope()
    tmpl = dc.make_cake_templates() if recipe["tmpl"] or recipe["spec"] else None
    spec = dc.make_cake_spec(tmpl) if recipe["spec"] else None
    if spec is not None:
        edit(spec, recipe["edits"])
    pic = FileLink("pic", "url") if recipe["pic"] else None
    before = model.snapshot(spec) if spec is not None else None
    pics = []
    for again in range(2):
        kw = {"tmpl": tmpl, "cake_spec": spec, "toothpick_img": pic}
        with validation_level(recipe["level"]), Warnings() as w:
            if recipe["global"] and again:
                random.seed(recipe["seed"])
                run = dc.make_cake(**kw)
            else:
                run = dc.make_cake(seed=recipe["seed"], **kw)
        require(w.count == 0, "the cake logged {}", [r.getMessage() for r in w.h.records][:2])
        pics.append(one_cake(run, spec, tmpl, pic, scope, tscope))
    if before is not None:
        model.unchanged(before, spec, "make_cake")
    case.interesting()
    model.same_picture(pics[0], pics[1], "two cakes of the same seed")
    other = dc.make_cake(seed=str(recipe["seed"]) + "x", tmpl=tmpl, cake_spec=spec)
    mine = {k for k, r in pics[0]["recs"].items() if r[0].endswith("Run")}
    for e in model.closure(other):
        if type(e).__name__.endswith("Run"):
            require(model.key(e) not in mine, "cakes of two seeds share the uid of {}", e.name)
        else:
            require(model.key(e) in pics[0]["recs"],
                    "{} {} has another uid in another cake", type(e).__name__, e.name)


def edit(spec, edits):
    """Change notes, tags and amounts of the recipe."""
    ents = [e for e in model.closure(spec) if type(e).__name__.endswith("Spec")]
    ents.sort(key=lambda e: (type(e).__name__, sorted(dict(e.uids).items())))
    for k, f, x, text, tags in edits:
        some = ents if k < 0 else [ents[k % len(ents)]]
        if f == "notes":
            for e in some:
                e.notes = text
        elif f == "tags":
            for e in some:
                e.tags = list(tags)
        else:
            ings = [e for e in ents if type(e).__name__ == "IngredientSpec"]
            i = ings[k % len(ings)]
            if f == "none":
                i.mass_fraction = i.volume_fraction = i.number_fraction = None
            else:
                setattr(i, f, NominalReal(x * 100, "g") if f == "absolute_quantity"
                        else NominalReal(x, ""))


def one_cake(run, spec, tmpl, pic, scope, tscope):
    require(type(run) is MaterialRun, "make_cake made a {}", type(run).__name__)
    if spec is not None:
        require(run.spec is spec, "the cake does not use the recipe given")
    p = model.picture(run)
    model.check_back(p, "cake")
    for e in p["ents"]:
        want = {tscope} if type(e).__name__.endswith("Template") else {scope}
        require(set(e.uids) == want, "{} {} has uids {}", type(e).__name__, e.name, dict(e.uids))
        if tmpl is not None and type(e).__name__.endswith("Template"):
            require(any(e is t for t in tmpl.values()), "template {} is not a given one", e.name)
    # runs mirror the recipe
    specs = [run.spec]
    for m in specs:
        for i in m.process.ingredients:
            if not any(i.material is x for x in specs):
                specs.append(i.material)
    runs = [run]
    for m in runs:
        require(m.process.output_material is m, "material {} is not its process's output", m.name)
        require(m.process.spec is m.spec.process, "process of {} has another spec", m.name)
        want = [id(i) for i in m.spec.process.ingredients]
        got = [id(i.spec) for i in m.process.ingredients]
        require(sorted(got) == sorted(want), "ingredients of {} do not match its spec", m.name)
        for i in m.process.ingredients:
            require(i.material.spec is i.spec.material, "ingredient {} is another material",
                    i.name)
            if not any(i.material is x for x in runs):
                runs.append(i.material)
    require(sorted(id(m.spec) for m in runs) == sorted(map(id, specs)),
            "material runs do not match the recipe one to one")
    keys = set()
    for m in runs:
        raw = "raw material" in m.spec.tags
        dirty = m.name[:-len(m.spec.name)] if raw and m.name.endswith(m.spec.name) else None
        require(m.name == m.spec.name if not raw else dirty in (
            "Fresh Farm ", "Sunnydale ", "Greenbrook ") if "produce" in m.spec.tags else dirty in (
            "Acme ", "A1 ", "Reliable ", "Big Box "), "material run is called {}", m.name)
        bought = m.process.template.name == "Procuring"
        require(m.process.name == ("Procuring " + m.name if bought else m.process.spec.name),
                "the process of {} is called {}", m.name, m.process.name)
        src = m.process.source
        require((src.performed_by, src.performed_date) == ("hamilton", "2015-02-17") if bought
                else src is run.process.source, "the source of {} is {}", m.process.name, src)
        for x in [m, m.process] + list(m.process.ingredients):
            tail = "; Très délicieux! 😀" if x is run else ""
            said = 'The spec says "{}"'.format(x.spec.notes) if x.spec.notes else None
            require(x.notes == (said if not tail else (said or "") + tail),
                    "notes of {} are {}", x.name, x.notes)
            require(x.tags == x.spec.tags and x.tags is not x.spec.tags,
                    "tags of {} are {}", x.name, x.tags)
            u, su = x.uids[scope], x.spec.uids[scope]
            require(u.startswith(su + "-"), "{} has uid {} but its spec {}", x.name, u, su)
            keys.add(u[len(su) + 1:])
        for i in m.process.ingredients:
            amounts(i)
    require(run.process.source.performed_by in (
        "gwash", "jadams", "thomasj", "jmadison", "jmonroe"), "the cook is {}", run.process.source)
    # measurements
    # (several kinds of sugar are used; the code analyses the first it meets)
    found = sorted((x.name, x.spec.name, m.spec.name if not x.name.startswith("Sugar")
                    else m.spec.name.split()[-1]) for m in runs for x in m.measurements)
    require(found == [
        ("Baking doneness", "Doneness", "Baked Cake"),
        ("Final Appearance", "Appearance", "Cake"), ("Final Taste", "Taste", "Cake"),
        ("Flour nutritional analysis", "Nutritional analysis", "Flour"),
        ("Frosting Sweetness", "Sweetness", "Frosting"), ("Frosting Taste", "Taste", "Frosting"),
        ("Salt elemental analysis", "Elemental analysis", "Salt"),
        ("Sugar elemental analysis", "Elemental analysis", "Sugar")],
        "the measurements are {}", found)
    for m in runs:
        for x in m.measurements:
            require(x.spec.uids[scope] == x.spec.name.lower(), "measurement spec {} has uid {}",
                    x.spec.name, dict(x.spec.uids))
            head = "{}--{}-".format(x.spec.name.lower(), m.spec.uids[scope])
            require(x.uids[scope].startswith(head), "measurement {} has uid {}", x.name,
                    dict(x.uids))
            keys.add(x.uids[scope][len(head):])
            require([f for f in x.file_links] == ([pic] if x.name == "Baking doneness" and pic
                                                  else []), "files of {}", x.name)
            require(len(x.properties) > 0, "measurement {} has no properties", x.name)
    require(len(keys) == 1 and all(keys), "the runs of one cake carry the keys {}", sorted(keys))
    return p


def amounts(i):
    s = i.spec
    got = {f: getattr(i, f) for f in ("absolute_quantity", "volume_fraction", "mass_fraction",
                                      "number_fraction")}
    fuzz = []
    for f, v in got.items():
        q = getattr(s, f)
        if q is None:
            require(v is None, "{} of {} is {} but its spec has none", f, i.name, v)
            continue
        n = q.nominal
        require(v is not None and v.units == q.units, "{} of {} is {}, spec {}", f, i.name, v, q)
        if f == "mass_fraction":
            require(type(v) is UniformReal, "{} of {} is {}", f, i.name, v)
            mid = (v.lower_bound + v.upper_bound) / 2
            require(close(v.upper_bound - v.lower_bound, 0.1 * n), "{} of {} is {}", f, i.name, v)
        else:
            require(type(v) is NormalReal, "{} of {} is {}", f, i.name, v)
            mid = v.mean
            require(close(v.std, 0.005 if f == "volume_fraction" else 0.05 * n),
                    "{} of {} is {}", f, i.name, v)
        if n == 0 and f != "volume_fraction":
            require(mid == 0, "{} of {} is {}", f, i.name, v)
            continue
        fuzz.append((mid - n) * 100 + 0.5 if f == "volume_fraction" else mid / n)
    for x in fuzz:
        require(0.949 <= x <= 1.051, "amount of {} is {} times the recipe's", i.name, x)


# ---------------------------------------------------------------- Strehlow & Cook
def clean(formula):
    """Drop counts of exactly 1."""
    out, i = "", 0
    while i < len(formula):
        j = i
        while j < len(formula) and formula[j].isalpha():
            j += 1
        k = j
        while k < len(formula) and not formula[k].isalpha():
            k += 1
        n = formula[j:k]
        out += formula[i:j] + ("" if n == "1" else n)
        i = k
    return out


def latex(formula):
    out, num = "", ""
    for c in formula + "\0":
        if num and not (c.isdigit() or c == "."):
            out, num = out + "$_{" + num + "}$", ""
        if c.isdigit() or c == ".":
            num += c
        elif c != "\0":
            out += c
    return out


def sac_value(attr):
    s = attr["scalars"][0]
    if attr["name"] not in SAC_REAL:
        return "cat", s["value"]
    if "uncertainty" not in s:
        return "nom", float(s["value"]), attr["units"]
    if attr["units"] == "eV":
        return "norm", float(s["value"]) * EV_IN_AJ, float(s["uncertainty"]) * EV_IN_AJ, "aJ"
    return "norm", float(s["value"]), float(s["uncertainty"]), attr["units"]


def same_value(want, v, what):
    if want[0] == "cat":
        ok = type(v) is NominalCategorical and v.category == want[1]
    elif want[0] == "nom":
        ok = type(v) is NominalReal and v.nominal == want[1] and v.units == parse_units(want[2])
    else:
        ok = (type(v) is NormalReal and close(v.mean, want[1]) and close(v.std, want[2])
              and v.units == parse_units(want[3]))
    require(ok, "{} is {} instead of {}", what, v, want)


def sac(recipe, case):
    table = recipe["sac"]
    if isinstance(table, str):
        table = ds.import_table() if table == "small" else ds.import_table(ds.FULL_TABLE)
        require(len(table) > 100, "the table has {} rows", len(table))
    kw = {} if recipe["tscope"] is None else {"template_scope": recipe["tscope"]}
    with validation_level(2):
        runs = ds.make_strehlow_objects(table, **kw)
    require(len(runs) == len(table), "{} rows gave {} runs", len(table), len(runs))
    formulas = [clean(r["chemicalFormula"]) for r in table]
    if len(set(formulas)) < len(formulas):
        case.interesting()
    for i, (row, run) in enumerate(zip(table, runs)):
        f = formulas[i]
        require(type(run) is MaterialRun and run.name == run.spec.name == latex(f),
                "row {} gave {} of {}", f, run.name, run.spec.name)
        for j in range(i):
            require((runs[j].spec is run.spec) == (formulas[j] == f),
                    "rows {} and {} share a spec or should", formulas[j], f)
            require(runs[j] is not run and runs[j].process is not run.process,
                    "two rows share a run")
        require(run.process.spec is run.spec.process and run.process.output_material is run,
                "the preparation of {} is not its spec's", f)
        require(len(run.spec.properties) == 1
                and run.spec.properties[0].value.formula == f
                and run.spec.properties[0].template is run.spec.template.properties[0][0],
                "spec of {} has properties {}", f, run.spec.properties)
        require(len(run.measurements) == 1, "row {} has {} measurements", f,
                len(run.measurements))
        msr = run.measurements[0]
        require(msr.spec is runs[0].measurements[0].spec, "measurement specs differ")
        scope = recipe["tscope"] or ds.DEMO_TEMPLATE_SCOPE
        for t in (run.spec.template, msr.spec.template):
            require(dict(t.uids) == {scope: t.name}, "template {} has uids {}", t.name,
                    dict(t.uids))
        wanted = {"p": [], "c": []}
        seen = set()
        for prop in row["properties"]:
            for attr in [prop] + prop.get("conditions", []):
                if attr["name"] in seen:
                    case.interesting()
                    continue
                seen.add(attr["name"])
                name = attr["name"]
                if name in SAC_SPLIT and attr["scalars"][0]["value"] not in SAC_SPLIT[name][0]:
                    name = SAC_SPLIT[name][1]
                wanted["c" if name in SAC_CONDS else "p"].append((name, attr, prop))
        for got, want in ((msr.properties, wanted["p"]), (msr.conditions, wanted["c"])):
            require([a.name for a in got] == [x[0] for x in want],
                    "row {} has {} instead of {}", f, [a.name for a in got], [x[0] for x in want])
            for a, (name, attr, prop) in zip(got, want):
                same_value(sac_value(attr), a.value, name)
                require(a.origin is {"EXPERIMENTAL": Origin.MEASURED,
                                     "COMPUTATIONAL": Origin.COMPUTED}.get(
                                         prop.get("dataType"), Origin.UNKNOWN),
                        "origin of {} is {}", name, a.origin)
                require(a.notes == "Method: " + (prop["method"]["name"] if "method" in prop
                                                 else "unreported"), "notes of {}: {}", name,
                        a.notes)
                require(a.template.name == name, "{} has template {}", name, a.template.name)
        require(not msr.parameters, "parameters were invented")
    tables(runs, case)


def tables(runs, case):
    made = ds.make_strehlow_table(runs)
    names = [h["name"] for h in made["headers"]]
    require(names == [["Chemical", x] for x in ["Display name", "Formula"] + SAC_TERMS],
            "the headers are {}", names)
    require(len(made["content"]) == len(runs), "{} rows for {} runs", len(made["content"]),
            len(runs))
    for run, row in zip(runs, made["content"]):
        attrs = {}
        for a in list(run.measurements[0].properties) + list(run.measurements[0].conditions):
            attrs.setdefault(a.name, a.value)
        want = [run.spec.name, run.spec.properties[0].value] + [attrs.get(t) for t in SAC_TERMS]
        require(len(row) == len(want) and all(
            a is b or isinstance(b, str) and a == b for a, b in zip(row, want)),
            "row of {} is {}", run.name, row)
    shown = ds.make_display_table(made)
    require(len(shown) == len(runs) + 1, "{} lines shown for {} runs", len(shown), len(runs))
    head = ["Chemical~Display name~Label", "Chemical~Formula~Formula"]
    for h in made["headers"][2:]:
        b = h["bounds"]
        kind = "Category" if isinstance(b, CategoricalBounds) else "Formula" if isinstance(
            b, CompositionBounds) else "Mean({})".format(b.default_units)
        head.append("~".join(h["name"] + [kind]))
        if h["name"][-1] == "Band gap":
            head.append("~".join(h["name"] + ["Std Deviation({})".format(b.default_units)]))
    require(shown[0] == head, "the header line is {}", shown[0])
    for line, row in zip(shown[1:], made["content"]):
        want = []
        for k, x in enumerate(row):
            want.append("" if x is None else x if isinstance(x, str) else x.formula if isinstance(
                x, EmpiricalFormula) else x.category if isinstance(x, NominalCategorical)
                else x.nominal if isinstance(x, NominalReal) else x.mean)
            if k == 2:
                want.append(x.std if isinstance(x, NormalReal) else "")
        require(line == want, "line {} instead of {}", line, want)


# ---------------------------------------------------------------- ingested records
def parsed(v):
    if isinstance(v, (int, float)):
        return NominalReal, (v,), ""
    toks = v.split()
    if len(toks) > 1:
        unit = "" if toks[-1] == "nounit" else toks[-1]
        if toks[1] in ("+-", "+/-"):
            return NormalReal, (float(toks[0]), float(toks[2])), unit
        return NominalReal, (float(toks[0]),), unit
    try:
        return NominalReal, (float(v),), ""
    except ValueError:
        return DiscreteCategorical, ({v: 1.0},), None


def ingest(recipe, case):
    import contextlib
    import io
    spec = MaterialSpec("spec") if recipe["spec"] else None
    proc = ProcessRun("proc") if recipe["proc"] else None
    recs = recipe["more"]
    with validation_level(0), contextlib.redirect_stdout(io.StringIO()):
        if recs is not None:
            many = dm.ingest_material_run(recs, material_spec=spec)
            require(isinstance(many, list) and len(many) == len(recs), "{} records gave {}",
                    len(recs), many)
            for r, m in zip(recs, many):
                one_record(r, m, spec, None)
        run = dm.ingest_material_run(recipe["rec"], material_spec=spec, process_run=proc)
    one_record(recipe["rec"], run, spec, proc)
    if recipe["rec"].get("experiments"):
        case.interesting()


def tags_of(rec):
    t = rec.get("tags") or []
    return [t] if isinstance(t, str) else t


def one_record(rec, m, spec, proc):
    require(type(m) is MaterialRun and m.spec is spec and m.process is proc,
            "the material has spec {} and process {}", m.spec, m.process)
    require(proc is None or proc.output_material is m, "the process makes another material")
    sid = rec.get("sample_id")
    require(dict(m.uids) == ({"given_sample_id": sid} if sid else {}), "uids are {}",
            dict(m.uids))
    require(m.tags == tags_of(rec), "tags are {}", m.tags)
    exps = rec.get("experiments", [])
    require(len(m.measurements) == len(exps), "{} experiments gave {} measurements", len(exps),
            len(m.measurements))
    for e, x in zip(exps, m.measurements):
        require(x.material is m, "a measurement is attached elsewhere")
        sid = e.get("scan_id")
        require(dict(x.uids) == ({"given_scan_id": sid} if sid else {}), "uids are {}",
                dict(x.uids))
        require(x.tags == tags_of(e), "tags are {}", x.tags)
        for got, known in ((x.properties, dm.known_properties),
                           (x.conditions, dm.known_conditions),
                           (x.parameters, dm.known_parameters)):
            require(sorted(a.name for a in got) == sorted(k for k in known if k in e),
                    "{} became {}", sorted(e), [a.name for a in got])
            for a in got:
                require(a.template is known[a.name], "{} has another template", a.name)
                cls, nums, unit = parsed(e[a.name])
                v = a.value
                have = (v.nominal,) if cls is NominalReal and type(v) is cls else (
                    v.mean, v.std) if cls is NormalReal and type(v) is cls else (
                    v.probabilities,) if type(v) is cls else None
                require(have == nums, "{} was read as {}", e[a.name], v)
                require(unit is None or v.units == parse_units(unit), "{} was read as {}",
                        e[a.name], v)


def frame(recipe, case):
    import pandas
    m = MaterialRun("m")
    df = pandas.DataFrame(recipe["frame"], columns=recipe["cols"])
    with validation_level(1):
        res = dt.ingest_table(m, df)
    require(res is m, "another material was returned")
    require(len(m.measurements) == len(recipe["frame"]), "{} rows gave {} measurements",
            len(recipe["frame"]), len(m.measurements))
    if recipe["frame"]:
        case.interesting()
    for row, x in zip(recipe["frame"], m.measurements):
        row = dict(zip(recipe["cols"], row))
        for got, name in ((x.properties, "vapor pressure"), (x.conditions, "temperature")):
            require([(a.name, a.value.nominal, a.value.units) for a in got] ==
                    ([(name, row[name], parse_units(""))] if name in row else []),
                    "{} became {}", row, got)


def flex(recipe, case):
    state = random.getstate()
    try:
        random.seed(recipe["seed"])
        many = de.make_demo_measurements(recipe["flex"], extra_tags=recipe["tags"])
    finally:
        random.setstate(state)
    require(len(many) == recipe["flex"], "{} asked, {} made", recipe["flex"], len(many))
    ids = [x.uids["my_id"] for x in many]
    require(len(set(ids)) == len(ids) and all(
        len(i) == 8 and set(i) <= set(string.ascii_lowercase) for i in ids), "ids are {}", ids)
    many.append(de.make_flexural_test_measurement(recipe["id"], recipe["d"], recipe["tags"]))
    require(dict(many[-1].uids) == {"my_id": recipe["id"]}, "uids are {}", dict(many[-1].uids))
    case.interesting()
    for x in many:
        require(x.tags == ["3_pt_bend", "mechanical", "flex"] + recipe["tags"], "tags are {}",
                x.tags)
        p = {a.name: a.value for a in x.properties}
        require(list(p) == ["flexural stress", "flexural strain", "flexural modulus",
                            "deflection"], "properties are {}", list(p))
        require(all(a.origin is Origin.MEASURED for a in x.properties), "origins")
        d = p["deflection"].nominal
        stress = 3 * 100.0 * 64.0 / (2 * 10.0 * 4.0 ** 2)     # 3 F L / 2 b d^2
        strain = 6 * d * 4.0 / 64.0 ** 2                      # 6 D d / L^2
        for name, want, unit in (("flexural stress", stress, "MPa"), ("flexural strain", strain,
                                 ""), ("flexural modulus", stress / strain, "MPa")):
            v = p[name]
            require(close(v.mean, want) and close(v.std, 0.01 * want)
                    and v.units == parse_units(unit), "{} at {} mm is {}", name, d, v)
        require(p["deflection"].units == parse_units("mm"), "deflection is {}", p["deflection"])
    require(p["deflection"].nominal == recipe["d"], "deflection is {}", p["deflection"])


def mini(recipe, case):
    table = recipe["mini"]
    got = ds.minimal_subset(table)
    want, seen = [], set()
    for row in table:
        shape = tuple(type(x) for x in row)
        if shape not in seen:
            seen.add(shape)
            want.append(row)
    require(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
            "the minimal subset of {} is {}", table, got)
