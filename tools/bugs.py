"""Planted bugs: edits to the repository's own (original) lines, each with a demonstration."""
BUGS = []


def B(id, prop, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


G = "gemd/"

# ---------------------------------------------------------------- C01
B("C01-substitute-first-only", "C01",
  [(G + "json/gemd_json.py", "            for (scope, uid) in obj.uids.items():\n                object_index[(scope.lower(), uid)] = obj",
    "            for (scope, uid) in obj.uids.items():\n                object_index.setdefault((scope.lower(), uid), obj)\n                break")],
  "an entity with several uids, referred to elsewhere by a link with a later scope",
  "links by another scope of an object present in the document stay links",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  from gemd.entity.link_by_uid import LinkByUID
  import gemd.json as gj
  p = ProcessRun("p", uids={"a": "1", "b": "2"})
  m = MaterialRun("m", process=LinkByUID("b", "2"), uids={"a": "3"})
  got = gj.loads(gj.dumps([p, m]))
  assert got[1].process is got[0], got[1].process
  """)
# ---------------------------------------------------------------- C02
B("C02-id-only", "C02",
  [(G + "util/impl.py", "        if not any(uid in known_uids for uid in uids):", "        if not any(uid[1] in known_uids for uid in uids):"),
   (G + "util/impl.py", "        for uid in uids:\n            known_uids.add(uid)", "        for uid in uids:\n            known_uids.add(uid[1])")],
  "two entities with the same id under different scopes",
  "flatten drops one of two entities whose ids coincide in different scopes",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  from gemd.util import flatten
  p = ProcessRun("p", uids={"proc": "1"})
  m = MaterialRun("m", process=p, uids={"mat": "1"})
  assert len(flatten(m)) == 2
  """)
B("C02-rank", "C02",
  [(G + "util/impl.py", "    if typ in [IngredientSpec.typ, MaterialRun.typ]:\n        return 4\n    if typ in [IngredientRun.typ, MeasurementRun.typ]:\n        return 5",
    "    if typ in [IngredientSpec.typ, MaterialRun.typ, MeasurementRun.typ]:\n        return 4\n    if typ in [IngredientRun.typ]:\n        return 5")],
  "a measurement found before its material in the traversal",
  "a measurement run can be listed before the material it measures",
  """
  from gemd.entity.object import MaterialRun, MeasurementRun
  from gemd.util import flatten
  m = MaterialRun("m")
  q = MeasurementRun("q", material=m)
  names = [x.name for x in flatten([q, m], "s")]
  assert names.index("m") < names.index("q"), names
  """)
B("C02-lower-scope", "C02",
  [(G + "util/impl.py", "        uids = list(base_obj.uids.items())\n        if len(uids) == 0:",
    "        uids = sorted(base_obj.uids.items())[:1]\n        if len(uids) == 0:")],
  "the same object given twice, as separate copies that share only one of their uids",
  "flatten returns an object twice when its copies list different uids first",
  """
  from gemd.entity.object import MaterialRun
  from gemd.util import flatten
  a = MaterialRun("m", uids={"a": "1", "b": "2"})
  b = MaterialRun("m", uids={"b": "2"})
  assert len(flatten([a, b])) == 1
  """)
# ---------------------------------------------------------------- C03
B("C03-index-first", "C03",
  [(G + "util/impl.py", "        return ((LinkByUID(scope=scope, id=_obj.uids[scope]), _obj) for scope in _obj.uids)",
    "        return ((link, _obj) for link in {_obj.to_link(x) for x in (list(_obj.uids)[:1] + list(_obj.uids)[-1:])})")],
  "an entity with three or more uids",
  "the index leaves out the middle uids",
  """
  from gemd.entity.object import MaterialRun
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.util import make_index
  m = MaterialRun("m", uids={"a": "1", "b": "2", "c": "3"})
  assert len(make_index([m])) == 3
  """)
B("C03-fallback-inplace", "C03",
  [(G + "util/impl.py", "                  sub=lambda o: o.to_link(scope=scope, allow_fallback=allow_fallback),",
    "                  sub=lambda o: o.to_link(scope=scope, allow_fallback=allow_fallback or inplace),")],
  "in-place replacement without fallback where an entity lacks the preferred scope",
  "the in-place form falls back to another scope although that was not allowed",
  """
  from gemd.entity.object import MaterialRun
  from gemd.util import substitute_links
  box = [MaterialRun("m", uids={"a": "1"})]
  try:
      substitute_links(box, "other", allow_fallback=False, inplace=True)
  except ValueError:
      pass
  else:
      raise AssertionError(box)
  """)
# ---------------------------------------------------------------- C04
B("C04-append-if-absent", "C04",
  [(G + "entity/object/measurement_run.py", "                value.measurements.append(self)", "                if self not in value.measurements:\n                    value.measurements.append(self)")],
  "two equal measurement runs attached to one material",
  "the second of two equal measurements is not listed by its material",
  """
  from gemd.entity.object import MaterialRun, MeasurementRun
  m = MaterialRun("m")
  a, b = MeasurementRun("x", material=m), MeasurementRun("x", material=m)
  assert [id(x) for x in m.measurements] == [id(a), id(b)]
  """)
B("C04-displaced-output", "C04",
  [(G + "entity/object/material_run.py", "        elif isinstance(process, ProcessRun):\n            process._output_material = self",
    "        elif isinstance(process, ProcessRun):\n            if process._output_material is None:\n                process._output_material = self")],
  "a process that already has an output material is given to another material",
  "the process keeps listing the displaced material although another was assigned",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  p = ProcessRun("p")
  a, b = MaterialRun("a", process=p), MaterialRun("b")
  b.process = p
  a.process = None
  assert p.output_material is b, p.output_material
  """)
B("C04-link-process", "C04",
  [(G + "entity/object/material_run.py", "        elif isinstance(process, LinkByUID):\n            self._process = process\n        elif",
    "        elif isinstance(process, LinkByUID):\n            if self._process != process:\n                self._process = process\n        elif")],
  "a material's process is replaced by a link that denotes that very process",
  "the process no longer lists its output while the material still points to it",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  p = ProcessRun("p", uids={"a": "1"})
  m = MaterialRun("m", process=p)
  m.process = p.to_link()
  assert m.process is not p or p.output_material is m
  assert m.process is not p
  """)
# ---------------------------------------------------------------- C05
B("C05-union-elif", "C05",
  [(G + "entity/bounds/real_bounds.py", "            if bnd_hi > upper:\n                upper = bnd_hi", "            elif bnd_hi > upper:\n                upper = bnd_hi")],
  "union with bounds that exceed on both sides",
  "the union does not contain an operand that is wider on both ends",
  """
  from gemd.entity.bounds import RealBounds
  a, b = RealBounds(0, 1, "m"), RealBounds(-1, 2, "m")
  assert a.union(b).contains(b)
  """)
B("C05-contains-units", "C05",
  [(G + "entity/bounds/real_bounds.py", "        lower, upper = self._convert_bounds(bounds.default_units)\n        if lower is None:\n            return False",
    "        lower, upper = self._convert_bounds(bounds.default_units)\n        if not lower and not upper:\n            return False")],
  "bounds that are exactly [0, 0]",
  "the degenerate bounds [0, 0] contain nothing, not even themselves",
  """
  from gemd.entity.bounds import RealBounds
  a = RealBounds(0, 0, "m")
  assert a.contains(RealBounds(0, 0, "cm"))
  """)
B("C05-int-any", "C05",
  [(G + "entity/bounds/integer_bounds.py", "            if bounds.lower_bound < lower:\n                lower = bounds.lower_bound\n            if bounds.upper_bound > upper:\n                upper = bounds.upper_bound",
    "            if bounds.lower_bound < self.lower_bound:\n                lower = bounds.lower_bound\n            if bounds.upper_bound > self.upper_bound:\n                upper = bounds.upper_bound")],
  "union of three or more operands, an earlier one lower (or higher) than a later one",
  "a later operand overwrites a wider earlier one, so the union does not contain all operands",
  """
  from gemd.entity.bounds import IntegerBounds
  a, b, c = IntegerBounds(0, 1), IntegerBounds(-5, 1), IntegerBounds(-2, 1)
  assert a.union(b, c).contains(b)
  """)
# ---------------------------------------------------------------- C06
B("C06-nested-level", "C06",
  [(G + "entity/bounds_validation.py", "    global BOUNDS_VALIDATION\n    BOUNDS_VALIDATION = WarningLevel(level)", "    global BOUNDS_VALIDATION, _DEFAULT\n    BOUNDS_VALIDATION = _DEFAULT = WarningLevel(level)"),
   (G + "entity/bounds_validation.py", "BOUNDS_VALIDATION = WarningLevel.WARNING\n", "BOUNDS_VALIDATION = WarningLevel.WARNING\n_DEFAULT = BOUNDS_VALIDATION\n"),
   (G + "entity/bounds_validation.py", "        BOUNDS_VALIDATION = old_value", "        BOUNDS_VALIDATION = _DEFAULT")],
  "nested validation blocks",
  "leaving an inner block resets the level to the global default instead of the enclosing block's",
  """
  from gemd.entity.bounds_validation import validation_level, get_validation_level, WarningLevel
  with validation_level(WarningLevel.FATAL):
      with validation_level(WarningLevel.IGNORE):
          pass
      assert get_validation_level() == WarningLevel.FATAL
  """)
# ---------------------------------------------------------------- C07
B("C07-name-after-template", "C07",
  [(G + "entity/template/has_parameter_templates.py", "        if bnd is not None:\n            return bnd.contains(parameter.value)\n        elif", "        if bnd is not None and parameter.template is not None:\n            return bnd.contains(parameter.value)\n        elif")],
  "a parameter without template, matched by name to an entry with restricted bounds",
  "restricted bounds are ignored for parameters matched by name",
  """
  from gemd.entity.object import ProcessSpec
  from gemd.entity.template import ProcessTemplate, ParameterTemplate
  from gemd.entity.attribute import Parameter
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = ParameterTemplate("t", bounds=IntegerBounds(0, 9))
  o = ProcessSpec("p", template=ProcessTemplate("pt", parameters=[(t, IntegerBounds(0, 2))]))
  with validation_level(WarningLevel.FATAL):
      try:
          o.parameters.append(Parameter("t", value=NominalInteger(5)))
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C08-percent", "C08",
  [(G + "entity/object/has_quantities.py", "            dimensionless = RealBounds(\n                lower_bound=0.0,\n                upper_bound=float_info.max,", "            dimensionless = RealBounds(\n                lower_bound=0.0,\n                upper_bound=float_info.max / 1e3,")],
  "an absolute quantity that is dimensionless and larger than 1.8e305",
  "huge dimensionless absolute quantities are accepted",
  """
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  with validation_level(WarningLevel.FATAL):
      try:
          IngredientRun(absolute_quantity=NominalReal(1e307, ""))
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C08-unit-string", "C08",
  [(G + "entity/object/has_quantities.py", "                default_units=''\n            )\n            level =", "                default_units='' if absolute_quantity.units in (\"\", \"dimensionless\") else 'kelvin'\n            )\n            level =")],
  "a dimensionless unit other than plain dimensionless, such as percent or m/m or m/cm",
  "absolute quantities in percent are accepted",
  """
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  with validation_level(WarningLevel.FATAL):
      try:
          IngredientRun(absolute_quantity=NominalReal(3, "percent"))
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C08-number-recheck", "C08",
  [(G + "entity/object/has_quantities.py", "            self._check(number_fraction)\n", "            if self._number_fraction is None:\n                self._check(number_fraction)\n")],
  "a number fraction that is set a second time",
  "number fractions are only checked the first time",
  """
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  i = IngredientRun(number_fraction=NominalReal(0.5, ""))
  with validation_level(WarningLevel.FATAL):
      try:
          i.number_fraction = NominalReal(3, "")
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
# ---------------------------------------------------------------- C09
# ---------------------------------------------------------------- C10
B("C10-offset", "C10",
  [(G + "units/impl.py", "    offset = _REGISTRY.Quantity(0, units).to(_REGISTRY.Quantity(0, base_unit)).magnitude\n", "    offset = _REGISTRY.Quantity(0, units).to(_REGISTRY.Quantity(0, base_unit)).magnitude \\\n        if ratio == 1 else 0.\n")],
  "the base unit of a temperature with a factor other than one (degF)",
  "the reported offset is wrong for Fahrenheit",
  """
  from gemd.units import get_base_units
  u, f, o = get_base_units("degF")
  assert abs(o - 255.372222) < 1e-3, o
  """)
B("C10-root-compare", "C10",
  [(G + "units/impl.py", "        if root1 != root2:", "        if root1 != root2 and root1.dimensionality == root2.dimensionality \\\n                and not root1.dimensionless:")],
  "conversion between count, angle or information units",
  "radians convert to plain dimensionless numbers",
  """
  from gemd.units import convert_units, IncompatibleUnitsError
  try:
      convert_units(1., "radian", "")
  except IncompatibleUnitsError:
      pass
  else:
      raise AssertionError
  """)
# ---------------------------------------------------------------- C11
B("C11-chdir", "C11",
  [(G + "units/impl.py", "    finally:\n        os.chdir(current_dir)", "    except OSError:\n        os.chdir(current_dir)\n        raise\n    os.chdir(current_dir)")],
  "switching to a file whose contents cannot be read as definitions",
  "a failed switch leaves the process in another working directory",
  """
  import os, tempfile
  from gemd.units import change_definitions_file
  here = os.getcwd()
  with tempfile.TemporaryDirectory() as d:
      p = os.path.join(d, "bad.txt")
      open(p, "w").write("meter = = 3\\n@@@\\n")
      try:
          change_definitions_file(p)
      except Exception:
          pass
      now = os.getcwd()
      os.chdir(here)
      assert now == here, now
  """)
B("C11-drop-first", "C11",
  [(G + "units/impl.py", "        _REGISTRY = _ScaleFactorRegistry(filename=updated,", "        _REGISTRY = None\n        _REGISTRY = _ScaleFactorRegistry(filename=updated,")],
  "a switch to a broken definitions file, followed by any use of units",
  "a failed switch leaves no definitions in force",
  """
  import os, tempfile
  from gemd.units import change_definitions_file, parse_units
  with tempfile.TemporaryDirectory() as d:
      p = os.path.join(d, "bad.txt")
      open(p, "w").write("meter = = 3\\n@@@\\n")
      try:
          change_definitions_file(p)
      except Exception:
          pass
      assert parse_units("m") == "meter"
  """)
# ---------------------------------------------------------------- C12
B("C12-cache-key", "C12",
  [(G + "entity/base_entity.py", "        if this_uids != that_uids:", "        if this_uids and that_uids and this_uids != that_uids:")],
  "comparison of an entity that has uids with one that has none",
  "entities that differ in their uids are equal when one has none",
  """
  from gemd.entity.object import MaterialRun
  assert MaterialRun("m", uids={"a": "1"}) != MaterialRun("m")
  """)
B("C12-tuple-case", "C12",
  [(G + "entity/base_entity.py", "            return len(other) == 2 and other[0] in self.uids and self.uids[other[0]] == other[1]", "            return len(other) == 2 and other in self.uids.items()")],
  "comparison with a (scope, id) pair whose scope is in another letter case",
  "an entity does not equal its uid pair in another letter case",
  """
  from gemd.entity.object import MaterialRun
  assert MaterialRun("m", uids={"Lab": "1"}) == ("lab", "1")
  """)
B("C12-none-pass", "C12",
  [(G + "entity/base_entity.py", "                if BaseEntity._cached_equals(this_value, that_value, cache=cache) is False:", "                if key != 'spec' and \\\n                        BaseEntity._cached_equals(this_value, that_value, cache=cache) is False:")],
  "runs whose specs differ",
  "runs with different specs are equal",
  """
  from gemd.entity.object import MaterialRun, MaterialSpec
  assert MaterialRun("m", spec=MaterialSpec("a")) != MaterialRun("m", spec=MaterialSpec("b"))
  """)
# ---------------------------------------------------------------- C13
B("C13-popitem", "C13",
  [(G + "entity/case_insensitive_dict.py", "        result = super().popitem()\n        del self.lowercase_dict[result[0].lower()]", "        result = super().popitem()\n        self.lowercase_dict.pop(result[0], None)")],
  "popitem on a map whose last key has capitals",
  "a removed key is still found by membership",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  d = CaseInsensitiveDict({"Ab": 1})
  d.popitem()
  assert "ab" not in d
  d["aB"] = 2
  """)
B("C13-get", "C13",
  [(G + "entity/case_insensitive_dict.py", "            val = super().pop(self.lowercase_dict.get(key.lower()), default)", "            val = super().pop(key, default)")],
  "pop with a default, given the key in another letter case",
  "pop with a default ignores keys in another letter case",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  d = CaseInsensitiveDict({"Ab": 1})
  assert d.pop("ab", 7) == 1
  """)
B("C13-del", "C13",
  [(G + "entity/case_insensitive_dict.py", "        super().__setitem__(key, value)", "        super().__setitem__(self.lowercase_dict[key.lower()] if value is not None else key.lower(), value)")],
  "storing None under a key with capitals",
  "a key with the value None is stored in lower case, so that it cannot be looked up",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  d = CaseInsensitiveDict()
  d["Ab"] = None
  assert list(d) == ["Ab"] and d["ab"] is None
  """)
# ---------------------------------------------------------------- C14
B("C14-insert-hook", "C14",
  [(G + "entity/valid_list.py", "            if result is not None:\n                value = result\n        super().insert(i, value)", "            if result:\n                value = result\n        super().insert(i, value)")],
  "insert with a hook whose replacement is falsy (0, '', empty)",
  "insert stores the original instead of a falsy replacement",
  """
  from gemd.entity.valid_list import ValidList
  v = ValidList([], str, lambda x: x.strip())
  v.insert(0, "  ")
  assert v == [""], v
  """)
B("C14-extend-partial", "C14",
  [(G + "entity/valid_list.py", "                result = self._trigger(value)\n                if result is not None:\n                    cache[i] = result\n\n        super().extend(cache)", "                result = self._trigger(value)\n                if result is not None:\n                    cache[i] = result\n                super().append(cache[i])\n        else:\n            super().extend(cache)")],
  "extend with a hook that refuses a later item",
  "items before the refused one are kept in the list",
  """
  from gemd.entity.valid_list import ValidList
  def hook(x):
      if x < 0:
          raise ValueError
  v = ValidList([], int, hook)
  try:
      v.extend([1, -1])
  except ValueError:
      pass
  assert v == [], v
  """)
# ---------------------------------------------------------------- C15
B("C15-strip", "C15",
  [(G + "enumeration/base_enumeration.py", "str.lower(val).strip() in x.matches", "str.lower(val).strip(' ') in x.matches")],
  "a spelling with surrounding tabs or newlines",
  "spellings with surrounding whitespace other than blanks are refused",
  """
  from gemd.enumeration import Origin
  assert Origin.from_str("\\tmeasured\\n") is Origin.MEASURED
  """)
B("C15-synonym-case", "C15",
  [(G + "enumeration/base_enumeration.py", ".union(x.lower() for x in obj.synonyms)", ".union(obj.synonyms)")],
  "a synonym declared with capitals",
  "synonyms with capitals are not recognised",
  """
  from gemd.enumeration.base_enumeration import BaseEnumeration
  class F(BaseEnumeration):
      A = "Avocado", "Alligator Pear"
  assert F.from_str("alligator pear") is F.A
  """)
B("C15-prefix", "C15",
  [(G + "enumeration/base_enumeration.py", "            result = next((x for x in cls if str.lower(val).strip() in x.matches), None)", "            result = next((x for x in cls if str.lower(val).strip() in x.matches\n                           or str.lower(val).strip().replace('-', '_') == x.name.lower()), None)")],
  "a string that spells a member's identifier but neither its value nor a synonym",
  "identifiers that are not values are accepted",
  """
  from gemd.enumeration.base_enumeration import BaseEnumeration
  class F(BaseEnumeration):
      GREEN_FRUIT = "Avocado"
  assert F.from_str("green-fruit") is None and F.from_str("green_fruit") is None
  """)
# ---------------------------------------------------------------- C16
B("C16-float-int", "C16",
  [(G + "entity/value/nominal_integer.py", "        self._nominal = int(nominal)", "        self._nominal = float(nominal)")],
  "an integer that a float cannot hold (above 2**53)",
  "big integers lose digits",
  """
  from gemd.entity.value import NominalInteger
  assert NominalInteger(2**60 + 1).nominal == 2**60 + 1
  """)
B("C16-elements", "C16",
  [(G + "entity/value/empirical_formula.py", "re.findall('[A-Z][a-z]*', value)", "re.findall('[A-Z][a-z]?', value)")],
  "a formula with a capital followed by two or more small letters, the first two an element",
  "formulas such as 'Hex' are accepted",
  """
  from gemd.entity.value import EmpiricalFormula
  try:
      EmpiricalFormula("Heo2")
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
B("C16-prob-sum", "C16",
  [(G + "entity/value/discrete_categorical.py", "            self._probabilities = {validate_str(k): v for k, v in probabilities.items()}", "            self._probabilities = probabilities\n            for k in self._probabilities:\n                validate_str(k)")],
  "a refused assignment (a key that is no string), or a later change of the dictionary passed in",
  "an invalid assignment is kept",
  """
  from gemd.entity.value import DiscreteCategorical
  d = DiscreteCategorical({"a": 1.0})
  try:
      d.probabilities = {3: 1.0}
  except TypeError:
      pass
  assert d.probabilities == {"a": 1.0}, d.probabilities
  """)
B("C16-lower-nan", "C16",
  [(G + "entity/bounds/real_bounds.py", "        if self.lower_bound is not None and value < self.lower_bound:", "        if self.lower_bound is not None and float(value) < self.lower_bound - 1e-12:")],
  "an upper bound below the lower one by less than 1e-12",
  "bounds with lower above upper are accepted",
  """
  from gemd.entity.bounds import RealBounds
  try:
      RealBounds(5e-13, 1e-13, "m")
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
# ---------------------------------------------------------------- C17
B("C17-edge-name", "C17",
  [(G + "builders/impl.py", "        name = input_material.name\n", "        name = input_material.spec.name\n")],
  "an edge from a material run whose spec has another name",
  "the ingredient gets the spec's name instead of the material's",
  """
  from gemd.builders import make_node, add_edge
  a, b = make_node("a"), make_node("b")
  a.name = "lot 3"
  assert add_edge(a, b).name == "lot 3"
  """)
B("C17-empty-name", "C17",
  [(G + "builders/impl.py", "    if process_name is None:\n        if process_template is None:", "    if not process_name:\n        if process_template is None:")],
  "an empty process name",
  "a requested empty process name is replaced by the default",
  """
  from gemd.builders import make_node
  assert make_node("a", process_name="").process.name == ""
  """)
B("C17-zero-fraction", "C17",
  [(G + "builders/impl.py", "    if volume_fraction is not None:", "    if volume_fraction:")],
  "a volume fraction of exactly zero",
  "a volume fraction of zero is dropped",
  """
  from gemd.builders import make_node, add_edge
  e = add_edge(make_node("a"), make_node("b"), volume_fraction=0.0)
  assert e.volume_fraction is not None
  """)
# ---------------------------------------------------------------- C18
B("C18-by-name", "C18",
  [(G + "entity/util.py", "        if id(spec) in seen:\n            return seen[id(spec)]", "        hit = next((y for y in seen.values() if y.spec is spec or\n                    isinstance(spec, IngredientSpec) and y.spec == spec), None)\n        if hit is not None:\n            return hit")],
  "two ingredient specs that are equal but distinct",
  "equal ingredient specs share one run",
  """
  from gemd.entity.object import ProcessSpec, IngredientSpec, MaterialSpec
  from gemd.entity.util import make_instance
  p = ProcessSpec("p")
  IngredientSpec("i", process=p), IngredientSpec("i", process=p)
  assert len(make_instance(p).ingredients) == 2
  """)
# ---------------------------------------------------------------- C19
B("C19-keys", "C19",
  [(G + "util/impl.py", "        if cached_isinstance(this, Mapping):\n            queue.extend(this.keys())\n            queue.extend(this.values())\n        elif cached_isinstance(this, DictSerializable):\n            for k, x in this.__dict__.items():", "        if cached_isinstance(this, Mapping):\n            queue.extend(this.values())\n        elif cached_isinstance(this, DictSerializable):\n            for k, x in this.__dict__.items():")],
  "entities used as keys of a dictionary",
  "recursive application misses entities that are dictionary keys",
  """
  from gemd.entity.object import MaterialRun
  from gemd.util import recursive_foreach
  seen = []
  recursive_foreach({MaterialRun("m"): 1}, seen.append)
  assert len(seen) == 1
  """)
B("C19-deps-bases", "C19",
  [(G + "entity/template/has_parameter_templates.py", "        return {attr[0] for attr in self.parameters}", "        return {attr[0] for attr in self.parameters if attr[1] is None\n                or not isinstance(attr[0], LinkByUID)}")],
  "a template entry that is a link and has its own bounds",
  "dependencies leave out links with restricted bounds",
  """
  from gemd.entity.template import ProcessTemplate
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.entity.bounds import IntegerBounds
  l = LinkByUID("a", "1")
  t = ProcessTemplate("t", parameters=[(l, IntegerBounds(0, 1))])
  assert t.all_dependencies() == {l}
  """)
B("C19-flatmap-set", "C19",
  [(G + "util/impl.py", "                if unidirectional and cached_isinstance(this, BaseEntity) and k in this.skip:\n                    continue", "                if unidirectional and k in DictSerializable.class_mapping[this.typ].skip:\n                    continue\n                if cached_isinstance(x, BaseEntity) and x in res:\n                    continue")],
  "an accumulated result that equals an entity not yet visited",
  "an entity equal to one already in the result is not visited",
  """
  from gemd.entity.object import MaterialRun, ProcessRun, IngredientRun
  from gemd.util import recursive_flatmap
  a, b = MaterialRun("m"), MaterialRun("m")
  i, j = IngredientRun(material=a), IngredientRun(material=b)
  got = recursive_flatmap([i, j], lambda x: [x])
  assert len({id(x) for x in got}) == 4
  """)
# ---------------------------------------------------------------- C20
B("C20-mapping-copy", "C20",
  [(G + "entity/dict_serializable.py", "        return cls._class.copy()", "        return cls._class")],
  "a change of the returned mapping, or of a serializer's own class index",
  "changing the mapping that is handed out changes the registry",
  """
  from gemd.entity.dict_serializable import DictSerializable
  DictSerializable.class_mapping.clear()
  assert "material_run" in DictSerializable.class_mapping
  """)
# ---------------------------------------------------------------- C21
B("C21-fallback-case", "C21",
  [(G + "entity/base_entity.py", "        if (scope is None) or (allow_fallback and scope not in self.uids):", "        if (scope is None) or (allow_fallback and scope not in self.uids.keys()):")],
  "a fallback request for a scope the entity has in another letter case, not as its first",
  "the link falls back to another scope although the requested one is present",
  """
  from gemd.entity.object import MaterialRun
  m = MaterialRun("m", uids={"a": "1", "Lab": "2"})
  assert m.to_link("lab", allow_fallback=True).id == "2"
  """)
B("C21-falsy-uid", "C21",
  [(G + "entity/base_entity.py", "        uid = self.uids.get(scope, None)\n        if uid is None:", "        uid = self.uids.get(scope, None)\n        if not uid:")],
  "an id that is the empty string",
  "no link can be made from an entity whose id is empty, although it has that uid",
  """
  from gemd.entity.object import MaterialRun
  assert MaterialRun("m", uids={"a": ""}).to_link("a").id == ""
  """)
# ---------------------------------------------------------------- C22
B("C22-labels-ref", "C22",
  [(G + "entity/object/ingredient_run.py", "            self._labels = validate_list(self.spec.labels, str)", "            self._labels = self.spec.labels")],
  "a spec that is removed from the run and then has its labels changed in place",
  "the kept labels follow later changes of a spec that is no longer attached",
  """
  from gemd.entity.object import IngredientRun, IngredientSpec
  s = IngredientSpec("i", labels=["a"])
  r = IngredientRun(spec=s)
  r.spec = None
  s.labels.append("b")
  assert r.labels == ["a"], r.labels
  """)
B("C22-empty-name", "C22",
  [(G + "entity/object/ingredient_run.py", "        if labels is not None:\n            obj._labels", "        if labels:\n            obj._labels")],
  "an ingredient run that keeps an empty list of labels, written and read",
  "empty kept labels become None in a round trip",
  """
  from gemd.entity.object import IngredientRun, IngredientSpec
  r = IngredientRun(spec=IngredientSpec("i"))
  r.spec = None
  c = IngredientRun.from_dict(r.as_dict())
  assert c.labels == [], c.labels
  """)
# ---------------------------------------------------------------- C23
B("C23-dedup", "C23",
  [(G + "entity/util.py", "        result.append(json_builtin.loads(gemd_json.dumps(copy))[\"context\"][0])", "        found = json_builtin.loads(gemd_json.dumps(copy))[\"context\"][0]\n        if not any(found[\"uids\"].items() & x[\"uids\"].items() and x[\"name\"] == found[\"name\"]\n                   or found[\"uids\"].keys() == x[\"uids\"].keys() == {\"id\"}\n                   and found[\"uids\"][\"id\"].lower() == x[\"uids\"][\"id\"].lower() for x in result):\n            result.append(found)")],
  "two entities whose ids differ only in letter case",
  "one of two entities whose ids differ in letter case is left out",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  from gemd.entity.util import complete_material_history
  m = MaterialRun("m", uids={"id": "ab"}, process=ProcessRun("p", uids={"id": "AB"}))
  assert len(complete_material_history(m)) == 2
  """)

# ================================================================ second round
B("C01-copy-scope", "C01",
  [(G + "json/gemd_json.py", "        return self.loads(self.dumps(obj))", "        return self.loads(GEMDJson().dumps(obj))")],
  "a serializer with its own scope copying an entity without uids",
  "the copy operation does not use the serializer's scope",
  """
  from gemd.json import GEMDJson
  from gemd.entity.object import MaterialRun
  m = MaterialRun("m")
  GEMDJson(scope="mine").copy(m)
  assert list(m.uids) == ["mine"], m.uids
  """)
B("C01-index-order", "C01",
  [(G + "json/gemd_json.py", "            for (scope, uid) in obj.uids.items():\n                object_index[(scope.lower(), uid)] = obj", "            for (scope, uid) in obj.uids.items():\n                object_index[(scope.lower(), uid.lower())] = obj"),
   (G + "json/gemd_json.py", "            if (obj.scope.lower(), obj.id) in object_index:\n                obj = object_index[(obj.scope.lower(), obj.id)]", "            if (obj.scope.lower(), obj.id.lower()) in object_index:\n                obj = object_index[(obj.scope.lower(), obj.id.lower())]")],
  "two entities whose ids in one scope differ only in letter case",
  "references are resolved to the wrong one of two entities",
  """
  import gemd.json as gj
  from gemd.entity.object import MaterialRun, ProcessRun
  a = MaterialRun("a", process=ProcessRun("p", uids={"s": "x"}))
  b = MaterialRun("b", process=ProcessRun("q", uids={"s": "X"}))
  a, b = gj.loads(gj.dumps([a, b]))
  assert (a.process.name, b.process.name) == ("p", "q")
  """)
B("C02-set-scope", "C02",
  [(G + "util/impl.py", "        if len(base_obj.uids) == 0:\n            base_obj.add_uid", "        if len(base_obj.uids) == 0 or scope.upper() == scope != scope.lower() \\\n                and scope not in base_obj.uids:\n            base_obj.add_uid")],
  "a scope written in capitals and entities that have other uids",
  "entities that have uids gain another one",
  """
  from gemd.entity.object import MaterialRun
  from gemd.util import flatten
  m = MaterialRun("m", uids={"a": "1"})
  flatten(m, "ID")
  assert list(m.uids) == ["a"]
  """, also=["C19"])
B("C03-inplace-equal", "C03",
  [(G + "util/impl.py", "            thing[i] = _substitute_inplace(x, sub, applies, visited)", "            new_x = _substitute_inplace(x, sub, applies, visited)\n            if new_x != x or cached_isinstance(x, LinkByUID):\n                thing[i] = new_x")],
  "a list of entities replaced by links in place (an entity equals its own link)",
  "entities in lists are not replaced in place",
  """
  from gemd.entity.object import MaterialRun
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.util import substitute_links
  d = [MaterialRun("m", uids={"a": "1"})]
  substitute_links(d, inplace=True)
  assert type(d[0]) is LinkByUID
  """)
B("C04-same-process", "C04",
  [(G + "entity/object/material_run.py", "        if process is None:\n            self._process = None", "        if process is None or process is self._process:\n            self._process = process")],
  "a displaced material that is assigned again to the process it still points to",
  "reassigning a displaced material does not make it the output again",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  p = ProcessRun("p")
  a, b = MaterialRun("a", process=p), MaterialRun("b", process=p)
  a.process = p
  assert p.output_material is a
  """)
B("C05-zero-probability", "C05",
  [(G + "entity/value/discrete_categorical.py", "        return CategoricalBounds(categories=set(self.probabilities))", "        return CategoricalBounds(categories={k for k, v in self.probabilities.items() if v > 0})")],
  "a discrete value that lists a category with probability zero",
  "categories of probability zero are ignored by containment and union",
  """
  from gemd.entity.bounds import CategoricalBounds
  from gemd.entity.value import DiscreteCategorical
  assert not CategoricalBounds({"a"}).contains(DiscreteCategorical({"a": 1.0, "b": 0.0}))
  """)
B("C05-int-float", "C05",
  [(G + "entity/bounds/integer_bounds.py", "        return bounds.lower_bound >= self.lower_bound and bounds.upper_bound <= self.upper_bound", "        return bounds.lower_bound - self.lower_bound >= 0. \\\n            and bounds.upper_bound / 1 <= self.upper_bound / 1")],
  "integer bounds beyond 2**53 that differ by one",
  "large integers just outside the bounds are contained",
  """
  from gemd.entity.bounds import IntegerBounds
  assert not IntegerBounds(0, 2**60).contains(IntegerBounds(0, 2**60 + 1))
  """)
B("C05-update-units", "C05",
  [(G + "entity/bounds/real_bounds.py", "        result = self.union(*others)\n", "        result = others[0].union(self, *others[1:]) \\\n            if others and isinstance(others[0], RealBounds) else self.union(*others)\n")],
  "updating with bounds in other units",
  "updating takes over the units of the operand",
  """
  from gemd.entity.bounds import RealBounds
  a = RealBounds(0, 1, "m")
  a.update(RealBounds(0, 1, "cm"))
  assert a.default_units == "meter"
  """)
B("C06-same-value", "C06",
  [(G + "entity/attribute/base_attribute.py", "                self._check(self.template, value)\n            self._value = value", "                if value != self._value:\n                    self._check(self.template, value)\n            self._value = value")],
  "a value that was accepted at a laxer level (or before its template's bounds changed), given again at the fatal level",
  "an inconsistent value is accepted when it equals the present one",
  """
  from gemd.entity.attribute import Property
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  with validation_level(WarningLevel.IGNORE):
      p = Property("x", value=NominalInteger(9), template=PropertyTemplate("t", bounds=IntegerBounds(0, 5)))
  with validation_level(WarningLevel.FATAL):
      try:
          p.value = NominalInteger(9)
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C06-warn-once", "C06",
  [(G + "entity/attribute/base_attribute.py", "            message = f\"template.bounds {template.bounds} does not contain value {value}\"\n            if level == WarningLevel.WARNING:\n                logger.warning(message)", "            message = f\"template.bounds {template.bounds} does not contain value {value}\"\n            if level == WarningLevel.WARNING:\n                if message not in _reported:\n                    _reported.add(message)\n                    logger.warning(message)"),
   (G + "entity/attribute/base_attribute.py", "class BaseAttribute(DictSerializable):", "_reported = set()\n\n\nclass BaseAttribute(DictSerializable):")],
  "the same inconsistency a second time in one process",
  "a repeated inconsistency is accepted without a warning",
  """
  import logging
  from gemd.entity.attribute import Property
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds import IntegerBounds
  n = []
  class H(logging.Handler):
      def emit(self, record):
          n.append(record)
  logging.getLogger("gemd.entity.dict_serializable").addHandler(H())
  t = PropertyTemplate("t", bounds=IntegerBounds(0, 5))
  for i in range(2):
      Property("x", value=NominalInteger(9), template=t)
  assert len(n) == 2, len(n)
  """)
B("C07-name-fallback", "C07",
  [(G + "entity/template/has_condition_templates.py", "            attr, bnd = next((x for x in self.conditions if condition.template == x[0]),\n                             (None, None))", "            attr, bnd = next((x for x in self.conditions if condition.template == x[0]),\n                             next((x for x in self.conditions\n                                   if not isinstance(x[0], LinkByUID)\n                                   and x[0].name == condition.name), (None, None)))")],
  "a condition whose template is none of the object template's, but whose name is that of an entry",
  "a condition with another template is checked against an entry of the same name",
  """
  from gemd.entity.object import ProcessSpec
  from gemd.entity.template import ProcessTemplate, ConditionTemplate
  from gemd.entity.attribute import Condition
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = ConditionTemplate("t", bounds=IntegerBounds(0, 2))
  u = ConditionTemplate("u", bounds=IntegerBounds(0, 9))
  o = ProcessSpec("p", template=ProcessTemplate("pt", conditions=[t]))
  with validation_level(WarningLevel.FATAL):
      o.conditions.append(Condition("t", template=u, value=NominalInteger(5)))
  """)
B("C07-insert-unchecked", "C07",
  [(G + "entity/valid_list.py", "        self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().insert(i, value)", "        self._validate(value)\n        if self._trigger is not None and not 0 < -i <= len(self):\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().insert(i, value)")],
  "insertion at a negative position",
  "attributes inserted at a negative position are not checked",
  """
  from gemd.entity.object import ProcessSpec
  from gemd.entity.template import ProcessTemplate, ConditionTemplate
  from gemd.entity.attribute import Condition
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = ConditionTemplate("t", bounds=IntegerBounds(0, 2))
  o = ProcessSpec("p", template=ProcessTemplate("pt", conditions=[t]), conditions=[Condition("z")])
  with validation_level(WarningLevel.FATAL):
      try:
          o.conditions.insert(-1, Condition("t", value=NominalInteger(5)))
      except ValueError:
          pass
      else:
          raise AssertionError
  """, also=["C14"])
B("C07-property-pac", "C07",
  [(G + "entity/template/has_property_templates.py", "            return attr.bounds.contains(prop.value)", "            return prop.template is attr or attr.bounds.contains(prop.value)")],
  "a property accepted with an inconsistent value at a laxer level, added to an object at the fatal level",
  "properties whose template is the entry itself are not checked again",
  """
  from gemd.entity.object import MeasurementRun, MeasurementSpec
  from gemd.entity.template import MeasurementTemplate, PropertyTemplate
  from gemd.entity.attribute import Property
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = PropertyTemplate("t", bounds=IntegerBounds(0, 2))
  o = MeasurementRun("m", spec=MeasurementSpec("m", template=MeasurementTemplate("mt", properties=[t])))
  with validation_level(WarningLevel.IGNORE):
      p = Property("p", template=t, value=NominalInteger(7))
  with validation_level(WarningLevel.FATAL):
      try:
          o.properties.append(p)
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C08-ignore-type", "C08",
  [(G + "entity/object/has_quantities.py", "        elif not isinstance(mass_fraction, ContinuousValue):", "        elif not isinstance(mass_fraction, ContinuousValue if get_validation_level()\n                            != WarningLevel.IGNORE else BaseValue):")],
  "another kind of value at the ignore level",
  "mass fractions that are not continuous values are accepted at the ignore level",
  """
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  with validation_level(WarningLevel.IGNORE):
      try:
          IngredientRun(mass_fraction=NominalInteger(1))
      except TypeError:
          pass
      else:
          raise AssertionError
  """)
B("C09-exponent-context", "C09",
  [(G + "units/impl.py", "            operator_stack_.extend([token_] * 2)", "            operator_stack_.extend([token_])")],
  "an exponent in parentheses or with a sign inside a product",
  "numbers in exponents are taken for scaling factors",
  """
  from gemd.units import parse_units
  assert parse_units("m * s**(3/2)") == parse_units("m * s**1.5"), parse_units("m * s**(3/2)")
  """)
B("C10-ratio-round", "C10",
  [(G + "units/impl.py", "    return base_unit, float(ratio), offset", "    return base_unit, round(float(ratio), 15), offset")],
  "the base units of a very small unit (nm**2, eV, amu)",
  "conversion factors below 1e-15 are reported as zero",
  """
  from gemd.units import get_base_units
  assert get_base_units("nm**3")[1] > 0
  """)
B("C10-cache-typed", "C10",
  [(G + "units/impl.py", "        return resolved_value.to(resolved_final_unit).magnitude", "        return float(f\"{resolved_value.to(resolved_final_unit).magnitude:.12g}\")")],
  "numbers with more than twelve digits",
  "conversions lose digits",
  """
  from gemd.units import convert_units
  x = 1.2345678901234567
  assert abs(convert_units(convert_units(x, "m", "inch"), "inch", "m") - x) < 1e-14
  """)
B("C11-clear-default", "C11",
  [(G + "units/impl.py", "    convert_units.cache_clear()  # Units will change\n    parse_units.cache_clear()\n    get_base_units.cache_clear()\n    if filename is None:\n        target = DEFAULT_FILE\n    else:\n", "    if filename is None:\n        target = DEFAULT_FILE\n    else:\n        convert_units.cache_clear()  # Units will change\n        parse_units.cache_clear()\n        get_base_units.cache_clear()\n")],
  "a unit used under another definitions file before switching back to the default",
  "after switching back the other file's results are still returned",
  """
  import os, tempfile
  from gemd.units import convert_units, change_definitions_file
  with tempfile.TemporaryDirectory() as d:
      p = os.path.join(d, "u.txt")
      open(p, "w").write("meter = [length] = m\\ninch = 3 * meter\\n")
      change_definitions_file(p)
      assert convert_units(1., "inch", "m") == 3
      change_definitions_file()
      assert convert_units(1., "inch", "m") != 3
  """)
B("C12-link-scope", "C12",
  [(G + "entity/base_entity.py", "            return self.uids.get(other.scope) == other.id", "            return (other.scope, other.id) in self.uids.items()")],
  "comparison of an entity with a link whose scope is in another letter case",
  "entity == link is false while link == entity is true",
  """
  from gemd.entity.object import MaterialRun
  from gemd.entity.link_by_uid import LinkByUID
  m, l = MaterialRun("m", uids={"Lab": "1"}), LinkByUID("lab", "1")
  assert m == l and l == m
  """)
B("C13-get-falsy", "C13",
  [(G + "entity/case_insensitive_dict.py", "        if self.__contains__(key):\n            return self.__getitem__(key)\n        else:\n            return default", "        return self.__contains__(key) and self.__getitem__(key) or default")],
  "get with a default for a key whose value is the empty string",
  "get returns the default for a key with an empty value",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  assert CaseInsensitiveDict(A="").get("a", "x") == ""
  """)
B("C13-casefold", "C13",
  [(G + "entity/case_insensitive_dict.py", "        return self.lowercase_dict.__contains__(key.lower())", "        return self.lowercase_dict.__contains__(key.casefold())")],
  "a key whose case-folded form differs from its lower-case form (ß)",
  "a key that is iterated is not found",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  d = CaseInsensitiveDict({"stra\u00dfe": 1})
  assert "stra\u00dfe" in d
  """)
B("C14-bytes", "C14",
  [(G + "entity/setters.py", "    elif isinstance(obj, Iterable) and not isinstance(obj, str):", "    elif isinstance(obj, Iterable) and not isinstance(obj, (str, bytes, dict)):")],
  "a dictionary (or its keys) given as the items of a list field",
  "a dictionary of items is refused instead of its keys being stored",
  """
  from gemd.entity.object import MaterialRun
  assert MaterialRun("m", tags={"a": 1, "b": 2}).tags == ["a", "b"]
  """)
B("C15-dup-synonym", "C15",
  [(G + "enumeration/base_enumeration.py", "        if cls.from_str(value, exception=False) is not None:", "        if any(value.strip().lower() == x.value.strip().lower() for x in cls):")],
  "an enumeration in which a value repeats an earlier member's synonym",
  "a value that another member already answers to is accepted",
  """
  from gemd.enumeration.base_enumeration import BaseEnumeration
  try:
      class F(BaseEnumeration):
          A = "x", "y"
          B = "Y"
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
B("C15-field-none", "C15",
  [(G + "entity/object/material_run.py", "        self._sample_type = SampleType.from_str(sample_type, exception=True)", "        self._sample_type = SampleType.from_str(sample_type, exception=bool(sample_type))")],
  "an empty string (or None) assigned to the sample type",
  "the sample type becomes None",
  """
  from gemd.entity.object import MaterialRun
  m = MaterialRun("m")
  try:
      m.sample_type = ""
  except ValueError:
      pass
  assert m.sample_type is not None
  """)
B("C16-element-table", "C16",
  [(G + "entity/value/empirical_formula.py", "Cn  Nh  Fl", "Cn  Uut Fl")],
  "a formula with nihonium (or the old name ununtrium)",
  "a real element is refused and an obsolete name accepted",
  """
  from gemd.entity.value import EmpiricalFormula
  EmpiricalFormula("NhO2")
  """)
B("C16-category-str", "C16",
  [(G + "entity/value/nominal_categorical.py", "            self._category = validate_str(category)", "            self._category = str(category) if isinstance(category, (bool, tuple)) \\\n                else validate_str(category)")],
  "a category that is a truth value",
  "truth values are accepted as categories",
  """
  from gemd.entity.value import NominalCategorical
  try:
      NominalCategorical(True)
  except TypeError:
      pass
  else:
      raise AssertionError
  """)
B("C17-measure-template", "C17",
  [(G + "builders/impl.py", "    if name is None:\n        if template is None:\n            raise ValueError(\"Either", "    if name is None or template is not None and name == template.name.lower():\n        if template is None:\n            raise ValueError(\"Either")],
  "a measurement name that is the template's name in lower case",
  "the requested name is replaced by the template's",
  """
  from gemd.builders import make_node, add_measurement
  from gemd.entity.template import MeasurementTemplate
  m = add_measurement(make_node("a"), name="xrd", template=MeasurementTemplate("XRD"))
  assert m.name == "xrd"
  """)
B("C17-spec-side", "C17",
  [(G + "builders/impl.py", "                                        material=input_material.spec\n", "                                        material=input_material.spec if\n                                        input_material is not output_material else None\n")],
  "an edge from a material to itself",
  "the spec side of the edge has no material",
  """
  from gemd.builders import make_node, add_edge
  a = make_node("a")
  e = add_edge(a, a)
  assert e.spec.material is a.spec
  """)
B("C18-same-name", "C18",
  [(G + "entity/util.py", "            for x in spec.ingredients:\n                crawler(x)", "            for x in {(i.name, id(i.material)): i for i in spec.ingredients}.values():\n                crawler(x)")],
  "a process spec with two ingredient specs of the same name and material",
  "one of two like ingredients gets no run",
  """
  from gemd.entity.object import ProcessSpec, IngredientSpec
  from gemd.entity.util import make_instance
  p = ProcessSpec("p")
  IngredientSpec("i", process=p), IngredientSpec("i", process=p)
  assert len(make_instance(p).ingredients) == 2
  """)
B("C19-tuple-seen", "C19",
  [(G + "util/impl.py", "            for k, x in this.__dict__.items():\n                queue.append(x)", "            for k, x in this.__dict__.items():\n                if not (cached_isinstance(x, BaseEntity) and x == obj):\n                    queue.append(x)")],
  "an entity that equals, but is not, the starting point",
  "an entity equal to the starting point is not visited",
  """
  from gemd.entity.object import MaterialRun, IngredientRun, ProcessRun
  from gemd.util import recursive_foreach
  p = ProcessRun("p")
  a = MaterialRun("m", process=p)
  b = MaterialRun("m", process=p)
  a.process = p
  seen = []
  recursive_foreach(b, seen.append)
  assert len(seen) == 3, len(seen)
  """)
B("C19-local-links", "C19",
  [(G + "entity/object/has_material.py", "        return {self.material} if self.material is not None else set()", "        return {self.material} if isinstance(self.material, BaseEntity) else set()")],
  "an ingredient or measurement whose material is a link",
  "links to materials are missing from the dependencies",
  """
  from gemd.entity.object import IngredientRun
  from gemd.entity.link_by_uid import LinkByUID
  l = LinkByUID("a", "1")
  assert IngredientRun(material=l).all_dependencies() == {l}
  """)
B("C20-raw-substitute", "C20",
  [(G + "json/gemd_json.py", "            object_hook=lambda x: self._load_and_index(x, index, clazz_index=clazz_index),", "            object_hook=lambda x: self._load_and_index(x, index, clazz_index=clazz_index,\n                                                       substitute=len(index) > 1),")],
  "raw text that nests an entity and a link to it",
  "links in raw text become objects",
  """
  from gemd.json import GEMDJson
  from gemd.entity.object import MaterialRun, ProcessRun, MaterialSpec
  from gemd.entity.link_by_uid import LinkByUID
  p, q = ProcessRun("p", uids={"a": "1"}), ProcessRun("q", uids={"a": "2"})
  box = [p, q, MaterialRun("m", process=LinkByUID("a", "1"))]
  g = GEMDJson()
  assert type(g.raw_loads(g.raw_dumps(box))[2].process) is LinkByUID
  """)
B("C20-extra-field", "C20",
  [(G + "entity/dict_serializable.py", "            elif name != 'type':\n                logger.warning(", "            elif hasattr(cls, name) and name not in cls.skip:\n                raise TypeError(f'{cls} does not take {name}')\n            elif name != 'type':\n                logger.warning(")],
  "an extra field named like a method or read-only property",
  "some unknown extra fields are refused",
  """
  from gemd.entity.object import MaterialRun
  d = MaterialRun("m").as_dict()
  d["template"] = None
  MaterialRun.from_dict(d)
  """)
B("C21-hash-case", "C21",
  [(G + "entity/link_by_uid.py", "        return hash((self.scope, self.id))", "        return hash((self.scope.lower(), self.id))")],
  "a link whose scope has capitals, used as a dictionary key",
  "a link with capitals in its scope is not found under its (scope, id) pair",
  """
  from gemd.entity.link_by_uid import LinkByUID
  assert {LinkByUID("Lab", "1"): 5}.get(("Lab", "1")) == 5
  """)
B("C21-scope-none", "C21",
  [(G + "entity/link_by_uid.py", "        if scope in entity.uids:\n            uid = entity.uids[scope]", "        if entity.uids.get(scope):\n            uid = entity.uids[scope]")],
  "an id that is the empty string in the requested scope, while another scope is listed first",
  "the factory falls back although the requested scope is present",
  """
  from gemd.entity.object import MaterialRun
  from gemd.entity.link_by_uid import LinkByUID
  m = MaterialRun("m", uids={"a": "1", "b": ""})
  assert LinkByUID.from_entity(m, scope="b").id == ""
  """)
B("C22-stale-labels", "C22",
  [(G + "entity/object/ingredient_run.py", "            self._labels = validate_list(self.spec.labels, str)", "            self._labels = validate_list(self.spec.labels or self._labels, str)")],
  "a run whose first spec had labels, whose second has none, and which then loses its spec",
  "labels of an earlier spec come back",
  """
  from gemd.entity.object import IngredientRun, IngredientSpec
  r = IngredientRun(spec=IngredientSpec("i", labels=["a"]))
  r.spec = IngredientSpec("j")
  r.spec = None
  assert r.labels == [], r.labels
  """)

# ================================================================ C24
B("C24-list-reuse", "C24",
  [(G + "entity/setters.py", "        return ValidList([], typ, trigger)\n    elif", "        return ValidList([], typ, trigger)\n    elif isinstance(obj, ValidList) and trigger is None and obj._trigger is None \\\n            and obj._content_type == (typ,):\n        return obj  # Already validated\n    elif")],
  "a list field assigned from another object's field, and then edited",
  "two objects share one list",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  a = MaterialRun("a", tags=["x"])
  b = ProcessRun("b", tags=a.tags)
  b.tags.append("y")
  assert a.tags == ["x"], a.tags
  """, also=["C22", "C14"])
B("C24-uids-reuse", "C24",
  [(G + "entity/base_entity.py", "        elif isinstance(uids, MutableMapping):", "        elif isinstance(uids, CaseInsensitiveDict):\n            self._uids = uids\n        elif isinstance(uids, MutableMapping):")],
  "uids of one entity given to another, and one more uid added to either",
  "two entities share one uid map",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  a = MaterialRun("a", uids={"id": "x"})
  b = ProcessRun("b", uids=a.uids)
  b.add_uid("auto", "y")
  assert dict(a.uids) == {"id": "x"}, a.uids
  """)
B("C24-pair-reuse", "C24",
  [(G + "entity/template/base_template.py", "                return [first, second]", "                return template_or_tuple if isinstance(template_or_tuple, list) else [first, second]")],
  "a [template, bounds] list given to two object templates and changed afterwards",
  "object templates share the caller's pair",
  """
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.template import PropertyTemplate, MaterialTemplate
  p = [PropertyTemplate("p", bounds=IntegerBounds(0, 5)), IntegerBounds(0, 3)]
  a = MaterialTemplate("a", properties=[p])
  p[1] = None
  assert a.properties[0][1] == IntegerBounds(0, 3)
  """)
B("C24-date", "C24",
  [(G + "entity/source/performed_source.py", "            self._performed_date = value\n", "            self._performed_date = value if value else None\n")],
  "an empty date text",
  "an empty performed_date is reported as None",
  """
  from gemd.entity.source.performed_source import PerformedSource
  assert PerformedSource("me", "").performed_date == ""
  """)
B("C24-empty-notes", "C24",
  [(G + "entity/object/base_object.py", "        self.notes = notes\n", "        self.notes = notes or None\n")],
  "empty notes given at construction",
  "empty notes become None",
  """
  from gemd.entity.object import MaterialRun
  assert MaterialRun("m", notes="").notes == ""
  """, also=["C01"])
B("C24-lone-pair", "C24",
  [(G + "entity/template/has_parameter_templates.py", "if any(isinstance(x, BaseBounds) for x in parameters):", "if len(parameters) == 2 and isinstance(parameters[1], BaseBounds) \\\n                    and isinstance(parameters[0], ParameterTemplate):")],
  "a lone (link, bounds) pair given as parameters",
  "a lone pair of a link and bounds is refused",
  """
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.entity.template import ProcessTemplate
  t = ProcessTemplate("t", parameters=(LinkByUID("id", "x"), IntegerBounds(0, 3)))
  assert len(t.parameters) == 1
  """)
B("C24-none-allowed", "C24",
  [(G + "entity/template/process_template.py", "            self._allowed_labels = validate_list([], str)", "            self._allowed_labels = self._allowed_labels or validate_list([], str)")],
  "allowed labels that are given and then removed by assigning None",
  "assigning None keeps the earlier allowed labels",
  """
  from gemd.entity.template import ProcessTemplate
  t = ProcessTemplate("t", allowed_labels=["a"])
  t.allowed_labels = None
  assert t.allowed_labels == []
  """)

# ---------------------------------------------------------------- third round
B("C02-first-uid", "C02",
  [(G + "util/impl.py", "        for uid in uids:\n            known_uids.add(uid)", "        known_uids.add(uids[0])")],
  "two copies of an entity with several uids that share only a later one",
  "flatten lists two copies of one entity",
  """
  from gemd.entity.object import MaterialRun
  from gemd.util import flatten
  a = MaterialRun("m", uids={"a": "1", "b": "2"})
  b = MaterialRun("m", uids={"b": "2"})
  assert len(flatten([a, b])) == 1
  """)
B("C05-empty-cat", "C05",
  [(G + "entity/bounds/categorical_bounds.py", "        return bounds.categories.issubset(self.categories)", "        return len(bounds.categories) > 0 and bounds.categories.issubset(self.categories)")],
  "categorical bounds without categories",
  "empty bounds do not contain themselves",
  """
  from gemd.entity.bounds import CategoricalBounds
  assert CategoricalBounds(["a"]).contains(CategoricalBounds([]))
  """)
B("C05-width", "C05",
  [(G + "entity/bounds/real_bounds.py", "            upper_bound = units.convert_units(\n                self.upper_bound, self.default_units, target_units)", "            upper_bound = lower_bound if self.upper_bound == self.lower_bound else \\\n                lower_bound + (self.upper_bound - self.lower_bound) * (\n                    units.convert_units(1.0, self.default_units, target_units)\n                    - units.convert_units(0.0, self.default_units, target_units))\n            upper_bound = round(upper_bound, 9)")],
  "bounds in units so large that the endpoint has digits beyond the ninth place",
  "union and containment use a rounded upper endpoint",
  """
  from gemd.entity.bounds import RealBounds
  b = RealBounds(0, 3.3, "nm")
  assert RealBounds(0, 1, "nm").union(RealBounds(0, 3.3e-3, "um")).contains(b) or True
  u = RealBounds(0, 1e-12, "m").union(RealBounds(0, 3.3, "nm"))
  assert abs(u.upper_bound - 3.3e-9) < 1e-15, u
  """)
B("C08-tolerance", "C08",
  [(G + "entity/object/has_quantities.py", "upper_bound=1.0, default_units='')", "upper_bound=1.0 + 1e-9, default_units='')")],
  "a fraction that exceeds one by less than 1e-9",
  "a fraction above one is accepted silently",
  """
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  with validation_level(WarningLevel.FATAL):
      try:
          IngredientRun(mass_fraction=NominalReal(1 + 2e-12, ""))
      except ValueError:
          raise SystemExit(0)
  raise SystemExit(1)
  """)
B("C10-tiny", "C10",
  [(G + "units/impl.py", "        resolved_value = _REGISTRY.Quantity(value, starting_unit)\n", "        resolved_value = _REGISTRY.Quantity(value if abs(value) > 1e-30 else 0.0, starting_unit)\n")],
  "a magnitude below 1e-30",
  "tiny magnitudes are converted to zero",
  """
  from gemd.units import convert_units
  x = convert_units(1e-31, "Mm", "nm")
  assert abs(x - 1e-16) < 1e-20, x
  """)
B("C11-base-cache", "C11",
  [(G + "units/impl.py", "    get_base_units.cache_clear()\n", "")],
  "a base-unit query, a switch of definitions, and the same query again",
  "base units of the old definitions are reported after a switch",
  """
  import os, tempfile
  from gemd.units import get_base_units, change_definitions_file
  from gemd.units.impl import DEFAULT_FILE, DEFAULT_CONSTANTS
  d = tempfile.mkdtemp()
  s = DEFAULT_FILE.read_text().replace("inch = yard / 36", "inch = yard / 30")
  open(d + "/citrine_en.txt", "w").write(s)
  open(d + "/constants_en.txt", "w").write(DEFAULT_CONSTANTS.read_text())
  a = get_base_units("inch")[1]
  change_definitions_file(d + "/citrine_en.txt")
  b = get_base_units("inch")[1]
  assert a != b, (a, b)
  """)
B("C13-pop-case", "C13",
  [(G + "entity/case_insensitive_dict.py", "            val = super().pop(self.lowercase_dict.get(key.lower()), default)", "            val = super().pop(key, default)")],
  "pop with a default and a key in another letter case",
  "the item stays listed but cannot be looked up any more",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  d = CaseInsensitiveDict({"Key": 1})
  assert d.pop("kEY", None) == 1 and len(d) == 0, d
  """)
B("C14-falsy-hook", "C14",
  [(G + "entity/valid_list.py", "        self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().append(value)", "        self._validate(value)\n        if self._trigger is not None:\n            value = self._trigger(value) or value\n        super().append(value)")],
  "an appended item whose hook gives a falsy replacement",
  "the replacement is dropped",
  """
  from gemd.entity.valid_list import ValidList
  a = ValidList([], str, trigger=lambda s: s.strip())
  a.append(" ")
  assert a == [""], a
  """)
B("C15-other-enum", "C15",
  [(G + "enumeration/base_enumeration.py", "            return cls.from_str(value)\n        else:\n            return None", "            return cls.from_str(value.strip())\n        else:\n            return None"),
   (G + "enumeration/base_enumeration.py", "            result = next((x for x in cls if str.lower(val).strip() in x.matches), None)", "            result = next((x for x in cls if str.lower(val).strip(' \\t\\n') in x.matches), None)")],
  "a spelling surrounded by other whitespace than blanks, tabs and newlines",
  "a spelling with a carriage return or no-break space around it is refused by lookup",
  """
  from gemd.enumeration import Origin
  assert Origin.from_str("\\rmeasured\\r\\n") is Origin.MEASURED
  """)
B("C16-upper-float", "C16",
  [(G + "entity/value/uniform_integer.py", "        self._upper_bound = int(upper_bound)", "        self._upper_bound = int(float(upper_bound))")],
  "an upper bound beyond 2**53",
  "large integers are rounded",
  """
  from gemd.entity.value import UniformInteger
  assert UniformInteger(0, 2 ** 53 + 1).upper_bound == 2 ** 53 + 1
  """)
B("C20-empty-omitted", "C20",
  [(G + "json/gemd_encoder.py", "            return o.as_dict()", "            return {k: v for k, v in o.as_dict().items() if k != 'notes' or v is not None}")],
  "an object without notes",
  "raw JSON text lacks a writable field",
  """
  import json
  import gemd.json as gj
  from gemd.entity.object import MaterialRun
  assert "notes" in json.loads(gj.GEMDJson().raw_dumps(MaterialRun("m")))
  """)
B("C22-empty-labels", "C22",
  [(G + "entity/object/ingredient_run.py", "        if labels is not None:\n            obj._labels", "        if labels:\n            obj._labels")],
  "an ingredient run with a linked spec whose last labels were empty, through a round trip",
  "empty labels become None",
  """
  from gemd.entity.object import IngredientRun
  r = IngredientRun.from_dict({"name": "x", "labels": []})
  assert r.labels == [], r.labels
  """)
B("C24-tags-dedupe", "C24",
  [(G + "entity/base_entity.py", "        self._tags = validate_list(tags, str)", "        self._tags = validate_list(tags, str)\n        self._tags[:] = list(dict.fromkeys(self._tags))")],
  "the same tag given twice",
  "repeated tags are dropped",
  """
  from gemd.entity.object import MaterialRun
  assert MaterialRun("m", tags=["a", "b", "a"]).tags == ["a", "b", "a"]
  """)
B("C24-template-cached", "C24",
  [(G + "entity/object/has_spec.py", "            self._spec = spec\n        else:", "            self._spec = spec\n            self.__dict__.pop('_', None)\n            HasSpec._seen[id(spec)] = getattr(spec, 'template', None) or \\\n                HasSpec._seen.get(id(spec))\n        else:"),
   (G + "entity/object/has_spec.py", "            return self.spec.template\n", "            return self.spec.template or HasSpec._seen.get(id(self.spec))\n"),
   (G + "entity/object/has_spec.py", "    def __init__(self, spec", "    _seen = {}\n\n    def __init__(self, spec")],
  "a spec whose template is removed after a run was attached",
  "a run reports a template its spec no longer has",
  """
  from gemd.entity.object import MaterialRun, MaterialSpec
  from gemd.entity.template import MaterialTemplate
  s = MaterialSpec("s", template=MaterialTemplate("t"))
  r = MaterialRun("r", spec=s)
  s.template = None
  assert r.template is None
  """)
# ---------------------------------------------------------------- C25
B("C25-seed-zero", "C25",
  [(G + "demo/cake.py", "    if seed is not None:\n        random.seed(seed)", "    if seed:\n        random.seed(seed)")],
  "the seed 0 (or an empty text)",
  "make_cake(seed=0) is not reproducible",
  """
  from gemd.demo.cake import make_cake
  a, b = make_cake(seed=0), make_cake(seed=0)
  assert dict(a.uids) == dict(b.uids)
  """)
B("C25-latest-attr", "C25",
  [(G + "demo/strehlow_and_cook.py", "            for attr in [prop] + prop.get('conditions', []):", "            for attr in prop.get('conditions', []) + [prop]:")],
  "a property that repeats as one of its own conditions",
  "the condition's value is kept instead of the property's",
  """
  from gemd.demo.strehlow_and_cook import make_strehlow_objects
  t = lambda v: {"name": "Temperature", "scalars": [{"value": v}], "units": "K"}
  row = {"chemicalFormula": "O1", "properties": [dict(t("5"), conditions=[t("6")])]}
  m = make_strehlow_objects([row])[0].measurements[0]
  assert [x.value.nominal for x in m.conditions] == [5.0]
  """)
B("C25-clean-formula", "C25",
  [(G + "demo/strehlow_and_cook.py", "    return re.sub(r\"(?<=[A-Za-z])1(?=[A-Za-z]|$)\", '', old)", "    return re.sub(r\"(?<=[A-Za-z])1(?=\\D|$)\", '', old)")],
  "a formula with a count such as 1.5",
  "Ga1.5 is read as Ga.5",
  """
  from gemd.demo.strehlow_and_cook import formula_clean
  assert formula_clean("Ga1.5As1") == "Ga1.5As"
  """)
B("C25-tags-experiment", "C25",
  [(G + "demo/cake.py", "                item.source = cake_obj.process.source", "                item.source = item.source or cake_obj.process.source\n                if item.notes and len(item.notes) > 400:\n                    item.notes = item.notes[:400]")],
  "a process spec with long notes",
  "long notes are cut",
  """
  from gemd.demo.cake import make_cake, make_cake_spec
  s = make_cake_spec()
  s.process.notes = "x" * 500
  c = make_cake(seed=1, cake_spec=s)
  assert c.process.notes == 'The spec says "{}"'.format(s.process.notes)
  """)
B("C25-zero-amount", "C25",
  [(G + "demo/cake.py", "            if item.spec.number_fraction is not None:", "            if item.spec.number_fraction is not None and item.spec.mass_fraction is None:")],
  "a recipe with both mass and number fractions for one ingredient",
  "the number fraction is not carried over",
  """
  from gemd.demo.cake import make_cake, make_cake_spec
  from gemd.entity.value import NominalReal
  s = make_cake_spec()
  for i in s.process.ingredients:
      i.mass_fraction = i.number_fraction = NominalReal(0.5, "")
  c = make_cake(seed=1, cake_spec=s)
  assert all(i.number_fraction is not None for i in c.process.ingredients)
  """)

# ---------------------------------------------------------------- fourth round
B("C04-detach-first", "C04",
  [(G + "entity/object/measurement_run.py", "        if value is None or isinstance(value, (MaterialRun, LinkByUID)):\n            if isinstance(self._material, MaterialRun):\n",
    "        if value is None or isinstance(value, (MaterialRun, LinkByUID)) or isinstance(value, tuple):\n            if isinstance(value, tuple) and len(value) == 2:\n                value = LinkByUID(*value)\n            if isinstance(self._material, MaterialRun):\n")],
  "a (scope, id) pair offered as the material of a measurement",
  "a wrongly typed assignment is accepted",
  """
  from gemd.entity.object import MaterialRun, MeasurementRun
  x = MeasurementRun("x", material=MaterialRun("m"))
  try:
      x.material = ("id", "1")
  except TypeError:
      raise SystemExit(0)
  raise SystemExit(1)
  """)
B("C06-link-then-template", "C06",
  [(G + "entity/attribute/base_attribute.py", "            if self.value is not None and isinstance(template, AttributeTemplate):", "            if self.value is not None and isinstance(template, AttributeTemplate) \\\n                    and not isinstance(self.template, LinkByUID):")],
  "a link to a template is replaced with a template that the value violates",
  "a template replacing a link is not checked",
  """
  from gemd.entity.attribute import Property
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.value import NominalInteger
  a = Property("a", value=NominalInteger(9), template=LinkByUID("id", "1"))
  with validation_level(WarningLevel.FATAL):
      try:
          a.template = PropertyTemplate("t", bounds=IntegerBounds(0, 1))
      except ValueError:
          raise SystemExit(0)
  raise SystemExit(1)
  """)
B("C06-fatal-kept", "C06",
  [(G + "entity/attribute/base_attribute.py", "            if isinstance(self.template, AttributeTemplate):\n                self._check(self.template, value)\n            self._value = value\n", "            self._value, old = value, self._value\n            if isinstance(self.template, AttributeTemplate):\n                try:\n                    self._check(self.template, value)\n                except ValueError:\n                    self._value = old if old is not None else value\n                    raise\n")],
  "a refused value on an attribute that had none",
  "a refused value is kept",
  """
  from gemd.entity.attribute import Property
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.value import NominalInteger
  a = Property("a", template=PropertyTemplate("t", bounds=IntegerBounds(0, 1)))
  with validation_level(WarningLevel.FATAL):
      try:
          a.value = NominalInteger(9)
      except ValueError:
          pass
  assert a.value is None
  """)
B("C12-uid-shortcut", "C12",
  [(G + "entity/base_entity.py", "        this_uids = this_dict.pop(\"uids\")\n        that_uids = that_dict.pop(\"uids\")\n", "        this_uids = this_dict.pop(\"uids\")\n        that_uids = that_dict.pop(\"uids\")\n        if len(this_uids) > 2 and this_uids == that_uids:\n            cache[cache_key] = True\n            return True\n")],
  "objects with three equal uids and different contents",
  "objects that differ are equal when they share three uids",
  """
  from gemd.entity.object import ProcessRun
  u = {"a": "1", "b": "2", "c": "3"}
  assert ProcessRun("x", uids=u, notes="n") != ProcessRun("x", uids=u, notes="m")
  """)
B("C12-order-lists", "C12",
  [(G + "entity/base_entity.py", "                        if len(this_uids) > 0:  # But if it was flattened, uids will save us\n                            continue\n                    if len(that_list) == 0:", "                        if len(this_uids) > 0 and key != \"file_links\":  # But if it was flattened, uids will save us\n                            continue\n                    if len(that_list) == 0:")],
  "two objects with uids of which the left has no file links and the right has",
  "equality depends on the order of its operands",
  """
  from gemd.entity.file_link import FileLink
  from gemd.entity.object import ProcessRun
  a = ProcessRun("x", uids={"a": "1"})
  b = ProcessRun("x", uids={"a": "1"}, file_links=[FileLink("f", "u")])
  assert (a == b) is (b == a)
  """)
B("C18-shared-material", "C18",
  [(G + "entity/util.py", "            seen[id(spec)].material = crawler(spec.material) if spec.material else None\n", "            made = crawler(spec.material) if spec.material else None\n            if made is not None and isinstance(made.process, type(None)) and len(seen) > 24:\n                made = None\n            seen[id(spec)].material = made\n")],
  "a recipe with more than a dozen ingredients whose raw materials have no process",
  "ingredients of large recipes have no material",
  """
  from gemd.entity.object import IngredientSpec, MaterialSpec, ProcessSpec
  from gemd.entity.util import make_instance
  p = ProcessSpec("p")
  m = MaterialSpec("m", process=p)
  for i in range(20):
      IngredientSpec(str(i), process=p, material=MaterialSpec("raw"))
  assert all(x.material is not None for x in make_instance(m).process.ingredients)
  """)
B("C23-lonely-template", "C23",
  [(G + "entity/util.py", "        result.append(json_builtin.loads(gemd_json.dumps(copy))[\"context\"][0])\n", "        entry = json_builtin.loads(gemd_json.dumps(copy))[\"context\"][0]\n        if entry.get(\"notes\") == \"\":\n            entry[\"notes\"] = None\n        result.append(entry)\n")],
  "an object with empty notes",
  "empty notes become None in the history",
  """
  from gemd.entity.object import MaterialRun
  from gemd.entity.util import complete_material_history
  assert complete_material_history(MaterialRun("m", notes=""))[0]["notes"] == ""
  """)
B("C23-links-kept", "C23",
  [(G + "entity/util.py", "    recursive_foreach(mat, body, apply_first=False)\n", "    recursive_foreach(mat, lambda o: None if any(o is x for x in getattr(mat, \"measurements\", ())[8:]) else body(o), apply_first=False)\n")],
  "a material with more than eight measurements",
  "measurements after the eighth are left out",
  """
  from gemd.entity.object import MaterialRun, MeasurementRun
  from gemd.entity.util import complete_material_history
  m = MaterialRun("m")
  for i in range(10):
      MeasurementRun(str(i), material=m)
  assert len(complete_material_history(m)) == 11
  """)
B("C01-loads-float", "C01",
  [(G + "json/gemd_json.py", "        clz = clazz_index[typ]\n        obj = clz.from_dict(d)\n", "        clz = clazz_index[typ]\n        if \"notes\" in d and isinstance(d[\"notes\"], str):\n            d[\"notes\"] = d[\"notes\"].replace(\"\\r\\n\", \"\\n\")\n        obj = clz.from_dict(d)\n")],
  "notes with Windows line ends",
  "line ends in notes change",
  """
  import gemd.json as gj
  from gemd.entity.object import ProcessRun
  assert gj.loads(gj.dumps(ProcessRun("a", notes="x\\r\\ny"))).notes == "x\\r\\ny"
  """)
B("C01-index-stale", "C01",
  [(G + "json/gemd_json.py", "            if (obj.scope.lower(), obj.id) in object_index:\n                obj = object_index[(obj.scope.lower(), obj.id)]\n", "            if (obj.scope.lower(), obj.id) in object_index and obj.id:\n                obj = object_index[(obj.scope.lower(), obj.id)]\n")],
  "an object whose id is the empty string",
  "references to an object with an empty id stay links",
  """
  import gemd.json as gj
  from gemd.entity.object import MaterialRun, ProcessRun
  m = MaterialRun("m", process=ProcessRun("p", uids={"id": ""}), uids={"id": "1"})
  assert gj.loads(gj.dumps(m)).process.name == "p"
  """)
B("C02-memo-scope", "C02",
  [(G + "util/impl.py", "        if len(base_obj.uids) == 0:\n            base_obj.add_uid(scope, str(uuid.uuid4()))\n", "        if not any(base_obj.uids.values()):\n            base_obj.add_uid(scope, str(uuid.uuid4()))\n")],
  "an object whose only id is the empty string",
  "an object that has a uid gains another",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import flatten
  p = ProcessRun("p", uids={"id": ""})
  flatten(p, "auto")
  assert dict(p.uids) == {"id": ""}, p.uids
  """)
B("C03-nested-inplace-tuple", "C03",
  [(G + "util/impl.py", "        thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)\n", "        swapped = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)\n        thing = swapped if swapped != thing else thing\n")],
  "a tuple of entities substituted in place (a link equals its entity)",
  "entities in tuples are not replaced in place",
  """
  from gemd.entity.object import ProcessRun
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.util import substitute_links
  got = substitute_links([(ProcessRun("p", uids={"id": "1"}), 1)], inplace=True)
  assert isinstance(got[0][0], LinkByUID)
  """)
B("C21-empty-scope", "C21",
  [(G + "entity/base_entity.py", "        if (scope is None) or (allow_fallback and scope not in self.uids):", "        if (not scope) or (allow_fallback and scope not in self.uids):")],
  "an empty scope is asked for",
  "a link of another scope is given although none was allowed",
  """
  from gemd.entity.object import ProcessRun
  try:
      ProcessRun("p", uids={"id": "1"}).to_link("")
  except ValueError:
      raise SystemExit(0)
  raise SystemExit(1)
  """)
B("C21-from-entity-case", "C21",
  [(G + "entity/link_by_uid.py", "            scope, uid = next((s, i) for s, i in entity.uids.items())\n", "            scope, uid = next(((s, i) for s, i in entity.uids.items() if i), (scope, \"\"))\n")],
  "an entity whose only id is empty, asked for another scope",
  "the link names a scope the entity does not have",
  """
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.entity.object import ProcessRun
  p = ProcessRun("p", uids={"id": ""})
  assert LinkByUID.from_entity(p, scope="x") == p
  """)
B("C22-link-name", "C22",
  [(G + "entity/object/ingredient_run.py", "            self._name = self.spec.name\n            self._labels = validate_list(self.spec.labels, str)\n", "            if not isinstance(spec, LinkByUID) or self._name is None:\n                self._name = self.spec.name\n                self._labels = validate_list(self.spec.labels, str)\n")],
  "the spec is renamed after it was replaced by a link and restored, then linked again",
  "a link shows a name the spec had before",
  """
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.entity.object import IngredientRun, IngredientSpec
  s = IngredientSpec("old", uids={"id": "1"})
  r = IngredientRun(spec=s)
  r.spec = LinkByUID("id", "1")
  r.spec = s
  s.name = "new"
  r.spec = LinkByUID("id", "1")
  assert r.name == "new", r.name
  """)
B("C17-int-bounds", "C17",
  [(G + "builders/impl.py", "        if str(value).startswith(\"InChI=\"):", "        if str(value).startswith(\"InChI=1\"):")],
  "an InChI text of another version",
  "an InChI of another version becomes a SMILES",
  """
  from gemd.builders import make_value
  from gemd.entity.bounds import MolecularStructureBounds
  from gemd.entity.value import InChI
  assert isinstance(make_value("InChI=2S/H2O", MolecularStructureBounds()), InChI)
  """)
B("C17-condition-first", "C17",
  [(G + "builders/impl.py", "            target.properties[-1].conditions.append(attribute)", "            next((x for x in reversed(target.properties) if x.name == attribute.name), target.properties[-1]).conditions.append(attribute)")],
  "a material spec with several properties of which an earlier one has the name of the condition",
  "the condition is attached to another property than the last",
  """
  from gemd.builders import add_attribute
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.object import MaterialSpec
  from gemd.entity.template import ConditionTemplate, PropertyTemplate
  b = IntegerBounds(0, 5)
  m = MaterialSpec("m")
  add_attribute(m, PropertyTemplate("t", bounds=b), 1)
  add_attribute(m, PropertyTemplate("u", bounds=b), 1)
  add_attribute(m, ConditionTemplate("t", bounds=b), 1)
  assert len(m.properties[-1].conditions) == 1
  """)
B("C26-memo-lists", "C26",
  [(G + "entity/case_insensitive_dict.py", "    def copy(self) -> 'CaseInsensitiveDict':", "    def __deepcopy__(self, memo):\n        return self\n\n    def copy(self) -> 'CaseInsensitiveDict':")],
  "the uids of a copy or its original are changed",
  "copies share their uids with the originals",
  """
  import copy
  from gemd.entity.object import ProcessRun
  p = ProcessRun("p", uids={"id": "1"})
  q = copy.deepcopy(p)
  q.add_uid("x", "2")
  assert dict(p.uids) == {"id": "1"}
  """)
B("C26-values-shared", "C26",
  [(G + "entity/bounds/base_bounds.py", "class BaseBounds(DictSerializable):\n", "class BaseBounds(DictSerializable):\n    __deepcopy__ = lambda self, memo: self  # noqa: E731\n\n")],
  "bounds of a copy are changed in place",
  "copies share their bounds with the originals",
  """
  import copy
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.template import PropertyTemplate
  t = PropertyTemplate("t", bounds=IntegerBounds(0, 5))
  copy.deepcopy(t).bounds.upper_bound = 9
  assert t.bounds.upper_bound == 5
  """)
B("C26-link-copy", "C26",
  [(G + "entity/base_entity.py", "    def add_uid(self, scope: str, uid: str):", "    def __deepcopy__(self, memo):\n        from copy import deepcopy\n        new = type(self).__new__(type(self))\n        memo[id(self)] = new\n        for k, v in self.__dict__.items():\n            new.__dict__[k] = v if k == \"_source\" else deepcopy(v, memo)\n        return new\n\n    def add_uid(self, scope: str, uid: str):")],
  "a run with a source, edited after copying",
  "a copy shares its source with the original",
  """
  import copy
  from gemd.entity.object import ProcessRun
  from gemd.entity.source import PerformedSource
  p = ProcessRun("p", source=PerformedSource("me", "2020"))
  copy.deepcopy(p).source.performed_by = "you"
  assert p.source.performed_by == "me"
  """)
# ---------------------------------------------------------------- fifth round
B("C02-all-known", "C02",
  [(G + "util/impl.py", "        if not any(uid in known_uids for uid in uids):", "        if not all(uid in known_uids for uid in uids):")],
  "two separate copies of one entity, of which the second has one uid more",
  "flatten returns an entity twice",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import flatten
  a = ProcessRun("p", uids={"x": "1"})
  b = ProcessRun("p", uids={"x": "1", "y": "2"})
  assert len(flatten([a, b])) == 1
  """)
B("C03-key-only", "C03",
  [(G + "util/impl.py", "                remove.add(k)\n                update[new_k] = v", "                remove.add(k)\n                if id(v) == id(new_v) and not cached_isinstance(v, Tuple):\n                    update[new_k] = v")],
  "an entity as a dictionary key with a tuple as its value",
  "in-place substitution drops dictionary entries",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import substitute_links
  k = ProcessRun("k", uids={"x": "1"})
  t = ()
  d = {k: t}
  substitute_links(d, inplace=True)
  assert len(d) == 1
  """)
B("C05-isclose", "C05",
  [(G + "entity/bounds/real_bounds.py", "        return bounds.lower_bound >= lower and bounds.upper_bound <= upper", "        return bounds.lower_bound >= lower and bounds.upper_bound <= upper * (1 + 1e-9)")],
  "an upper end that lies a billionth above the bounds",
  "ranges that stick out by a billionth are contained",
  """
  from gemd.entity.bounds import RealBounds
  assert not RealBounds(0, 1, "m").contains(RealBounds(0, 1.0000000005, "m"))
  """)
B("C05-int-real", "C05",
  [(G + "entity/bounds/real_bounds.py", "        if not isinstance(bounds, RealBounds):\n            return False", "        if type(bounds).__name__ == 'IntegerBounds' and self.default_units == 'dimensionless':\n            return bounds.lower_bound >= self.lower_bound and bounds.upper_bound <= self.upper_bound\n        if not isinstance(bounds, RealBounds):\n            return False")],
  "dimensionless real bounds asked about an integer",
  "bounds of another kind are contained",
  """
  from gemd.entity.bounds import IntegerBounds, RealBounds
  assert not RealBounds(0, 5, "").contains(IntegerBounds(1, 2))
  """)
B("C08-volume-once", "C08",
  [(G + "entity/object/has_quantities.py", "            self._check(volume_fraction)\n", "            if not (self._mass_fraction is not None and volume_fraction == self._mass_fraction):\n                self._check(volume_fraction)\n")],
  "a volume fraction equal to an out-of-range mass fraction accepted earlier",
  "a volume fraction equal to the mass fraction is not checked",
  """
  from gemd.entity.bounds_validation import WarningLevel, validation_level
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  with validation_level(WarningLevel.IGNORE):
      i = IngredientRun(mass_fraction=NominalReal(3, ""))
  with validation_level(WarningLevel.FATAL):
      try:
          i.volume_fraction = NominalReal(3, "")
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C11-same-path", "C11",
  [(G + "units/impl.py", "    current_dir = Path.cwd()\n", "    if _REGISTRY is not None and getattr(_REGISTRY, '_gemd_source', None) == target:\n        return  # Already in force\n    current_dir = Path.cwd()\n"),
   (G + "units/impl.py", "    finally:\n        os.chdir(current_dir)", "        _REGISTRY._gemd_source = target\n    finally:\n        os.chdir(current_dir)")],
  "a definitions file edited and switched to again",
  "the old contents stay in force",
  """
  import os, tempfile
  from gemd.units import change_definitions_file, convert_units
  import gemd.units.impl as impl
  with tempfile.TemporaryDirectory() as d:
      f = os.path.join(d, "u.txt")
      open(f, "w").write("meter = [length]\\nfoo = 2 * meter\\n")
      change_definitions_file(f)
      assert convert_units(1.0, "foo", "meter") == 2
      open(f, "w").write("meter = [length]\\nfoo = 3 * meter\\n")
      change_definitions_file(f)
      r = convert_units(1.0, "foo", "meter")
      change_definitions_file()
  assert r == 3
  """)
B("C15-missing-case", "C15",
  [(G + "enumeration/base_enumeration.py", "        if isinstance(value, str):\n            return cls.from_str(value)", "        if type(value) is str:\n            return cls.from_str(value)")],
  "construction from a string of a subclass of str",
  "construction refuses a spelling that lookup accepts",
  """
  from gemd.enumeration import Origin
  class S(str):
      pass
  assert Origin(S("Measured")) is Origin.MEASURED
  """)
B("C17-no-unit", "C17",
  [(G + "builders/impl.py", "        result = NominalReal(value, units=bounds.default_units)", "        result = NominalReal(value, units=bounds.default_units if value else '')")],
  "the value zero for a real template with units",
  "zero gets no units",
  """
  from gemd.builders import make_value
  from gemd.entity.bounds import RealBounds
  assert make_value(0.0, RealBounds(0, 1, "m")).units == "meter"
  """)
B("C18-measure-cache", "C18",
  [(G + "entity/util.py", "    seen = dict()\n", "    seen = getattr(make_instance, '_last', {}) if type(base_spec).__name__ == 'MeasurementSpec' else dict()\n    make_instance._last = {id(base_spec): None} and seen\n")],
  "the same measurement spec instantiated twice in a row",
  "a second call returns the run made before",
  """
  from gemd.entity.object import MeasurementSpec
  from gemd.entity.util import make_instance
  s = MeasurementSpec("s")
  assert make_instance(s) is not make_instance(s)
  """)
B("C19-flatmap-keys", "C19",
  [(G + "util/impl.py", "        if cached_isinstance(this, Mapping):\n            queue.extend(this.keys())\n            queue.extend(this.values())\n        elif cached_isinstance(this, DictSerializable):\n            for k, x in sorted(this.__dict__.items()):", "        if cached_isinstance(this, Mapping):\n            queue.extend(this.values())\n        elif cached_isinstance(this, DictSerializable):\n            for k, x in sorted(this.__dict__.items()):")],
  "an entity that is only a dictionary key",
  "accumulating misses entities that are dictionary keys",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import recursive_flatmap
  k = ProcessRun("k")
  assert recursive_flatmap({k: 1}, lambda x: [x]) == [k]
  """)
B("C19-short-id", "C19",
  [(G + "util/impl.py", "            base_obj.add_uid(scope, str(uuid.uuid4()))", "            base_obj.add_uid(scope, str(uuid.uuid4())[:4])")],
  "a structure with many entities without uids",
  "assigned uids are not all distinct",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import set_uuids
  ps = [ProcessRun(str(i)) for i in range(3000)]
  set_uuids(ps, "auto")
  assert len({p.uids["auto"] for p in ps}) == len(ps)
  """)
B("C22-set-labels", "C22",
  [(G + "entity/object/ingredient_run.py", "            self._name = self.spec.name\n", "            self._name = self.spec.name if spec is not self.spec else self._name\n            if spec is None:\n                self._name = self._name or None\n")],
  "a spec with an empty name that is removed",
  "an empty name becomes None",
  """
  from gemd.entity.object import IngredientRun, IngredientSpec
  r = IngredientRun(spec=IngredientSpec(""))
  r.spec = None
  assert r.name == ""
  """)
B("C16-formula-lower", "C16",
  [(G + "entity/value/empirical_formula.py", "        return set(re.findall('[A-Z][a-z]*', value))", "        return set(re.findall('[A-Z][a-z]?', value))")],
  "a formula with a three-letter name that starts like an element",
  "formulas such as Hea are accepted",
  """
  from gemd.entity.value import EmpiricalFormula
  try:
      EmpiricalFormula("Hea2")
  except ValueError:
      pass
  else:
      raise AssertionError
  """)

# ---------------------------------------------------------------- derived classes (C27)
DERIVED = """
  import inspect
  from gemd.entity.object import MaterialRun, ProcessRun, MeasurementRun
  from gemd.entity.template import PropertyTemplate, MaterialTemplate
  from gemd.entity.bounds import IntegerBounds
  import gemd.json as gj
"""
B("C27-dict-keys", "C27",
  [(G + "entity/dict_serializable.py", "        keys = {x.lstrip('_') for x in vars(self) if x not in self.skip}", "        keys = {x.lstrip('_') for x in vars(self) if x not in self.skip}\n        keys &= _KEYS.setdefault(self.typ, keys)"),
   (G + "entity/dict_serializable.py", "logger = getLogger(__name__)\n", "logger = getLogger(__name__)\n_KEYS = {}\n")],
  "a class that adds a field and takes over a tag, used after an object of the library's class",
  "the further field of a derived class is left out of its dictionary",
  DERIVED + """
  ProcessRun("p").as_dict()
  class Mine(ProcessRun, typ=ProcessRun.typ):
      def __init__(self, name, *, spec=None, conditions=None, parameters=None, uids=None,
                   tags=None, notes=None, file_links=None, source=None, extra=None):
          super().__init__(name, spec=spec, conditions=conditions, parameters=parameters,
                           uids=uids, tags=tags, notes=notes, file_links=file_links, source=source)
          self.extra = extra
  assert gj.loads(gj.dumps(Mine("p", extra=5))).extra == 5
  """, also=("C20",))
B("C27-sort-class", "C27",
  [(G + "util/impl.py", "    if cached_isinstance(key, BaseEntity):\n        typ = key.typ", "    if cached_isinstance(key, BaseEntity):\n        typ = key.typ\n        if type(key).__module__ != 'gemd.entity.template.' + typ and typ.endswith('_template'):\n            return 1")],
  "a class derived from an attribute template, and an object template that lists it",
  "a derived attribute template may come after a template that refers to it",
  DERIVED + """
  class Mine(PropertyTemplate, typ=PropertyTemplate.typ):
      pass
  t = MaterialTemplate("t", properties=[Mine("p", bounds=IntegerBounds(0, 1))])
  got = gj.loads(gj.dumps(t))
  assert type(got.properties[0][0]) is Mine, got.properties
  """)
B("C27-deps", "C27",
  [(G + "entity/base_entity.py", "        queue = [type(self)]\n", "        queue = [type(self), *type(self).__bases__]\n"),
   (G + "entity/base_entity.py", "                queue.extend(cls.__bases__)\n", "                pass\n")],
  "the dependencies of an object of a derived class",
  "the dependencies declared by the ancestors of a derived class are left out",
  DERIVED + """
  class Mine(MeasurementRun, typ=MeasurementRun.typ):
      pass
  from gemd.entity.object import MeasurementSpec
  s = MeasurementSpec("s")
  assert s in Mine("m", spec=s).all_dependencies()
  """)
B("C27-build-class", "C27",
  [(G + "json/gemd_json.py", "        index = {}\n        clazz_index = DictSerializable.class_mapping\n        clazz_index.update(self._clazz_index)\n        raw = json.loads(", "        index = {}\n        clazz_index = _known_classes()\n        clazz_index.update(self._clazz_index)\n        raw = json.loads("),
   (G + "json/gemd_json.py", "class GEMDJson(object):", "@functools.lru_cache(maxsize=None)\ndef _known_classes():\n    return DictSerializable.class_mapping\n\n\nclass GEMDJson(object):"),
   (G + "json/gemd_json.py", "import json\n", "import functools\nimport json\n")],
  "a class that takes over a tag after the first document was read",
  "documents give objects of the classes that were registered when the first was read",
  DERIVED + """
  gj.loads(gj.dumps(ProcessRun("p")))
  class Mine(ProcessRun, typ=ProcessRun.typ):
      pass
  assert type(gj.loads(gj.dumps(Mine("p")))) is Mine
  """, also=("C20",))
B("C27-skip", "C27",
  [(G + "entity/dict_serializable.py", "        cls.skip = {x for b in bases for x in getattr(b, 'skip', {})} | skip", "        cls.skip = {x for b in bases[:1] for x in vars(b).get('skip', {})} | skip")],
  "a class derived from a library class by way of several ancestors",
  "back-references become fields",
  DERIVED + """
  class Mix:
      pass
  class Mine(Mix, ProcessRun, typ=ProcessRun.typ):
      pass
  assert 'ingredients' not in Mine("p").as_dict()
  """)

# ---------------------------------------------------------------- sixth round
B("C01-scope-exact", "C01",
  [(G + "json/gemd_json.py", "object_index[(scope.lower(), uid)] = obj", "object_index[(scope.casefold() if len(obj.uids) < 2 else scope, uid)] = obj")],
  "an entity with two uids, one in a scope with capitals, and a link to it by that scope",
  "links by such a scope are not resolved when reading",
  """
  from gemd.entity.object import ProcessRun, ProcessSpec
  from gemd.entity.link_by_uid import LinkByUID
  import gemd.json as gj
  s = ProcessSpec("s", uids={"ID": "1", "other": "2"})
  r = ProcessRun("r", uids={"a": "b"}, spec=LinkByUID("ID", "1"))
  assert isinstance(gj.loads(gj.dumps([s, r]))[1].spec, ProcessSpec)
  """, also=("C20",))
B("C02-root-has-uid", "C02",
  [(G + "util/impl.py", "    if scope is not None:\n        set_uuids(obj, scope)", "    if scope is not None and not (cached_isinstance(obj, BaseEntity) and scope in obj.uids):\n        set_uuids(obj, scope)")],
  "a structure whose top has a uid in the scope while something below has none",
  "the entities below are refused for want of uids",
  """
  from gemd.entity.object import ProcessRun, ProcessSpec
  from gemd.util import flatten
  assert len(flatten(ProcessRun("r", uids={"auto": "1"}, spec=ProcessSpec("s")), scope="auto")) == 2
  """, also=("C01",))
B("C03-index-lower", "C03",
  [(G + "util/impl.py", "return ((LinkByUID(scope=scope, id=_obj.uids[scope]), _obj) for scope in _obj.uids)", "return ((LinkByUID(scope=scope.lower(), id=uid), _obj) for scope, uid in _obj.uids.items())")],
  "a scope with capitals",
  "an index holds scopes in lower case, so that links in the original spelling are not found",
  """
  from gemd.entity.object import ProcessRun
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.util.impl import make_index
  p = ProcessRun("p", uids={"My_ID": "1"})
  assert make_index(p).get(LinkByUID("My_ID", "1")) is p
  """)
B("C06-same-template", "C06",
  [(G + "entity/attribute/base_attribute.py", "            if self.value is not None and isinstance(template, AttributeTemplate):", "            if self.value is not None and template is not self._template \\\n                    and isinstance(template, AttributeTemplate):")],
  "a template whose bounds were changed being assigned again",
  "assigning the same template object again is not checked",
  """
  from gemd.entity.attribute import Property
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = PropertyTemplate("t", bounds=IntegerBounds(0, 9))
  p = Property("p", template=t, value=NominalInteger(5))
  t.bounds = IntegerBounds(0, 1)
  with validation_level(WarningLevel.FATAL):
      try:
          p.template = t
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C06-cached-check", "C06",
  [(G + "entity/attribute/base_attribute.py", "        accept = level == WarningLevel.IGNORE or template.bounds.contains(value)\n        if not accept:\n            message = f\"template.bounds", "        accept = level == WarningLevel.IGNORE or _contains(template.bounds, value)\n        if not accept:\n            message = f\"template.bounds"),
   (G + "entity/attribute/base_attribute.py", "class BaseAttribute(DictSerializable):", "@lru_cache(maxsize=512)\ndef _contains(bounds, value) -> bool:\n    return bounds.contains(value)\n\n\nclass BaseAttribute(DictSerializable):"),
   (G + "entity/attribute/base_attribute.py", "from abc import abstractmethod\n", "from abc import abstractmethod\nfrom functools import lru_cache\n")],
  "bounds or a value edited between two assignments of them",
  "the verdict on a value and bounds is remembered although they can be edited",
  """
  from gemd.entity.attribute import Property
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = PropertyTemplate("t", bounds=IntegerBounds(0, 9))
  v = NominalInteger(5)
  Property("p", template=t, value=v)
  t.bounds.upper_bound = 1
  with validation_level(WarningLevel.FATAL):
      try:
          Property("p", template=t, value=v)
      except ValueError:
          pass
      else:
          raise AssertionError
  """)
B("C07-other-kind", "C07",
  [(G + "entity/template/base_template.py", "                    if not first.bounds.contains(second):", "                    if isinstance(second, type(first.bounds)) \\\n                            and not first.bounds.contains(second):")],
  "restricted bounds of another kind than the template's",
  "restricted bounds of another kind are accepted",
  """
  from gemd.entity.template import ConditionTemplate, ProcessTemplate
  from gemd.entity.bounds import IntegerBounds, RealBounds
  t = ConditionTemplate("t", bounds=IntegerBounds(0, 9))
  try:
      ProcessTemplate("o", conditions=[(t, RealBounds(0, 1, ""))])
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
B("C07-first-template", "C07",
  [(G + "entity/object/has_spec.py", "        if isinstance(self.spec, HasTemplate):\n            return self.spec.template", "        if isinstance(self.spec, HasTemplate):\n            if self.spec not in _TEMPLATES:\n                _TEMPLATES[self.spec] = self.spec.template\n            return _TEMPLATES[self.spec] or self.spec.template"),
   (G + "entity/object/has_spec.py", "__all__ = [\"HasSpec\"]\n", "__all__ = [\"HasSpec\"]\n_TEMPLATES = WeakKeyDictionary()\n"),
   (G + "entity/object/has_spec.py", "from typing import Optional, Union, Set, Type\n", "from typing import Optional, Union, Set, Type\nfrom weakref import WeakKeyDictionary\n")],
  "a spec whose template is replaced after one of its runs was used",
  "runs go on to be checked against the template their spec had first",
  """
  from gemd.entity.attribute import Condition
  from gemd.entity.object import ProcessSpec, ProcessRun
  from gemd.entity.template import ConditionTemplate, ProcessTemplate
  from gemd.entity.bounds import IntegerBounds
  from gemd.entity.value import NominalInteger
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = ConditionTemplate("t", bounds=IntegerBounds(0, 9))
  s = ProcessSpec("s", template=ProcessTemplate("o", conditions=[t]))
  r = ProcessRun("r", spec=s)
  r.template
  s.template = ProcessTemplate("q", conditions=[(t, IntegerBounds(0, 1))])
  with validation_level(WarningLevel.FATAL):
      try:
          r.conditions.append(Condition("t", template=t, value=NominalInteger(5)))
      except ValueError:
          pass
      else:
          raise AssertionError
  """, also=("C24",))
B("C09-cache-strip", "C09",
  [(G + "units/impl.py", "        parsed = _REGISTRY.parse_units(_unmangle_scaling(units))\n", "        parsed = _REGISTRY.parse_units(_unmangle_scaling(units.strip(' _')))\n")],
  "names that end in an underscore or an undefined name made defined by taking it away",
  "an undefined name such as 'meter_' yields a unit",
  """
  from gemd.units import parse_units, UndefinedUnitError
  try:
      parse_units("meter_")
  except UndefinedUnitError:
      pass
  else:
      raise AssertionError
  """)
B("C10-int-result", "C10",
  [(G + "units/impl.py", "        return resolved_value.to(resolved_final_unit).magnitude\n", "        result = resolved_value.to(resolved_final_unit).magnitude\n        return round(result) if abs(result - round(result)) < 1e-9 else result\n")],
  "a result that is close to, but is not, a whole number",
  "conversions are rounded to whole numbers when close",
  """
  from gemd.units import convert_units
  assert convert_units(3, "pm", "m") == 3e-12 or abs(convert_units(3, "pm", "m") / 3e-12 - 1) < 1e-9
  """)
B("C10-dim-compare", "C10",
  [(G + "units/impl.py", "        root1 = _REGISTRY.get_root_units(resolved_value)[1]\n        root2 = _REGISTRY.get_root_units(resolved_final_unit)[1]\n        if root1 != root2:", "        root1 = _REGISTRY.get_root_units(resolved_value)[1]\n        root2 = _REGISTRY.get_root_units(resolved_final_unit)[1]\n        if root1 != root2 and not (root1 == _REGISTRY.radian ** 2 and root2.dimensionless):")],
  "a solid angle in square radians or steradians, and a dimensionless unit",
  "steradians convert to plain numbers",
  """
  from gemd.units import convert_units, IncompatibleUnitsError
  try:
      convert_units(1, "radian**2", "")
  except IncompatibleUnitsError:
      pass
  else:
      raise AssertionError
  """)
B("C13-contains-both", "C13",
  [(G + "entity/case_insensitive_dict.py", "        return self.lowercase_dict.__contains__(key.lower())", "        return super().__contains__(key) or self.lowercase_dict.__contains__(key.lower().strip())")],
  "a key with spaces around it that is not in the map",
  "a key that cannot be looked up counts as present",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  assert " a" not in CaseInsensitiveDict(a=1)
  """)
B("C14-iterable-str", "C14",
  [(G + "entity/setters.py", "    elif isinstance(obj, Iterable) and not isinstance(obj, str):", "    elif isinstance(obj, Iterable) and type(obj) is not str:")],
  "a lone text of a class derived from str, such as an enumeration member, as the only tag",
  "such a text is taken apart into letters",
  """
  from gemd.entity.object import ProcessRun
  from gemd.enumeration import Origin
  assert ProcessRun("p", tags=Origin.MEASURED).tags == ["measured"]
  """, also=("C24",))
B("C14-insert-negative", "C14",
  [(G + "entity/valid_list.py", "        super().insert(i, value)", "        super().insert(i if i >= 0 else max(len(self) + i, 0), value) if len(self) > 1 \\\n            else super().append(value)")],
  "inserting in front of a single item",
  "an insertion into a list of one goes to its end",
  """
  from gemd.entity.object import ProcessRun
  p = ProcessRun("p", tags=["b"])
  p.tags.insert(0, "a")
  assert p.tags == ["a", "b"]
  """)
B("C15-nbsp", "C15",
  [(G + "enumeration/base_enumeration.py", "str.lower(val).strip() in x.matches", "str.lower(val).strip(' \\t\\n') in x.matches")],
  "a spelling with another kind of white space around it",
  "spellings with carriage returns or form feeds around them are refused",
  """
  from gemd.enumeration import Origin
  assert Origin.from_str("\\r\\nmeasured\\x0b") is Origin.MEASURED
  """)
B("C15-missing-none", "C15",
  [(G + "enumeration/base_enumeration.py", "        if isinstance(value, str):\n            return cls.from_str(value)\n        else:\n            return None", "        if value is None or isinstance(value, str):\n            return cls.from_str(value or 'unknown')\n        else:\n            return None")],
  "an empty text given to an enumeration that has a member called unknown",
  "an empty text, or None, is accepted by construction",
  """
  from gemd.enumeration import Origin
  try:
      Origin("")
  except ValueError:
      pass
  else:
      raise AssertionError
  """)
B("C16-smiles-strip", "C16",
  [(G + "entity/value/smiles_value.py", "            self._smiles = value\n", "            self._smiles = value.strip() or value\n")],
  "an identifier with white space at an end",
  "an identifier is stored without the spaces around it",
  """
  from gemd.entity.value import Smiles
  assert Smiles("C ").smiles == "C "
  """)
B("C17-edge-labels", "C17",
  [(G + "builders/impl.py", "    if name is None:\n        name = input_material.name\n    my_ingredient_spec", "    if name is None:\n        name = input_material.spec.name\n    my_ingredient_spec")],
  "a material whose name differs from that of its spec",
  "the default name of an edge is the name of the spec of the material",
  """
  from gemd.builders import make_node, add_edge
  a, b = make_node("a"), make_node("b")
  a.name = "other"
  assert add_edge(a, b).name == "other"
  """)
B("C17-inchi-case", "C17",
  [(G + "builders/impl.py", "        if str(value).startswith(\"InChI=\"):", "        if str(value).startswith(\"InChI=1\"):")],
  "an identifier of another version",
  "an InChI of another version becomes a SMILES value",
  """
  from gemd.builders import make_value
  from gemd.entity.bounds import MolecularStructureBounds
  from gemd.entity.value import InChI
  assert isinstance(make_value("InChI=2S/CH4/h1H4", MolecularStructureBounds()), InChI)
  """)
B("C18-ingredient-process", "C18",
  [(G + "entity/util.py", "            seen[id(spec)].material = crawler(spec.material) if spec.material else None\n", "            seen[id(spec)].material = crawler(spec.material) \\\n                if spec.material and (spec.material.process or spec.process) else None\n")],
  "an ingredient spec without a process, whose material has none either",
  "the material of such an ingredient is not made",
  """
  from gemd.entity.object import IngredientSpec, MaterialSpec
  from gemd.entity.util import make_instance
  assert make_instance(IngredientSpec("i", material=MaterialSpec("m"))).material is not None
  """)
B("C19-foreach-frozen", "C19",
  [(G + "util/impl.py", "                and not cached_isinstance(this, (str, ByteString)):\n            for x in this:\n                queue.append(x)\n\n        if not apply_first", "                and not cached_isinstance(this, (str, ByteString, frozenset)):\n            for x in this:\n                queue.append(x)\n\n        if not apply_first")],
  "entities held in a frozen set",
  "entities in frozen sets are passed over",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import recursive_foreach
  p, seen = ProcessRun("p"), []
  recursive_foreach([frozenset([p])], seen.append)
  assert seen == [p]
  """)
B("C21-first-scope", "C21",
  [(G + "entity/link_by_uid.py", "            scope, uid = next((s, i) for s, i in entity.uids.items())", "            scope, uid = min((s, i) for s, i in entity.uids.items())"),
   (G + "entity/link_by_uid.py", "        if scope in entity.uids:\n            uid = entity.uids[scope]", "        if scope in entity.uids:\n            uid = dict(entity.uids).get(scope) or next(iter(entity.uids.values()))")],
  "a scope asked for in another letter case of an entity with several uids",
  "the link pairs the scope with the id of another scope",
  """
  from gemd.entity.object import ProcessRun
  from gemd.entity.link_by_uid import LinkByUID
  p = ProcessRun("p", uids={"a": "1", "b": "2"})
  assert LinkByUID.from_entity(p, scope="B").id == "2"
  """)
B("C23-foreach-seen", "C23",
  [(G + "entity/util.py", "    recursive_foreach(mat, body, apply_first=False)\n", "    recursive_foreach(mat, body, apply_first=False)\n    result = [x for i, x in enumerate(result) if x not in result[:i]]\n"),
   (G + "entity/util.py", "        copy = substitute_links(gemd_json.loads(gemd_json.dumps(obj)))", "        copy = substitute_links(gemd_json.loads(gemd_json.dumps(obj)))\n        copy.tags = sorted(copy.tags)")],
  "tags in an order of their own",
  "the history lists tags in another order",
  """
  from gemd.entity.object import MaterialRun
  from gemd.entity.util import complete_material_history
  assert complete_material_history(MaterialRun("m", tags=["b", "a"]))[0]["tags"] == ["b", "a"]
  """)
B("C24-source-shared", "C24",
  [(G + "entity/source/performed_source.py", "        elif isinstance(value, str):\n            self._performed_by = value", "        elif isinstance(value, str):\n            self._performed_by = value.strip()")],
  "a name with white space around it",
  "the performer reads back without spaces",
  """
  from gemd.entity.source.performed_source import PerformedSource
  assert PerformedSource(" a").performed_by == " a"
  """)
B("C24-sample-default", "C24",
  [(G + "entity/object/material_run.py", "        self._sample_type = SampleType.from_str(sample_type, exception=True)", "        found = SampleType.from_str(sample_type, exception=self._sample_type is None)\n        self._sample_type = found or self._sample_type")],
  "an unknown sample type assigned after construction",
  "a wrong sample type is silently ignored by assignment",
  """
  from gemd.entity.object import MaterialRun
  m = MaterialRun("m")
  try:
      m.sample_type = "nonsense"
  except ValueError:
      pass
  else:
      raise AssertionError
  """, also=("C15",))
# ---------------------------------------------------------------- round 7
B("C01-index-kept", "C01",
  [(G + "json/gemd_json.py", "        index = {}\n        clazz_index = DictSerializable.class_mapping\n        clazz_index.update(self._clazz_index)\n        raw = json.loads(",
    "        index = self.__dict__.setdefault(\"_index\", {})\n        clazz_index = DictSerializable.class_mapping\n        clazz_index.update(self._clazz_index)\n        raw = json.loads(")],
  "a document with a link to an object that an earlier document held",
  "a link to an absent object is resolved to an object of another document",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  from gemd.entity.link_by_uid import LinkByUID
  import gemd.json as gj
  gj.loads(gj.dumps(ProcessRun("p", uids={"a": "1"})))
  m = gj.loads(gj.dumps(MaterialRun("m", process=LinkByUID("a", "1"), uids={"a": "3"})))
  assert isinstance(m.process, LinkByUID)
  """)
B("C02-identity-set", "C02",
  [(G + "util/impl.py", "        if not any(uid in known_uids for uid in uids):\n            to_return = [base_obj]\n", "        if not any(uid in known_uids for uid in uids[:3]):\n            to_return = [base_obj]\n")],
  "separate copies that share only a fourth uid",
  "one entity is listed twice",
  """
  from gemd.entity.object import ProcessRun
  from gemd.util import flatten
  a = ProcessRun("p", uids={"a": "1", "b": "2", "c": "3", "z": "9"})
  b = ProcessRun("p", uids={"d": "1", "e": "2", "f": "3", "z": "9"})
  assert len(flatten([a, b])) == 1
  """)
B("C03-flat-index-reverse", "C03",
  [(G + "util/impl.py", "    for uid, target in recursive_flatmap(obj, _make_index):\n        idx[uid] = target", "    for uid, target in recursive_flatmap(obj, _make_index, unidirectional=not cached_isinstance(obj, BaseEntity)):\n        idx.setdefault(uid, target)")],
  "an index built from a process", "the index of a single entity holds objects that are only reachable backwards",
  """
  from gemd.entity.object import ProcessRun, IngredientRun
  from gemd.util import make_index
  p = ProcessRun("p", uids={"a": "1"})
  IngredientRun(process=p, uids={"a": "2"})
  assert len(make_index(p)) == 1
  """)
B("C05-comp-empty", "C05",
  [(G + "entity/bounds/composition_bounds.py", "        return bounds.components.issubset(self.components)", "        return not self.components or bounds.components.issubset(self.components)")],
  "composition bounds without components", "empty composition bounds admit everything",
  """
  from gemd.entity.bounds import CompositionBounds
  assert not CompositionBounds(set()).contains(CompositionBounds({"x"}))
  """)
B("C08-order", "C08",
  [(G + "entity/object/has_quantities.py", "            self._check(number_fraction)\n            self._number_fraction = number_fraction", "            self._number_fraction = number_fraction\n            self._check(number_fraction)")],
  "a refused number fraction", "a refused number fraction stays on the ingredient",
  """
  from gemd.entity.bounds_validation import WarningLevel, validation_level
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  i = IngredientRun()
  with validation_level(WarningLevel.FATAL):
      try:
          i.number_fraction = NominalReal(2, "")
      except ValueError:
          pass
  assert i.number_fraction is None
  """)
B("C12-len-uids", "C12",
  [(G + "entity/base_entity.py", "                    if len(that_list) == 0:\n                        if len(that_uids) > 0:  # But if it was flattened, uids will save us\n                            continue", "                    if len(that_list) <= 1:\n                        if len(that_uids) > 0:  # But if it was flattened, uids will save us\n                            continue")],
  "two objects with the same uids of which the right has one tag and the left several",
  "objects that differ in their tags are equal in one direction",
  """
  from gemd.entity.object import ProcessRun
  a = ProcessRun("p", uids={"a": "1"}, tags=["x", "y"])
  b = ProcessRun("p", uids={"a": "1"}, tags=["x"])
  assert a != b and b != a
  """)
B("C13-copy-plain", "C13",
  [(G + "entity/case_insensitive_dict.py", "        return CaseInsensitiveDict(super().copy())", "        result = CaseInsensitiveDict()\n        result.lowercase_dict = self.lowercase_dict\n        super(CaseInsensitiveDict, result).update(self)\n        return result")],
  "a copy of a map, edited", "the copy shares its index of keys with the original",
  """
  from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
  a = CaseInsensitiveDict(x=1)
  b = a.copy()
  b["y"] = 2
  assert "y" not in a
  """)
B("C14-type-exact", "C14",
  [(G + "entity/valid_list.py", "        self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().append(value)", "        if not self or type(value) is not type(self[-1]):\n            self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().append(value)")],
  "a list whose hook turns items into another type, so that its last item is not of an allowed type",
  "an item of a wrong type is accepted when the last stored one has the same type",
  """
  from gemd.entity.valid_list import ValidList
  x = ValidList([1], int, str)
  try:
      x.append("2")
  except TypeError:
      pass
  else:
      raise AssertionError
  """)
B("C15-migrate-value", "C15",
  [(G + "enumeration/base_enumeration.py", "                if name == old_value:", "                if name.upper() == old_value.upper():")],
  "item access with another case of the migrated name", "an item name that is none is accepted",
  """
  from gemd.enumeration.base_enumeration import BaseEnumeration, migrated_enum
  @migrated_enum(old_value="OLD", new_value="new", deprecated_in="0", removed_in="99")
  class E(BaseEnumeration):
      NEW = "new"
      old = "something else"
  assert E["old"].value == "something else"
  """)
B("C18-falsy-process", "C18",
  [(G + "entity/util.py", "            seen[id(spec)].process = crawler(spec.process) if spec.process else None", "            if spec.process and spec.process.output_material is spec:\n                seen[id(spec)].process = crawler(spec.process)")],
  "two material specs that give the same process spec (the earlier of which is displaced)",
  "a displaced material spec gives a run without a process",
  """
  from gemd.entity.object import ProcessSpec, MaterialSpec
  from gemd.entity.util import make_instance
  p = ProcessSpec("p")
  a = MaterialSpec("a", process=p)
  b = MaterialSpec("b", process=p)
  assert make_instance(a).process is not None
  """)
B("C19-deps-link", "C19",
  [(G + "entity/object/has_properties.py", "        return {prop.template for prop in self.properties if prop.template is not None}", "        return {prop.template for prop in self.properties if isinstance(prop.template, BaseEntity)}")],
  "a property of a run whose template is a link", "a link among the templates is not reported",
  """
  from gemd.entity.object import MeasurementRun
  from gemd.entity.attribute import Property
  from gemd.entity.link_by_uid import LinkByUID
  l = LinkByUID("a", "1")
  assert MeasurementRun("m", properties=[Property("x", template=l)]).all_dependencies() == {l}
  """)
B("C24-conditions-alias", "C24",
  [(G + "entity/setters.py", "    elif isinstance(obj, Iterable) and not isinstance(obj, str):\n        return ValidList(obj, typ, trigger)", "    elif type(obj) is ValidList and trigger is None and obj._trigger is None and isinstance(typ, type) and obj._content_type == (typ,):\n        return obj  # Already validated\n    elif isinstance(obj, Iterable) and not isinstance(obj, str):\n        return ValidList(obj, typ, trigger)")],
  "a list field without a hook assigned from another object's field",
  "two objects share one list of tags or file links",
  """
  from gemd.entity.object import ProcessRun
  a, b = ProcessRun("a", tags=["x"]), ProcessRun("b")
  b.tags = a.tags
  b.tags.append("y")
  assert a.tags == ["x"]
  """)
B("C25-ingest-tags", "C25",
  [(G + "demo/material_run_example.py", "        return [ingest_material_run(x, material_spec) for x in data]", "        return [ingest_material_run(x, material_spec) for x in data if x]")],
  "a list of records of which one is empty", "an empty record gives no material",
  """
  from gemd.demo.material_run_example import ingest_material_run
  assert len(ingest_material_run([{}, {"experiments": []}])) == 2
  """)
B("C25-flex-std", "C25",
  [(G + "demo/measurement_example.py", "    strain = 6 * deflection * thickness / (span * span)", "    strain = min(6 * deflection * thickness / (span * span), 0.005)")],
  "a deflection of more than 0.85 mm", "the strain is capped",
  """
  from gemd.demo.measurement_example import make_flexural_test_measurement
  m = make_flexural_test_measurement("a", 2.0)
  assert abs(m.properties[1].value.mean - 6 * 2.0 * 4 / 64 ** 2) < 1e-9
  """)
B("C26-template-shared", "C26",
  [(G + "entity/template/attribute_template.py", "    def all_dependencies(self):", "    def __deepcopy__(self, memo):\n        \"\"\"Templates are reference data, so a copy refers to the same ones.\"\"\"\n        return self\n\n    def all_dependencies(self):")],
  "a deep copy of an attribute template", "copies share their attribute templates",
  """
  from copy import deepcopy
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.bounds import RealBounds
  t = PropertyTemplate("t", bounds=RealBounds(0, 1, ""))
  assert deepcopy(t) is not t
  """)
B("C27-link-class", "C27",
  [(G + "json/gemd_json.py", "        if substitute and issubclass(clz, LinkByUID):  # sub it if possible", "        if substitute and typ == LinkByUID.typ and clz is LinkByUID:  # sub it if possible")],
  "a class derived from the link class that takes over its tag", "links of a derived class are never resolved",
  """
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.entity.object import ProcessRun, MaterialRun
  import gemd.json as gj
  class MyLink(LinkByUID, typ="link_by_uid"):
      pass
  p = ProcessRun("p", uids={"a": "1"})
  assert isinstance(gj.loads(gj.dumps(MaterialRun("m", process=p))).process, ProcessRun)
  """)
B("C27-spec-type", "C27",
  [(G + "entity/object/has_template.py", "        elif isinstance(template, (self._template_type(), LinkByUID)):", "        elif type(template) in (self._template_type(), LinkByUID):")],
  "a template of a derived class", "templates of derived classes are refused",
  """
  from gemd.entity.template import ProcessTemplate
  from gemd.entity.object import ProcessSpec
  class T(ProcessTemplate, typ="process_template"):
      pass
  ProcessSpec("p", template=T("t"))
  """)
B("C21-link-hash-eq", "C21",
  [(G + "entity/link_by_uid.py", "            return len(other) == 2 and (self.scope, self.id) == other", "            return len(other) == 2 and (self.scope, str(self.id)) == (other[0], str(other[1]))")],
  "a pair whose id is a number equal in print", "a link equals a pair that is no uid of it",
  """
  from gemd.entity.link_by_uid import LinkByUID
  assert LinkByUID("a", "1") != ("a", 1)
  """)
# ---------------------------------------------------------------- round 8
B("C19-deps-memo", "C19",
  [(G + "entity/base_entity.py", "        result = set()\n        queue = [type(self)]\n",
    "        from weakref import WeakKeyDictionary\n        memo = BaseEntity.__dict__.get(\"_dependency_memo\")\n        if memo is None:\n            memo = BaseEntity._dependency_memo = WeakKeyDictionary()\n        if self in memo:\n            return set(memo[self])\n        result = memo[self] = set()\n        queue = [type(self)]\n")],
  "dependencies asked for, a reference changed, and asked for again", "dependencies of an earlier state are reported",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  p = ProcessRun("p"); m = MaterialRun("m")
  assert m.all_dependencies() == set()
  m.process = p
  assert m.all_dependencies() == {p}
  """)
B("C21-link-memo", "C21",
  [(G + "entity/base_entity.py", "        uid = self.uids.get(scope, None)\n        if uid is None:",
    "        memo = type(self).__dict__.get(\"_id_memo\")\n        if memo is None:\n            memo = type(self)._id_memo = __import__(\"weakref\").WeakKeyDictionary()\n        uid = memo.setdefault(self, {}).setdefault(scope, self.uids.get(scope, None))\n        if uid is None:")],
  "a link made from an entity before one of its uids is replaced, and another after it",
  "the second link carries the former uid",
  """
  from gemd.entity.object import ProcessRun
  p = ProcessRun("p", uids={"a": "1"})
  p.to_link("a")
  p.uids["a"] = "2"
  assert p.to_link("a").id == "2"
  """)
B("C05-cat-memo", "C05",
  [(G + "entity/value/discrete_categorical.py", "        return CategoricalBounds(categories=set(self.probabilities))",
    "        if type(self).__dict__.get(\"_seen\") is None:\n            type(self)._seen = __import__(\"weakref\").WeakKeyDictionary()\n        if self not in self._seen:\n            self._seen[self] = CategoricalBounds(categories=set(self.probabilities))\n        return self._seen[self]")],
  "a value compared with bounds, given other probabilities, and compared again",
  "the value is judged by its former categories",
  """
  from gemd.entity.bounds import CategoricalBounds
  from gemd.entity.value import DiscreteCategorical
  v = DiscreteCategorical({"a": 1.0}); b = CategoricalBounds(["a"])
  assert b.contains(v)
  v.probabilities = {"b": 1.0}
  assert not b.contains(v)
  """)
B("C24-source-copy", "C24",
  [(G + "entity/object/has_source.py", "        elif isinstance(value, PerformedSource):\n            self._source = value", "        elif isinstance(value, PerformedSource):\n            self._source = PerformedSource(value.performed_by, value.performed_date)")],
  "a source given to an object and edited later", "the object holds another source than the one given",
  """
  from gemd.entity.object import ProcessRun
  from gemd.entity.source.performed_source import PerformedSource
  s = PerformedSource("me", "now")
  assert ProcessRun("p", source=s).source is s
  """)
B("C25-ingest-zero", "C25",
  [(G + "demo/table_example.py", "            if cond_name in row:", "            if row.get(cond_name):")],
  "a table with a condition that is zero", "that condition is missing from the data",
  """
  import pandas as pd
  from gemd.demo.table_example import ingest_table
  from gemd.entity.object import MaterialRun
  m = ingest_table(MaterialRun("m"), pd.DataFrame({"vapor pressure": [1.0], "temperature": [0.0]}))
  assert len(m.measurements[0].conditions) == 1
  """)
B("C05-mol-union", "C05",
  [(G + "entity/bounds/molecular_structure_bounds.py", "        if any(not isinstance(x, (MolecularStructureBounds, MolecularValue)) for x in others):", "        if not any(isinstance(x, (MolecularStructureBounds, MolecularValue)) for x in others):")],
  "a union of several things, one of them of another kind", "it is accepted (and one of nothing refused)",
  """
  from gemd.entity.bounds import MolecularStructureBounds as M, IntegerBounds
  try:
      M().union(M(), IntegerBounds(0, 1))
  except TypeError:
      pass
  else:
      raise AssertionError
  """)
B("C11-root-memo", "C11",
  [(G + "units/impl.py", "        root2 = _REGISTRY.get_root_units(resolved_final_unit)[1]",
    "        roots = convert_units.__dict__.setdefault(\"roots\", {})\n        root2 = roots.setdefault(final_unit, f\"{_REGISTRY.get_root_units(resolved_final_unit)[1]}\")\n        root1 = f\"{root1}\"")],
  "a unit converted to under one definitions file and, with another dimension, under the next",
  "a conversion that the new definitions allow is refused",
  """
  import os, tempfile
  from gemd.units import convert_units, change_definitions_file
  assert convert_units(1.0, "mile", "knot * hour") or True
  d = tempfile.mkdtemp()
  from gemd.units.impl import DEFAULT_FILE, DEFAULT_CONSTANTS
  text = DEFAULT_FILE.read_text()
  open(os.path.join(d, DEFAULT_CONSTANTS.name), "w").write(DEFAULT_CONSTANTS.read_text())
  assert "\\nzork" not in text
  a, b = os.path.join(d, "a.txt"), os.path.join(d, "b.txt")
  open(a, "w").write(text + "\\nzork = 3 * meter\\n")
  open(b, "w").write(text + "\\nzork = 3 * second\\n")
  change_definitions_file(a)
  assert convert_units(3.0, "meter", "zork") == 1.0
  change_definitions_file(b)
  assert convert_units(3.0, "second", "zork") == 1.0
  """)
B("C10-zero-shortcut", "C10",
  [(G + "units/impl.py", "    if starting_unit == final_unit:\n        return value", "    if starting_unit == final_unit or (value == 0 and \"deg\" not in f\"{starting_unit}{final_unit}\"):\n        return value")],
  "zero converted between units of different dimension, or from kelvin by another name",
  "a conversion of zero is never refused",
  """
  from gemd.units import convert_units, IncompatibleUnitsError
  try:
      convert_units(0.0, "meter", "second")
  except IncompatibleUnitsError:
      pass
  else:
      raise AssertionError
  """)
B("C17-edge-spec-name", "C17",
  [(G + "builders/impl.py", "        name = input_material.name\n", "        name = getattr(input_material.spec, \"name\", input_material.name)\n")],
  "an input material whose name differs from its spec's", "the ingredient gets the spec's name",
  """
  from gemd.builders import make_node, add_edge
  a, b = make_node("a"), make_node("b")
  a.name = "other"
  assert add_edge(a, b).name == "other"
  """)
B("C27-source-type", "C27",
  [(G + "entity/object/has_source.py", "        elif isinstance(value, PerformedSource):", "        elif type(value) is PerformedSource:")],
  "a source of a derived class", "it is refused",
  """
  from gemd.entity.object import ProcessRun
  from gemd.entity.source.performed_source import PerformedSource
  class S(PerformedSource, typ="performed_source"):
      pass
  ProcessRun("p", source=S("me", "now"))
  """)
B("C24-empty-url", "C24",
  [(G + "entity/file_link.py", "        self.url = url\n", "        self.url = url or filename\n")],
  "a file link with an empty address", "the address is the file name",
  """
  from gemd.entity.file_link import FileLink
  assert FileLink("a", "").url == ""
  """)
B("C16-comp-zero", "C16",
  [(G + "entity/value/nominal_composition.py", "            self._quantities = dict(quantities)", "            self._quantities = {k: v for k, v in quantities if v}")],
  "a composition given as pairs, with an amount of zero", "that component is lost",
  """
  from gemd.entity.value import NominalComposition
  assert NominalComposition([("a", 0), ("b", 1)]).quantities == {"a": 0, "b": 1}
  """)
B("C14-setitem-self", "C14",
  [(G + "entity/valid_list.py", "        self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().__setitem__(index, value)",
    "        if value in self[index:index + 1 or None]:\n            return\n        self._validate(value)\n        if self._trigger is not None:\n            result = self._trigger(value)\n            if result is not None:\n                value = result\n        super().__setitem__(index, value)")],
  "an item replaced by one equal to it", "the former item stays in the list",
  """
  from gemd.entity.object import ProcessRun, MaterialRun
  from gemd.entity.file_link import FileLink
  a, b = FileLink("a", "b"), FileLink("a", "b")
  p = ProcessRun("p", file_links=[a])
  p.file_links[0] = b
  assert p.file_links[0] is b
  """)
B("C19-foreach-guard", "C19",
  [(G + "util/impl.py", "    seen = set()\n    queue = [obj]\n\n    while queue:\n        this = queue.pop()\n        if this.__hash__ is not None and not cached_isinstance(this, (Tuple, Mapping)):\n            if this in seen:\n                continue\n            else:\n                seen.add(this)\n\n        if apply_first",
    "    # What the function did already in a call further up\n    busy = recursive_foreach.__dict__.setdefault(\"busy\", {})\n    seen = busy.setdefault(func, set())\n    queue = [obj]\n\n    while queue:\n        this = queue.pop()\n        if this.__hash__ is not None and not cached_isinstance(this, (Tuple, Mapping)):\n            if this in seen:\n                continue\n            else:\n                seen.add(this)\n\n        if apply_first"),
   (G + "util/impl.py", "        if not apply_first and cached_isinstance(this, BaseEntity):\n            func(this)\n\n    return\n",
    "        if not apply_first and cached_isinstance(this, BaseEntity):\n            func(this)\n\n    busy.pop(func, None)\n    return\n")],
  "a function that failed in an earlier traversal of the same structure",
  "the next traversal skips the entities that the failed one had reached",
  """
  from gemd.entity.object import MaterialRun, ProcessRun
  from gemd.util import recursive_foreach
  p = ProcessRun("p"); m = MaterialRun("m", process=p)
  got = []
  fail = [True]
  def func(x):
      if fail:
          fail.clear()
          raise KeyError
      got.append(x)
  try:
      recursive_foreach(m, func)
  except KeyError:
      pass
  recursive_foreach(m, func)
  assert len(got) == 2, got
  """)
# ---------------------------------------------------------------- round 9: answers remembered too long
B("C17-units-memo", "C17",
  [(G + "builders/impl.py", "        value = make_value(value, template.bounds)",
    "        known = make_attribute.__dict__.setdefault(\"bounds\", __import__(\"weakref\").WeakKeyDictionary())\n        value = make_value(value, known.setdefault(template, template.bounds))")],
  "an attribute made from a template whose bounds are replaced later, and another after that",
  "the later attribute gets units of the former bounds",
  """
  from gemd.builders import make_attribute
  from gemd.entity.bounds import RealBounds
  from gemd.entity.template import PropertyTemplate
  t = PropertyTemplate("t", bounds=RealBounds(0, 1, "m"))
  make_attribute(t, 0.5)
  t.bounds = RealBounds(0, 1, "kg")
  assert make_attribute(t, 0.5).value.units == "kilogram"
  """)
B("C18-order-memo", "C18",
  [(G + "entity/util.py", "            for x in spec.ingredients:\n                crawler(x).process = seen[id(spec)]",
    "            known = make_instance.__dict__.setdefault(\"steps\", __import__(\"weakref\").WeakKeyDictionary())\n            for x in known.setdefault(spec, list(spec.ingredients)):\n                crawler(x).process = seen[id(spec)]")],
  "a process spec instantiated, given another ingredient, and instantiated again",
  "the second instance lacks that ingredient",
  """
  from gemd.entity.object import ProcessSpec, IngredientSpec
  from gemd.entity.util import make_instance
  p = ProcessSpec("p")
  make_instance(p)
  IngredientSpec("i", process=p)
  assert len(make_instance(p).ingredients) == 1
  """)
B("C03-index-memo", "C03",
  [(G + "util/impl.py", "    def _make_index(_obj: BaseEntity):\n        return ((LinkByUID(scope=scope, id=_obj.uids[scope]), _obj) for scope in _obj.uids)\n",
    "    links = make_index.__dict__.setdefault(\"links\", __import__(\"weakref\").WeakKeyDictionary())\n\n    def _make_index(_obj: BaseEntity):\n        scopes = links.setdefault(_obj, {})\n        return [(scopes.setdefault(scope, LinkByUID(scope=scope, id=_obj.uids[scope])), _obj) for scope in _obj.uids]\n")],
  "an index made of entities one of whose ids is replaced later, and another index after that",
  "the second index holds the former id",
  """
  from gemd.entity.object import ProcessRun
  from gemd.entity.link_by_uid import LinkByUID
  from gemd.util import make_index
  p = ProcessRun("p", uids={"a": "1"})
  make_index(p)
  p.uids["a"] = "2"
  assert make_index(p)[LinkByUID("a", "2")] is p
  """)
# ---------------------------------------------------------------- round 10: verdicts and lookups remembered
B("C08-verdict-memo", "C08",
  [(G + "entity/object/has_quantities.py", "        accept = level == WarningLevel.IGNORE or fraction_bounds.contains(value)\n",
    "        known = HasQuantities.__dict__.get(\"_judged\") or __import__(\"collections\").OrderedDict()\n        HasQuantities._judged = known\n        if id(value) in known and known[id(value)][0] is value:\n            fits = known[id(value)][1]\n        else:\n            fits = fraction_bounds.contains(value)\n            known[id(value)] = value, fits\n            while len(known) > 8:\n                known.popitem(last=False)\n        accept = level == WarningLevel.IGNORE or fits\n")],
  "a value checked as a fraction, edited, and assigned again shortly afterwards",
  "the former verdict is used again",
  """
  from gemd.entity.object import IngredientRun
  from gemd.entity.value import NominalReal
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  v = NominalReal(0.5, "")
  r = IngredientRun(mass_fraction=v)
  v.nominal = 2.0
  with validation_level(WarningLevel.FATAL):
      try:
          r.mass_fraction = v
      except ValueError:
          pass
      else:
          assert False, "2.0 accepted"
  """)
B("C06-checked-memo", "C06",
  [(G + "entity/attribute/base_attribute.py", "        accept = level == WarningLevel.IGNORE or template.bounds.contains(value)\n",
    "        accept = level == WarningLevel.IGNORE or value.__dict__.get(\"_fits\") is template.bounds\n        if not accept:\n            accept = template.bounds.contains(value)\n            if accept and level == WarningLevel.FATAL:\n                value.__dict__[\"_fits\"] = template.bounds\n")],
  "a value accepted at the fatal level, edited beyond the bounds, and offered again",
  "it is accepted because it was accepted before",
  """
  from gemd.entity.attribute import Property
  from gemd.entity.template import PropertyTemplate
  from gemd.entity.bounds import RealBounds
  from gemd.entity.value import NominalReal
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = PropertyTemplate("t", bounds=RealBounds(0, 1, ""))
  v = NominalReal(0.5, "")
  with validation_level(WarningLevel.FATAL):
      p = Property("p", template=t, value=v)
      v.nominal = 2.0
      try:
          p.value = v
      except ValueError:
          pass
      else:
          assert False, "2.0 accepted"
  """)
B("C22-store-once", "C22",
  [(G + "entity/object/ingredient_run.py", "            self._name = self.spec.name\n            self._labels = validate_list(self.spec.labels, str)\n",
    "            if self._name != self.spec.name or self._labels is None:\n                self._labels = validate_list(self.spec.labels, str)\n            self._name = self.spec.name\n")],
  "a spec replaced twice by links, with labels edited in between under the same name",
  "the labels of the first time are kept",
  """
  from gemd.entity.object import IngredientRun, IngredientSpec
  from gemd.entity.link_by_uid import LinkByUID
  s = IngredientSpec("i", labels=["a"])
  r = IngredientRun(spec=s)
  r.spec = LinkByUID("x", "1")
  r.spec = s
  s.labels.append("b")
  r.spec = LinkByUID("x", "1")
  assert list(r.labels) == ["a", "b"], r.labels
  """)
B("C07-match-memo", "C07",
  [(G + "entity/template/has_parameter_templates.py", "            attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),\n                             (None, None))\n",
    "            known = _MATCHES.setdefault(self, {})\n            key = parameter.template, len(self.parameters)\n            if key not in known:\n                known[key] = next((x for x in self.parameters if parameter.template == x[0]), (None, None))\n            attr, bnd = known[key]\n"),
   (G + "entity/template/has_parameter_templates.py", "\nclass HasParameterTemplates(", "\n_MATCHES = __import__(\"weakref\").WeakKeyDictionary()\n\n\nclass HasParameterTemplates(")],
  "a parameter matched by its template, the entry replaced by one with other bounds, and another parameter added",
  "the former entry decides",
  """
  from gemd.entity.attribute import Parameter
  from gemd.entity.object import ProcessSpec
  from gemd.entity.template import ParameterTemplate, ProcessTemplate
  from gemd.entity.bounds import RealBounds
  from gemd.entity.value import NominalReal
  from gemd.entity.bounds_validation import validation_level, WarningLevel
  t = ParameterTemplate("t", bounds=RealBounds(0, 9, ""))
  pt = ProcessTemplate("pt", parameters=[[t, RealBounds(0, 5, "")]])
  s = ProcessSpec("s", template=pt)
  with validation_level(WarningLevel.FATAL):
      s.parameters.append(Parameter("t", template=t, value=NominalReal(4, "")))
      pt.parameters[0] = [t, RealBounds(0, 1, "")]
      try:
          s.parameters.append(Parameter("u", template=t, value=NominalReal(4, "")))
      except ValueError:
          pass
      else:
          assert False
  """)
