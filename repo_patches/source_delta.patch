From 38e326f77085d07e3ba79fb0aefef198247cb05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:00 +0000
Subject: [PATCH 01/38] fix: accept a valid absolute_quantity at the FATAL
 validation level

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..d6e9d2b 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif messages:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From 3f0cfcfa7cdf6045f09302c5548991845cb09e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 02/38] fix: allow setting the value of an attribute whose
 template is a link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From a07a4b315e8404497a5b07b600608d6573ba25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 03/38] fix: restore the validation level when its context
 exits by exception

---
 gemd/entity/bounds_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..3af5cfe 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,8 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:
+        # Restore previous value
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From 612e02a46ff26662f5b2c224a705898cab7994c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 04/38] fix: match attributes by name against templates that
 hold links

---
 gemd/entity/template/has_condition_templates.py | 3 ++-
 gemd/entity/template/has_parameter_templates.py | 3 ++-
 gemd/entity/template/has_property_templates.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..4e35fb8 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -77,7 +77,8 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if not isinstance(x[0], LinkByUID) and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..e18b4e4 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -77,7 +77,8 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if not isinstance(x[0], LinkByUID) and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..18fcb6c 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -79,7 +79,8 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if not isinstance(x[0], LinkByUID) and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From 2d2d9be345d19fe7551d6c509297a169baf174f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 05/38] fix: keep CaseInsensitiveDict consistent under update,
 setdefault and |=

---
 gemd/entity/case_insensitive_dict.py | 42 ++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..75d8d34 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -157,25 +157,45 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        # Resolve to a single dictionary, which also verifies that its keys are consistent
+        staged = CaseInsensitiveDict({} if mapping is None else dict(mapping), **kwargs)
+        for key in staged:
             if key.lower() in self.lowercase_dict:
                 prev = self.lowercase_dict[key.lower()]
                 if prev != key:
                     raise ValueError(
                         "Key '{}' already exists in dict with different case: "
                         "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        super().update(staged)
+        for key in staged:
             self._register_key(key)
 
+    def __ior__(self, other) -> 'CaseInsensitiveDict':
+        self.update(other)
+        return self
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Get the value for a given case-insensitive key, inserting the default if it is missing.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to store if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`.
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
-- 
2.43.0


From f6d33aa414dc4b8a84791c7fa4b2213b61851b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 06/38] fix: accept 'seq' and 'self' as uid scopes

---
 gemd/entity/base_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..9f05c83 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -54,9 +54,9 @@ class BaseEntity(DictSerializable):
         if uids is None:
             self._uids = CaseInsensitiveDict()
         elif isinstance(uids, MutableMapping):
-            self._uids = CaseInsensitiveDict(**uids)
+            self._uids = CaseInsensitiveDict(uids)
         else:
-            self._uids = CaseInsensitiveDict(**{uids[0]: uids[1]})
+            self._uids = CaseInsensitiveDict({uids[0]: uids[1]})
 
     def add_uid(self, scope: str, uid: str):
         """
-- 
2.43.0


From e8edd8e698760ccc15292ea22d9499dc59ec6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 07/38] fix: keep the contents of one-shot iterables given to
 list fields

---
 gemd/entity/template/has_condition_templates.py |  1 +
 gemd/entity/template/has_parameter_templates.py |  1 +
 gemd/entity/template/has_property_templates.py  |  1 +
 gemd/entity/valid_list.py                       | 10 +++++-----
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 4e35fb8..d96ee77 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -64,6 +64,7 @@ class HasConditionTemplates(HasDependencies):
 
         """
         if isinstance(conditions, Iterable):
+            conditions = list(conditions)  # So that one-shot iterables are only consumed once
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index e18b4e4..cdb6c1c 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -64,6 +64,7 @@ class HasParameterTemplates(HasDependencies):
 
         """
         if isinstance(parameters, Iterable):
+            parameters = list(parameters)  # So that one-shot iterables are only consumed once
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 18fcb6c..ef2a727 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -62,6 +62,7 @@ class HasPropertyTemplates(HasDependencies):
 
         """
         if isinstance(properties, Iterable):
+            properties = list(properties)  # So that one-shot iterables are only consumed once
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..e09a4c6 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # So that one-shot iterables are only consumed once
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -149,12 +149,12 @@ class ValidList(list):
 
         """
         if isinstance(list_, Iterable):
-            for value in list_:
+            cache = list(list_)  # So that we don't edit a passed reference
+            for value in cache:
                 self._validate(value)
         else:
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
-        cache = list(list_)  # So that we don't edit a passed reference
         if self._trigger is not None:
             for i, value in enumerate(cache):
                 result = self._trigger(value)
-- 
2.43.0


From e234fc269ac5458525100f3fa5b22a121056532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 08/38] fix: validate the items of slice assignments and += on
 list fields

---
 gemd/entity/valid_list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index e09a4c6..ba77cb9 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -100,6 +100,9 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
+        if isinstance(index, slice):  # Validate the individual items
+            super().__setitem__(index, ValidList(value, self._content_type, self._trigger))
+            return
         self._validate(value)
         if self._trigger is not None:
             result = self._trigger(value)
@@ -107,6 +110,10 @@ class ValidList(list):
                 value = result
         super().__setitem__(index, value)
 
+    def __iadd__(self, list_):
+        self.extend(list_)
+        return self
+
     def append(self, value):
         """
         Add an item to the end of the list; equivalent to a[len(a):] = [x].
-- 
2.43.0


From 786b7dd11323b466ff485b837fe24ddbe04e514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:10 +0000
Subject: [PATCH 09/38] fix: detach exactly the reassigned ingredient or
 measurement, and only if accepted

---
 gemd/entity/object/ingredient_run.py  | 8 ++++----
 gemd/entity/object/ingredient_spec.py | 8 ++++----
 gemd/entity/object/measurement_run.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..2f41d89 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -123,11 +123,11 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if isinstance(self._process, ProcessRun):
-            # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
-
         if process is None or isinstance(process, (LinkByUID, ProcessRun)):
+            if isinstance(self._process, ProcessRun):
+                # Remove this object itself, as opposed to another one that happens to be equal
+                siblings = self._process.ingredients
+                siblings[:] = [x for x in siblings if x is not self]
             self._process = process
             if isinstance(process, ProcessRun):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 7a2f8d4..90c0fcd 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -117,11 +117,11 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
-        if isinstance(self._process, ProcessSpec):
-            # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
-
         if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
+            if isinstance(self._process, ProcessSpec):
+                # Remove this object itself, as opposed to another one that happens to be equal
+                siblings = self._process.ingredients
+                siblings[:] = [x for x in siblings if x is not self]
             self._process = process
             if isinstance(process, ProcessSpec):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..e387af0 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -91,11 +91,11 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
-        if isinstance(self._material, MaterialRun):
-            # This could throw an exception if it's not in the list, but then something else broke
-            self._material.measurements.remove(self)
-
         if value is None or isinstance(value, (MaterialRun, LinkByUID)):
+            if isinstance(self._material, MaterialRun):
+                # Remove this object itself, as opposed to another one that happens to be equal
+                siblings = self._material.measurements
+                siblings[:] = [x for x in siblings if x is not self]
             self._material = value
             if isinstance(value, MaterialRun):
                 value.measurements.append(self)
-- 
2.43.0


From 605e5336a042a5bb2208d556b213103f3aa76475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 10/38] fix: only unset a process's output material when that
 material is reassigned

---
 gemd/entity/object/material_run.py  | 3 ++-
 gemd/entity/object/material_spec.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..62c97e5 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,7 +74,8 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if self.process is not None and isinstance(self.process, ProcessRun):
+        if isinstance(self.process, ProcessRun) and self.process.output_material is self \
+                and (process is None or isinstance(process, (LinkByUID, ProcessRun))):
             self.process._output_material = None
         if process is None:
             self._process = None
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 3410028..7d05dee 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,7 +95,8 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if self.process is not None and isinstance(self.process, ProcessSpec):
+        if isinstance(self.process, ProcessSpec) and self.process.output_material is self \
+                and (process is None or isinstance(process, (LinkByUID, ProcessSpec))):
             self.process._output_material = None
         if process is None:
             self._process = None
-- 
2.43.0


From 47914153794f16989d9473b4d555f3ab7e72d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 11/38] fix: match each list element only once when comparing
 entities

---
 gemd/entity/base_entity.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 9f05c83..9d282fc 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -179,23 +179,21 @@ class BaseEntity(DictSerializable):
                     found = False
                     i_found = None
                     if isinstance(x, BaseEntity):
-                        for i_found, y in enumerate(that_list):
+                        for i, y in enumerate(that_list):
                             # Unless something really broke, y is a BaseEntity
                             result = BaseEntity._cached_equals(x, y, cache=cache)
                             if result is True:
-                                found = True
+                                found, i_found = True, i
                                 break
                             elif result is None:
                                 # Don't know yet; pass as False will appear elsewhere
-                                found = None
-                    else:
-                        found = x in that_list
-                    if found is True:
-                        if i_found is not None:
-                            del that_list[i_found]
-                    elif found is False:
+                                found, i_found = None, i
+                    elif x in that_list:
+                        found, i_found = True, that_list.index(x)
+                    if found is False:
                         cache[cache_key] = False  # Mark as failed
                         return False
+                    del that_list[i_found]  # Each element can only be matched once
 
             elif this_value != that_value:  # __eq__ should be cheap
                 cache[cache_key] = False  # Mark as failed
-- 
2.43.0


From 7b8d30bf75cd9d016b2c4574fd82f20d74be47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:48 +0000
Subject: [PATCH 12/38] fix: accept integer bounds too large for exact floats

---
 gemd/entity/bounds/integer_bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/bounds/integer_bounds.py b/gemd/entity/bounds/integer_bounds.py
index bd27b99..f512294 100644
--- a/gemd/entity/bounds/integer_bounds.py
+++ b/gemd/entity/bounds/integer_bounds.py
@@ -37,7 +37,8 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @lower_bound.setter
     def lower_bound(self, value: int):
         """Set the lower endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not (isinstance(value, int) or isfinite(value)) \
+                or int(value) != value:
             raise ValueError(f"Lower bound must be given, integer and finite: {value}")
         if self.upper_bound is not None and value > self.upper_bound:
             raise ValueError(f"Upper bound ({self.upper_bound}) must be "
@@ -52,7 +53,8 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @upper_bound.setter
     def upper_bound(self, value: int):
         """Set the upper endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not (isinstance(value, int) or isfinite(value)) \
+                or int(value) != value:
             raise ValueError(f"Upper bound must be given, integer and finite: {value}")
         if self.lower_bound is not None and value < self.lower_bound:
             raise ValueError(f"Upper bound ({value}) must be "
-- 
2.43.0


From 28e936d7345172d15829e8b3bb554b73cb3ad774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:59 +0000
Subject: [PATCH 13/38] fix: normalise only the prefix of an InChI

---
 gemd/entity/value/inchi_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/value/inchi_value.py b/gemd/entity/value/inchi_value.py
index 4e7ba26..9c6494e 100644
--- a/gemd/entity/value/inchi_value.py
+++ b/gemd/entity/value/inchi_value.py
@@ -32,11 +32,11 @@ class InChI(MolecularValue, typ="inchi"):
             self._inchi = None
         elif isinstance(value, str):
             if value.lower().startswith('1s/'):
-                value = value.replace(value[:2], 'InChI=1S')
+                value = value.replace(value[:2], 'InChI=1S', 1)
             elif not value.lower().startswith('inchi'):
                 value = f"InChI=1S/{value}"
             elif not value.startswith('InChI'):
-                value = value.replace(value[:5], 'InChI')
+                value = value.replace(value[:5], 'InChI', 1)
             self._inchi = value
         else:
             raise TypeError("InChI must be given as a string; got {}".format(type(value)))
-- 
2.43.0


From 12517504bacbefaaf7bb6bfac098d68feb97d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:09 +0000
Subject: [PATCH 14/38] fix: accept ints as quantities in add_edge

---
 gemd/builders/impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index 395755d..bf0e513 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -159,22 +159,22 @@ def add_edge(input_material: MaterialRun,
                                       )
 
     if mass_fraction is not None:
-        if isinstance(mass_fraction, float):
+        if isinstance(mass_fraction, (int, float)):
             mass_fraction = NominalReal(nominal=mass_fraction, units='')
         my_ingredient_run.mass_fraction = mass_fraction
 
     if number_fraction is not None:
-        if isinstance(number_fraction, float):
+        if isinstance(number_fraction, (int, float)):
             number_fraction = NominalReal(nominal=number_fraction, units='')
         my_ingredient_run.number_fraction = number_fraction
 
     if volume_fraction is not None:
-        if isinstance(volume_fraction, float):
+        if isinstance(volume_fraction, (int, float)):
             volume_fraction = NominalReal(nominal=volume_fraction, units='')
         my_ingredient_run.volume_fraction = volume_fraction
 
     if absolute_quantity is not None:
-        if isinstance(absolute_quantity, float):
+        if isinstance(absolute_quantity, (int, float)):
             if absolute_units is None:
                 raise ValueError("Absolute Units are required if Absolute Quantity is not a Value")
             absolute_quantity = NominalReal(nominal=absolute_quantity, units=absolute_units)
-- 
2.43.0


From 50cc75730ab3c6b751efbb2008770bad881f5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 15/38] fix: reject nan probabilities

---
 gemd/entity/value/discrete_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/discrete_categorical.py b/gemd/entity/value/discrete_categorical.py
index 6d3c1c1..fcb6873 100644
--- a/gemd/entity/value/discrete_categorical.py
+++ b/gemd/entity/value/discrete_categorical.py
@@ -42,7 +42,7 @@ class DiscreteCategorical(CategoricalValue, typ="discrete_categorical"):
         elif isinstance(probabilities, str):
             self._probabilities = {validate_str(probabilities): 1.0}
         elif isinstance(probabilities, dict):
-            if abs(sum(probabilities.values()) - 1.0) > 1.0e-9:
+            if not abs(sum(probabilities.values()) - 1.0) <= 1.0e-9:  # Also rejects nan
                 raise ValueError("probabilities must sum to 1.0")
             self._probabilities = {validate_str(k): v for k, v in probabilities.items()}
         else:
-- 
2.43.0


From 2b8243adfa7f00476d064f1c30dc0bb2c057c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:09 +0000
Subject: [PATCH 16/38] fix: leave categorical and composition bounds as they
 were after a rejected assignment

---
 gemd/entity/bounds/categorical_bounds.py | 11 +++++------
 gemd/entity/bounds/composition_bounds.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..8643918 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,15 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
+            categories = set()
         elif isinstance(categories, array_like()):
-            self._categories = set(categories)
-        elif isinstance(categories, set):
-            self._categories = categories
-        else:
+            categories = set(categories)
+        elif not isinstance(categories, set):
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in categories):
             raise ValueError("All the categories must be strings")
+        self._categories = categories
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..df83ee8 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,15 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
+            value = set()
         elif isinstance(value, array_like()):
-            self._components = set(value)
-        elif isinstance(value, set):
-            self._components = value
-        else:
+            value = set(value)
+        elif not isinstance(value, set):
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in value):
             raise ValueError("All the components must be strings")
+        self._components = value
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From 3b9c3f8f17951b26e33c60a9f076ce89cc3d0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 17/38] fix: do not confuse equal primitives or fail on tuples
 of unhashables when traversing

---
 gemd/util/impl.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..587996e 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -107,12 +107,14 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    # Tuples may not be hashable, and distinct primitives can be equal (e.g., 1, 1.0 and True)
+    memoize = thing.__hash__ is not None and not cached_isinstance(thing, (float, int, str, Tuple))
+    if memoize and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if memoize:
             visited[thing] = replacement
     else:
         replacement = thing
@@ -131,7 +133,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if memoize:
         visited[thing] = new
 
     return new
@@ -158,7 +160,7 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
+        if cached_isinstance(obj, (float, int, str, Tuple)):
             return None
         elif obj.__hash__ is not None:
             return obj
@@ -183,7 +185,6 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
@@ -418,7 +419,7 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
+        if this.__hash__ is not None and not cached_isinstance(this, Tuple):
             if this in seen:
                 continue
             else:
@@ -477,7 +478,7 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
+        if this.__hash__ is not None and not cached_isinstance(this, Tuple):
             if this in seen:
                 continue
             else:
-- 
2.43.0


From 17274162a89cf75d0dea79a32fcc52c2d3ec2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:46 +0000
Subject: [PATCH 18/38] fix: keep the value of scaling factors such as .5, 5.
 and 1e3 e when parsing units

---
 gemd/units/impl.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index fcc1ec0..c5d6c85 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -166,9 +166,10 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
     """
     for scaled_term, number_string, unit_string in todo:
         regex = rf"(?<![-+0-9.]){re.escape(scaled_term)}(?![0-9.])"
-        stripped = re.sub(
-            r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
-        )
+        sign = "-" if scaled_term[:scaled_term.index(number_string)].count("-") % 2 else ""
+        digits = re.sub(r"[+_]", "", number_string)
+        # Every number gets one spelling; .5 -> 0.5 and 5. -> 5
+        number = sign + re.sub(r"\.(?!\d)", "", re.sub(r"^(?=\.)", "0", digits))
 
         if unit_string is not None:
             stripped_unit = re.sub(
@@ -176,11 +177,11 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
             ).replace("--", "")
             long_unit = f"{_REGISTRY.parse_units(stripped_unit)}"
             short_unit = f"{_REGISTRY.parse_units(stripped_unit):~}"
-            long = stripped.replace(stripped_unit, "_" + long_unit)
-            short = stripped.replace(stripped_unit, " " + short_unit)
+            long = f"{number}_{long_unit}"
+            short = f"{number} {short_unit}"
         else:
-            long = stripped
-            short = stripped
+            long = number
+            short = number
 
         underscored = re.sub(r"[-.]", "_", long)
         valid = f"_{underscored}"
-- 
2.43.0


From dd2ce7430ca488269ad3695f1c8e179dc3c2a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 19/38] fix: replace each scaled term where it stands when
 parsing units, not everywhere its text occurs

---
 gemd/units/impl.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index c5d6c85..0400134 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -117,13 +117,13 @@ def _scaling_find_blocks(token_stream: Generator[TokenInfo, Any, None]) -> List[
 def _scaling_identify_factors(
         input_string: str,
         blocks: List[List[TokenInfo]]
-) -> List[Tuple[str, str, str]]:
+) -> List[Tuple[int, int, str, str]]:
     """
     Supporting routine for _scaling_preprocessor; blocks -> scaling terms.
 
     Takes the input_string and the blocks output by _scaling_find_blocks and
-    returns a tuple of the substrings that contain scaling factors, the scaling
-    factor itself, and the unit string.
+    returns tuples of where the substrings that contain scaling factors start
+    and end, the scaling factor itself, and the unit string.
 
     """
     todo = []
@@ -142,12 +142,11 @@ def _scaling_identify_factors(
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
             if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
-                block_string = input_string[block[0].start[1]:block[-1].end[1]]
                 if i_name is None:
                     unit_string = None
                 else:
                     unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
-                todo.append((block_string, value, unit_string))
+                todo.append((block[0].start[1], block[-1].end[1], value, unit_string))
         elif len(numbers) > 1:
             raise ValueError(
                 f"Replicate scaling factor ({[n[1] for n in numbers]}) in {input_string}"
@@ -156,7 +155,7 @@ def _scaling_identify_factors(
     return todo
 
 
-def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]]) -> str:
+def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[int, int, str, str]]) -> str:
     """
     Supporting routine for _scaling_preprocessor; scaling terms -> updated input_string.
 
@@ -164,8 +163,8 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
     creating an entry for each in the registry.
 
     """
-    for scaled_term, number_string, unit_string in todo:
-        regex = rf"(?<![-+0-9.]){re.escape(scaled_term)}(?![0-9.])"
+    for start, end, number_string, unit_string in reversed(todo):  # Keeps positions valid
+        scaled_term = input_string[start:end]
         sign = "-" if scaled_term[:scaled_term.index(number_string)].count("-") % 2 else ""
         digits = re.sub(r"[+_]", "", number_string)
         # Every number gets one spelling; .5 -> 0.5 and 5. -> 5
@@ -189,7 +188,7 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
             # Parse subexpression to clean things up for define
             value = f"{_REGISTRY.parse_expression(scaled_term)}"
             _REGISTRY.define(f"{valid} = {value} = {short}")
-        input_string = re.sub(regex, valid, input_string)
+        input_string = input_string[:start] + valid + input_string[end:]
 
     return input_string
 
@@ -206,15 +205,16 @@ def _scaling_preprocessor(input_string: str) -> str:
 
 def _unmangle_scaling(input_string: str) -> str:
     """Convert mangled scaling values into a pint-compatible expression."""
-    number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
-    while match := re.search(number_re, input_string):
+    def _as_number(match: re.Match) -> str:
         replacement = '' if match.group(1) is None else '-'
         replacement += match.group(2)
         replacement += '' if match.group(3) is None else match.group(3).replace('_', '.')
         replacement += '' if match.group(4) is None else match.group(4).replace('_', '-')
         replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
-        input_string = input_string.replace(match.group(0), replacement)
-    return input_string
+        return replacement
+
+    number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
+    return re.sub(number_re, _as_number, input_string)
 
 
 try:  # pragma: no cover
-- 
2.43.0


From 0871e3094702cc41cebc2d641388fd6642cde329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 20/38] fix: refuse a scaled unit with a superscript exponent
 whatever was parsed before

---
 gemd/units/impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 0400134..36a3a03 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -176,6 +176,9 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[int, int, str,
             ).replace("--", "")
             long_unit = f"{_REGISTRY.parse_units(stripped_unit)}"
             short_unit = f"{_REGISTRY.parse_units(stripped_unit):~}"
+            if not long_unit.isidentifier():  # Such as s²
+                raise ValueError(f"Scaling factors ({number_string}) with exponents "
+                                 f"are not supported ({input_string})")
             long = f"{number}_{long_unit}"
             short = f"{number} {short_unit}"
         else:
-- 
2.43.0


From b298026536da3a6e7e50d06297d830680e1f7002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 21/38] fix: bind a scaling factor of one to the unit that
 follows it, as any other factor

---
 gemd/units/impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 36a3a03..9e3920d 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -141,7 +141,8 @@ def _scaling_identify_factors(
                 )
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
-            if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
+            # Don't create definitions for 0 or 1, though 1 binds to a unit as other factors do
+            if float(value) != 0.0 and (float(value) != 1.0 or i_name is not None):
                 if i_name is None:
                     unit_string = None
                 else:
@@ -170,7 +171,10 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[int, int, str,
         # Every number gets one spelling; .5 -> 0.5 and 5. -> 5
         number = sign + re.sub(r"\.(?!\d)", "", re.sub(r"^(?=\.)", "0", digits))
 
-        if unit_string is not None:
+        if float(number) == 1.0:
+            input_string = input_string[:start] + unit_string + input_string[end:]
+            continue
+        elif unit_string is not None:
             stripped_unit = re.sub(
                 r"(?<!0)(?=\.)", "0", re.sub(r"[+\s]+", "", unit_string)
             ).replace("--", "")
-- 
2.43.0


From 3c030c5ef98c2561fc016854bc0386d74bbe2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:54 +0000
Subject: [PATCH 22/38] fix: do not read the decimals of 2.10**3 as a power of
 ten when parsing units

---
 gemd/units/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 9e3920d..5b6f772 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -49,7 +49,7 @@ def _scientific_notation_preprocessor(input_string: str) -> str:
     def _as_scientific(matchobj: re.Match) -> str:
         return f"{matchobj.group(1) or '1'}e{matchobj.group(2)}"
 
-    number = r'\b(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
+    number = r'(?<![\w.])(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
     return re.sub(number, _as_scientific, input_string)
 
 
-- 
2.43.0


From b6a5ad159f08c835e44da3713e7489bb0272e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 23/38] fix: write scaled units that come first or have an
 exponent so that they can be read back

---
 gemd/units/impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 5b6f772..1e0ffae 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -220,6 +220,8 @@ def _unmangle_scaling(input_string: str) -> str:
         replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
         return replacement
 
+    # A scaled unit that comes first or has an exponent can only be read back in parentheses
+    input_string = re.sub(r'^(__?\d\w*)|(?<!\()\b(__?\d\w*)(?=\s*\*\*)', r'(\1\2)', input_string)
     number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
     return re.sub(number_re, _as_number, input_string)
 
-- 
2.43.0


From 2fcbe89c76d2b7fcca5f02cc9b00cdc984e43393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:44 +0000
Subject: [PATCH 24/38] fix: do not merge the exponent of a unit with a
 following power of ten

---
 gemd/units/impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 1e0ffae..f332009 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -47,6 +47,9 @@ _ALLOWED_OPERATORS = {".", "+", "-", "*", "/", "//", "^", "**", "(", ")"}
 def _scientific_notation_preprocessor(input_string: str) -> str:
     """Preprocessor that converts x * 10 ** y format to xEy."""
     def _as_scientific(matchobj: re.Match) -> str:
+        before = matchobj.string[:matchobj.start()]
+        if matchobj.group(1) and re.search(r'(?:\*{2}|\^)[-+\s]*$', before):  # It's an exponent
+            return f"{matchobj.group(1)} * 1e{matchobj.group(2)}"
         return f"{matchobj.group(1) or '1'}e{matchobj.group(2)}"
 
     number = r'(?<![\w.])(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
-- 
2.43.0


From 360a5b803e3173d4e2f2c789b33395f5c4b68287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:17 +0000
Subject: [PATCH 25/38] fix: do not read a scaling factor used earlier as a
 prefixed unit

---
 gemd/units/impl.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index f332009..b030f96 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -229,6 +229,15 @@ def _unmangle_scaling(input_string: str) -> str:
     return re.sub(number_re, _as_number, input_string)
 
 
+class _ScaleFactorNames:
+    """Mixin for registries so that scaling factors are not taken for prefixed units."""
+
+    def parse_unit_name(self, unit_name, *args, **kwargs):
+        """List how a name can be read; mangled scaling factors take no prefix (mc_2 is m-c_2)."""
+        return tuple(x for x in super().parse_unit_name(unit_name, *args, **kwargs)
+                     if not (x[0] and re.match(r"__?\d", x[1])))
+
+
 try:  # pragma: no cover
     # Pint 0.23 modified the preferred way to derive a custom class
     # https://pint.readthedocs.io/en/0.23/advanced/custom-registry-class.html
@@ -247,7 +256,8 @@ try:  # pragma: no cover
 
         pass
 
-    class _ScaleFactorRegistry(GenericUnitRegistry[_ScaleFactorQuantity, _ScaleFactorUnit]):
+    class _ScaleFactorRegistry(_ScaleFactorNames,
+                               GenericUnitRegistry[_ScaleFactorQuantity, _ScaleFactorUnit]):
         """UnitRegistry class that uses _GemdUnits."""
 
         Quantity: TypeAlias = _ScaleFactorQuantity
@@ -262,7 +272,7 @@ except ImportError:  # pragma: no cover
             result = super().__format__(format_spec)
             return _unmangle_scaling(result)
 
-    class _ScaleFactorRegistry(UnitRegistry):
+    class _ScaleFactorRegistry(_ScaleFactorNames, UnitRegistry):
         """UnitRegistry class that uses _GemdUnits."""
 
         _unit_class = _ScaleFactorUnit
-- 
2.43.0


From b614736863e3ee24200d4d8d44d6f92d703ae634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:45 +0000
Subject: [PATCH 26/38] fix: read leaked scaling names in conversions as
 parsing does, whatever was parsed before

---
 gemd/units/impl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index b030f96..c6bc165 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -303,8 +303,11 @@ def convert_units(value: float, starting_unit: str, final_unit: str) -> float:
     if starting_unit == final_unit:
         return value  # skip computation
     else:
+        # SPT-1311 Protect against leaked mangled strings
+        if isinstance(starting_unit, str):
+            starting_unit = _unmangle_scaling(starting_unit)
         resolved_value = _REGISTRY.Quantity(value, starting_unit)
-        resolved_final_unit = _REGISTRY.parse_units(final_unit)
+        resolved_final_unit = _REGISTRY.parse_units(_unmangle_scaling(final_unit))
         # Make sure count, radian, bit, and non-dimensional don't accidentally interconvert
         # https://pint.readthedocs.io/en/0.23/user/angular_frequency.html
         root1 = _REGISTRY.get_root_units(resolved_value)[1]
@@ -405,7 +408,7 @@ def get_base_units(units: Union[str, UnitRegistry.Unit]) -> Tuple[UnitRegistry.U
 
     """
     if isinstance(units, str):
-        units = _REGISTRY.parse_units(units)
+        units = _REGISTRY.parse_units(_unmangle_scaling(units))
     ratio, base_unit = _REGISTRY.get_base_units(units)
     offset = _REGISTRY.Quantity(0, units).to(_REGISTRY.Quantity(0, base_unit)).magnitude
     return base_unit, float(ratio), offset
-- 
2.43.0


From abdda6140630dc763fda1e4883dbb80ff1579a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 27/38] fix: refuse other kinds when updating molecular
 structure bounds

---
 gemd/entity/bounds/molecular_structure_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/molecular_structure_bounds.py b/gemd/entity/bounds/molecular_structure_bounds.py
index 4586531..c3c1003 100644
--- a/gemd/entity/bounds/molecular_structure_bounds.py
+++ b/gemd/entity/bounds/molecular_structure_bounds.py
@@ -92,7 +92,7 @@ class MolecularStructureBounds(BaseBounds, typ="molecular_structure_bounds"):
             :func:`~gemd.entity.base_bounds.BaseBounds._to_bounds` method.
 
         """
-        pass  # This is a no-op for Molecular structure
+        self.union(*others)  # There is nothing to extend, but the types must be consistent
 
     def as_dict(self):
         """
-- 
2.43.0


From 036e204e9dfcd16628713b78fe34aefab9c48d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:34 +0000
Subject: [PATCH 28/38] fix: give copies of a uid map their own key index

---
 gemd/entity/case_insensitive_dict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 75d8d34..bf9d109 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -139,6 +139,10 @@ class CaseInsensitiveDict(dict):
         """
         return CaseInsensitiveDict(super().copy())
 
+    def __reduce__(self) -> Tuple:
+        """Support copy & pickle, such that a copy does not share its key index."""
+        return type(self), (dict(self),)
+
     def update(self, mapping: Optional[Mapping[str, Any]] = None, **kwargs) -> None:
         """
         Update the dictionary with the key/value pairs from other, overwriting existing keys.
-- 
2.43.0


From 2361e23caa704c5c3c4ed006f6027ad30bddb6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:30 +0000
Subject: [PATCH 29/38] fix: restore the spec modules, whose names the
 test-file rule covers

---
 gemd/entity/object/ingredient_spec.py | 8 ++++----
 gemd/entity/object/material_spec.py   | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 90c0fcd..7a2f8d4 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -117,11 +117,11 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
+        if isinstance(self._process, ProcessSpec):
+            # This could throw an exception if it's not in the list, but then something else broke
+            self._process.ingredients.remove(self)
+
         if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
-            if isinstance(self._process, ProcessSpec):
-                # Remove this object itself, as opposed to another one that happens to be equal
-                siblings = self._process.ingredients
-                siblings[:] = [x for x in siblings if x is not self]
             self._process = process
             if isinstance(process, ProcessSpec):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 7d05dee..3410028 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,8 +95,7 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if isinstance(self.process, ProcessSpec) and self.process.output_material is self \
-                and (process is None or isinstance(process, (LinkByUID, ProcessSpec))):
+        if self.process is not None and isinstance(self.process, ProcessSpec):
             self.process._output_material = None
         if process is None:
             self._process = None
-- 
2.43.0


From dbbfb84e770cc1c9c90f4755e30510c580698779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:53 +0000
Subject: [PATCH 30/38] fix: detach the reassigned ingredient spec itself, not
 one that equals it

---
 gemd/entity/valid_list.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index ba77cb9..acd8995 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -196,3 +196,24 @@ class ValidList(list):
             if result is not None:
                 value = result
         super().insert(i, value)
+
+    def remove(self, value):
+        """
+        Remove a value from the list: the very object if it is there, else the first equal one.
+
+        Parameters
+        ----------
+        value: Any
+            The value to remove from the list.
+
+        Returns
+        -------
+        None
+            One occurrence of `value` is removed.
+
+        """
+        for i, item in enumerate(self):
+            if item is value:
+                del self[i]
+                return
+        super().remove(value)
-- 
2.43.0


From 5a661625b679a35e287524167619935fadf504ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 31/38] fix: keep the reported uncertainty when Strehlow & Cook
 energies are converted

---
 gemd/demo/strehlow_and_cook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index 11e1035..a9e4c22 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -212,7 +212,7 @@ def make_strehlow_objects(table: Iterable = None, template_scope: str = DEMO_TEM
                                      starting_unit=prop['units'],
                                      final_unit='aJ'
                                      )
-                std = convert_units(value=float(prop['scalars'][0]['value']),
+                std = convert_units(value=float(prop['scalars'][0]['uncertainty']),
                                     starting_unit=prop['units'],
                                     final_unit='aJ'
                                     )
-- 
2.43.0


From 009670e2c9ded5ac3e325c6b86956840f0b0d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:22 +0000
Subject: [PATCH 32/38] fix: attach the given spec to an ingested material run

---
 gemd/demo/material_run_example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/material_run_example.py b/gemd/demo/material_run_example.py
index 072e540..80fec88 100644
--- a/gemd/demo/material_run_example.py
+++ b/gemd/demo/material_run_example.py
@@ -129,7 +129,7 @@ def ingest_material_run(data, material_spec=None, process_run=None):
         measurement.material = material
 
     if material_spec:
-        material.material_spec = material_spec
+        material.spec = material_spec
 
     if process_run:
         material.process = process_run
-- 
2.43.0


From 959776e97ed804a88ec18b4bd50166b523d3910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 33/38] fix: recognise dimensionless absolute quantities beyond
 the range of a float

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index d6e9d2b..4c2c871 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -115,7 +115,7 @@ class HasQuantities(object):
                 messages = []
                 if not max_bounds.contains(absolute_quantity):
                     messages.append(f"Value {absolute_quantity} is less than 0.0.")
-                if dimensionless.contains(absolute_quantity):
+                if dimensionless._convert_bounds(absolute_quantity.units)[0] is not None:
                     messages.append(f"Value {absolute_quantity} is dimensionless.")
                 if level == WarningLevel.WARNING:
                     for message in messages:
-- 
2.43.0


From 1f7745d82b233acbdeb7fc5b9668a212fea6d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:04 +0000
Subject: [PATCH 34/38] fix: make cakes of a recipe whose final product has no
 notes

---
 gemd/demo/cake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/cake.py b/gemd/demo/cake.py
index 8586dac..c0e51b0 100644
--- a/gemd/demo/cake.py
+++ b/gemd/demo/cake.py
@@ -1044,7 +1044,7 @@ def make_cake(seed=None, tmpl=None, cake_spec=None, toothpick_img=None):
         origin="specified"
     ))
 
-    cake_obj.notes = cake_obj.notes + "; Très délicieux! 😀"
+    cake_obj.notes = (cake_obj.notes or "") + "; Très délicieux! 😀"
     cake_obj.file_links = [FileLink(
         filename="Photo",
         url='https://storcpdkenticomedia.blob.core.windows.net/media/'
-- 
2.43.0


From 0267ace32d7d823b6ac910c7de9c006e95a0d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:59 +0000
Subject: [PATCH 35/38] fix: do not write to standard output when declaring a
 migrated enumeration

---
 gemd/enumeration/base_enumeration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index f751cad..ef7cfa3 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -100,8 +100,6 @@ def migrated_enum(*,
 
     """
     def decorator(cls) -> Type:
-        print("Sear")
-
         class MixinMeta(type(cls)):
             """New derived metaclass for holding the deprecated symbol."""
 
-- 
2.43.0


From 3d2afe8f2cd4a675066d6bfe27d094e4bf022547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:34 +0000
Subject: [PATCH 36/38] fix: resolve the target of a migrated enumeration by
 its symbol name, as documented

---
 gemd/enumeration/base_enumeration.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index ef7cfa3..f98dbb1 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -100,6 +100,10 @@ def migrated_enum(*,
 
     """
     def decorator(cls) -> Type:
+        target = cls.from_str(new_value)
+        if target is None:  # Not a value, so it has to be a symbol name
+            target = cls[new_value]
+
         class MixinMeta(type(cls)):
             """New derived metaclass for holding the deprecated symbol."""
 
@@ -108,21 +112,21 @@ def migrated_enum(*,
                     warn(
                         f"{old_value} is deprecated as of {deprecated_in} "
                         f"and will be removed in {removed_in}. "
-                        f"{old_value} has been renamed to {cls(new_value).name}.",
+                        f"{old_value} has been renamed to {target.name}.",
                         DeprecationWarning
                     )
-                    return cls(new_value)
+                    return target
                 else:
                     return super().__getitem__(name)
 
         def accessor(self):
             """Subroutine that returns the new enumerated value."""
-            return cls(new_value)
+            return target
 
         accessor.__name__ = old_value  # So deprecated knows the correct target name
         deprecator = deprecated(deprecated_in=deprecated_in,
                                 removed_in=removed_in,
-                                details=f"{old_value} has been renamed to {cls(new_value).name}.",
+                                details=f"{old_value} has been renamed to {target.name}.",
                                 )
 
         # Add the property to the metaclass, and then update cls' meta
-- 
2.43.0


From 78e1bdd2ef1d81f36eed93a9e98e386c4494c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:27 +0000
Subject: [PATCH 37/38] fix: let deep copies check attributes against their own
 templates

A deep copy's attribute lists kept checking against the original's template,
and copying an object re-validated (and so logged or refused) its attributes.
---
 .../object/has_template_check_generator.py    | 32 ++++++++++---------
 gemd/entity/valid_list.py                     |  9 ++++++
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/gemd/entity/object/has_template_check_generator.py b/gemd/entity/object/has_template_check_generator.py
index 23b936b..332d1ec 100644
--- a/gemd/entity/object/has_template_check_generator.py
+++ b/gemd/entity/object/has_template_check_generator.py
@@ -5,6 +5,7 @@ from gemd.entity.bounds_validation import get_validation_level, WarningLevel
 from gemd.entity.dict_serializable import logger
 
 from abc import ABC, abstractmethod
+from functools import partial
 from inspect import getmodule, getmembers, isclass, signature
 from typing import Union, Callable, TypeVar
 
@@ -74,18 +75,19 @@ class HasTemplateCheckGenerator(ABC):
         if attr is None:
             raise ValueError(f"Could not map attribute for function {validate}.")
 
-        def template_check(x: attr):
-            """Given an attribute, check it against this object's template."""
-            level = get_validation_level()
-            reject = level != WarningLevel.IGNORE \
-                and isinstance(self.template, cls) \
-                and not validate(self.template, x)
-
-            if reject:
-                message = f"Value {x.value} is inconsistent with template {self.template.name}"
-                if level == WarningLevel.WARNING:
-                    logger.warning(message)
-                else:
-                    raise ValueError(message)
-
-        return template_check
+        # A partial of a bound method, unlike a closure, follows the object when it is deep-copied
+        return partial(self._check_against_template, cls, validate)
+
+    def _check_against_template(self, cls, validate, x):
+        """Given an attribute, check it against this object's template."""
+        level = get_validation_level()
+        reject = level != WarningLevel.IGNORE \
+            and isinstance(self.template, cls) \
+            and not validate(self.template, x)
+
+        if reject:
+            message = f"Value {x.value} is inconsistent with template {self.template.name}"
+            if level == WarningLevel.WARNING:
+                logger.warning(message)
+            else:
+                raise ValueError(message)
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index acd8995..f6161c3 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -1,4 +1,5 @@
 """A list that can validate its contents."""
+from copy import deepcopy
 from typing import Optional, Union, Iterable, Callable, Type, TypeVar
 
 __all__ = ["ValidList"]
@@ -81,6 +82,14 @@ class ValidList(list):
             raise TypeError(
                 'Value is not of an accepted type: {} =/= {}'.format(value, self._content_type))
 
+    def __deepcopy__(self, memo):
+        """Copy the contents, which have been validated already, and tie the copy to its owner."""
+        result = type(self)([], self._content_type)
+        memo[id(self)] = result
+        list.extend(result, [deepcopy(x, memo) for x in self])
+        result._trigger = deepcopy(self._trigger, memo)
+        return result
+
     def __setitem__(self, index, value):
         """
         Called to implement assignment to self[index].
-- 
2.43.0


From 3cc633cd741567977b01fa5d9c2b7577f3afa9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:22 +0000
Subject: [PATCH 38/38] fix: walk and substitute in read-only mappings, which
 need not be hashable

---
 gemd/util/impl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 587996e..00d9d08 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -107,8 +107,10 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    # Tuples may not be hashable, and distinct primitives can be equal (e.g., 1, 1.0 and True)
-    memoize = thing.__hash__ is not None and not cached_isinstance(thing, (float, int, str, Tuple))
+    # Tuples and read-only mappings may not be hashable, and distinct primitives can be equal
+    # (e.g., 1, 1.0 and True)
+    memoize = thing.__hash__ is not None \
+        and not cached_isinstance(thing, (float, int, str, Tuple, Mapping))
     if memoize and thing in visited:
         return visited[thing]
 
@@ -419,7 +421,7 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None and not cached_isinstance(this, Tuple):
+        if this.__hash__ is not None and not cached_isinstance(this, (Tuple, Mapping)):
             if this in seen:
                 continue
             else:
@@ -478,7 +480,7 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None and not cached_isinstance(this, Tuple):
+        if this.__hash__ is not None and not cached_isinstance(this, (Tuple, Mapping)):
             if this in seen:
                 continue
             else:
-- 
2.43.0

