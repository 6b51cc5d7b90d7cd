From 7423ca0c7a31a00ad0b70d07ce2f0e924ca38578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 01/45] fix: step() no longer deletes the checkpoint it just
 wrote or resumed from

---
 hyperstate/hyperstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..fa1e3da 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,7 +136,10 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            if (
+                self._last_checkpoint is not None
+                and self._last_checkpoint != checkpoint_dir
+            ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
-- 
2.43.0


From d7cfddfa8db9bca303248d32e7fe669eabd00f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 02/45] fix: register schedules of fields nested more than two
 levels deep

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index fa1e3da..921ae9b 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -441,7 +441,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From bb8b3a4ecd7a06d33cc580ef69a3033984dbb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 03/45] fix: apply and persist schedules of values inside lists
 and dicts

---
 hyperstate/hyperstate.py | 35 +++++++++++++++++++++++++++++++++--
 hyperstate/serde.py      |  4 ++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 921ae9b..8d9cc7c 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -224,7 +224,38 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
             schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            _apply_schedules(state, getattr(config, field_name), schedule)
+            _apply_schedules(state, _get_segment(config, field_name), schedule)
+
+
+def _split_segment(segment: str) -> List[Any]:
+    # "field[0][1]" -> ["field", 0, 1]
+    name, *indices = segment.replace("]", "").split("[")
+    return [name, *map(int, indices)]
+
+
+def _get_key(obj: Any, key: Any) -> Any:
+    if isinstance(obj, (dict, list, tuple)):
+        return obj[key]
+    return getattr(obj, key)
+
+
+def _get_segment(obj: Any, segment: str) -> Any:
+    for key in _split_segment(segment):
+        obj = _get_key(obj, key)
+    return obj
+
+
+def _set_keys(obj: Any, keys: List[Any], value: Any) -> Any:
+    key, *rest = keys
+    if rest:
+        value = _set_keys(_get_key(obj, key), rest, value)
+    if isinstance(obj, tuple):
+        return (*obj[:key], value, *obj[key + 1 :])
+    if isinstance(obj, (dict, list)):
+        obj[key] = value
+    else:
+        setattr(obj, key, value)
+    return obj
 
 
 def _typed_dump(
@@ -435,7 +466,7 @@ class ScheduleDeserializer(Deserializer):
             def update(self: T, state: Any) -> None:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                setattr(self, field_name, cls(value))  # type: ignore
+                _set_keys(self, _split_segment(field_name), cls(value))  # type: ignore
 
             schedules = self.schedules
             for segment in path.split(".")[:-1]:
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..7b7cfae 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -107,7 +107,7 @@ def asdict(
                 v,
                 named_tuples,
                 serializers,
-                file=str(i) if file == "" else f"{file}.{i}",
+                file=f"{file}[{i}]",
             )
             for i, v in enumerate(value)
         ]
@@ -117,7 +117,7 @@ def asdict(
                 v,
                 named_tuples,
                 serializers,
-                file=str(i) if file == "" else f"{file}.{i}",
+                file=f"{file}[{i}]",
             )
             for i, v in enumerate(value)
         )
-- 
2.43.0


From 1d07d46e76d194c1dec2b295880b6c88e160bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 04/45] fix: serialize enums by value so that they can be
 loaded again

from_dict and the schema tools identify enum members by value.
---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 7b7cfae..8de014e 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 509792b0ee1911dc6f9b072f7ee623e8051221e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 05/45] fix: RejectValues keeps values that are still allowed

---
 hyperstate/schema/rewrite_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..1325741 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -159,7 +159,7 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
+        value, present = _get(state_dict, self.field)
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
-- 
2.43.0


From c574f264e5112c453899a43b498b7624d7a89b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 06/45] fix: RejectValues can be applied to the schema of its
 field

---
 hyperstate/schema/rewrite_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 1325741..0858428 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -169,7 +169,7 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
+        assert isinstance(field.type, types.Literal)
         _insert_schema(
             schema,
             self.field,
@@ -178,7 +178,7 @@ class RejectValues(RewriteRule):
                 type=types.Literal(
                     [
                         v
-                        for v in schema.allowed_values
+                        for v in field.type.allowed_values
                         if v not in self.disallowed_values
                     ]
                 ),
-- 
2.43.0


From 594f65703a5fff04bc8dabf2d116923e6caed45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:31 +0000
Subject: [PATCH 07/45] fix: CheckValue ignores fields of absent optional
 structs

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 0858428..099e35f 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -207,7 +207,9 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
         if field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+        if state_dict is None:
+            return None, False
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From e757efd55da749480890f110eff3ea919207b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:05 +0000
Subject: [PATCH 08/45] fix: upgrade rules also apply to structs that are
 absent from the config

---
 hyperstate/serde.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 8de014e..7d71980 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -318,27 +318,24 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        _fpath = f"{fpath}.{_field_name}" if fpath else _field_name
+        weak_ref = weak_refs.get(_field_name, MISSING)
+        is_weak_struct = isinstance(weak_ref, dict) and WEAK_REF in weak_ref
+        if weak_ref is not MISSING and not is_weak_struct:
+            kwargs[field.name] = from_dict(field.type, weak_ref, fpath=_fpath)
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
                 _kwargs: Dict[str, Any] = {}
-                _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
-                    f"{fpath}.{_field_name}" if fpath else _field_name,
-                    weak_refs=_weak_refs,
+                    field.type.__dataclass_fields__.keys(),
+                    _fpath,
+                    weak_refs=weak_ref if is_weak_struct else {},
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From f33e22bcc543431a5b31c92812e0391834f9af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 09/45] fix: reject overrides that set a bool field to a
 non-boolean value

---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 8d9cc7c..2c1e097 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -432,6 +432,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected a boolean value for field '{key}', but found '{str_val}'."
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From 6ad75f88013b16188a2cfd8b5070c817163a5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:15 +0000
Subject: [PATCH 10/45] fix: overrides take precedence over values moved by
 upgrade rules

---
 hyperstate/hyperstate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 2c1e097..875d806 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -17,11 +17,12 @@ from typing import (
     Tuple,
     Union,
 )
-from dataclasses import MISSING, dataclass
+from dataclasses import MISSING, dataclass, is_dataclass
 import uuid
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
+from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.versioned import (
     Versioned,
     VersionedSerializer,
@@ -301,13 +302,12 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
+    # Overrides refer to fields of the current version, so upgrades must be applied first
+    deserializers: List[Deserializer] = [VersionedDeserializer(allow_missing_version)]
     if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
+        deserializers.append(OverridesDeserializer(overrides))
     schedules = ScheduleDeserializer()
     deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -442,7 +442,11 @@ class OverridesDeserializer(Deserializer):
             for segment in fpath[:-1]:
                 if segment not in _value or _value[segment] is None:
                     _value[segment] = {}
+                elif is_dataclass(_value[segment]):
+                    _value[segment] = asdict(_value[segment])
                 _value = _value[segment]
+                # The struct is now explicitly set, even if upgrade rules only supplied defaults
+                _value.pop(WEAK_REF, None)
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
-- 
2.43.0


From 6295907e53b1c0343b2ea9bf0e7f8f42a62cdf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 11/45] fix: use the state dict returned by upgrade rules

---
 hyperstate/schema/versioned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..6aad800 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -77,6 +77,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
+                return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From 085e5e548601f4df409aa17dd679574c8982668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 12/45] fix: StateManager rejects versioned config files
 without a version

isinstance() on the config class is always False, so such files were
silently read as if they had been written by the current version.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 875d806..421f5a9 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -167,7 +167,7 @@ class StateManager(Generic[C, S]):
             file=path,
             overrides=self.overrides or [],
             allow_missing_version=path is None
-            or not isinstance(self.config_cls, Versioned),
+            or not issubclass(self.config_cls, Versioned),
             ignore_extra_fields=self.ignore_extra_fields,
         )
 
-- 
2.43.0


From 88321a693f2305bc3493d6fabbdbc7d3e835d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 13/45] fix: load versioned structs that are given as overrides
 or defaults

---
 hyperstate/schema/versioned.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 6aad800..5042b1b 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -3,10 +3,12 @@ from collections import namedtuple
 from dataclasses import dataclass
 from inspect import isclass
 from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
-from hyperstate.schema import namedtuple_utils, types
+from hyperstate.schema import types
 from hyperstate.serde import (
     Deserializer,
     Serializer,
+    asdict,
+    isnamedtupleinstance,
 )
 
 from hyperstate.schema.rewrite_rule import RewriteRule
@@ -62,11 +64,13 @@ class VersionedDeserializer(Deserializer):
         path: str,
     ) -> Tuple[Optional[T], bool, bool]:
         if isclass(clz) and issubclass(clz, Versioned):
+            if isnamedtupleinstance(value):
+                value = value._asdict()
             if isinstance(value, dict):
                 version = value.pop("version", None)
-            elif hasattr(value, "version"):
-                version = value.version
-                value = namedtuple_utils.remove_field(value, "version")
+            elif isinstance(value, Versioned):
+                version = value.version()
+                value = asdict(value)
             else:
                 version = None
 
@@ -77,7 +81,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
-                return value, True, False
+            return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From 1b7bfdf3cc7026f9f3ff07b7a15faec0ab8910e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 14/45] fix: ignore_extra_fields also applies to nested structs

---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 7d71980..90fa736 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -220,14 +220,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -237,7 +237,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -274,6 +274,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From 72ded04647affb41397f1e591b3c0525f95e9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 15/45] fix: report unsupported types instead of starting a
 debugger

---
 hyperstate/schema/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..af77d57 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -290,7 +290,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From d874b26642cb06d9500ef716bdf16ccb50cd880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 16/45] fix: schema files and schema checks support Tuple,
 Dict, and Union

---
 hyperstate/schema/schema_checker.py | 18 ++++++++++++++++++
 hyperstate/schema/types.py          |  8 ++++++++
 2 files changed, 26 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..bd81808 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -100,6 +100,24 @@ class SchemaChecker:
         elif isinstance(old, t.List):
             assert isinstance(new, t.List)
             self._find_changes(old.inner, new.inner, path)
+        elif isinstance(old, t.Tuple):
+            assert isinstance(new, t.Tuple)
+            if len(old.inner) != len(new.inner):
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for old_inner, new_inner in zip(old.inner, new.inner):
+                    self._find_changes(old_inner, new_inner, path)
+        elif isinstance(old, t.Dict):
+            assert isinstance(new, t.Dict)
+            self._find_changes(old.key, new.key, path)
+            self._find_changes(old.val, new.val, path)
+        elif isinstance(old, t.Union):
+            assert isinstance(new, t.Union)
+            if len(old.types) != len(new.types):
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for old_type, new_type in zip(old.types, new.types):
+                    self._find_changes(old_type, new_type, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
             for name, field in new.fields.items():
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index af77d57..c3b7ca1 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -308,6 +308,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(type) for type in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-- 
2.43.0


From ae04f45f82cdb58f3b6d29e5fed408053ba965c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 17/45] fix: compare the types of struct fields and optionals
 in the right direction

A type whose values cannot be loaded as the new type was considered a
subtype of it, so check-schema accepted incompatible changes.
---
 hyperstate/schema/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index c3b7ca1..57771a1 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -205,9 +205,10 @@ class Struct:
             isinstance(other, Struct)
             and all(
                 k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
+                and self.fields[k].type.is_subtype(other.fields[k].type)
                 for k in self.fields
             )
+            and all(k in self.fields or f.has_default for k, f in other.fields.items())
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
 
@@ -220,7 +221,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 1253b30da62e0f491861bf5a8652e62cbb772777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 18/45] fix: do not pair removed and added enum variants of
 different fields

The removal of a variant was reported as a compatible rename if any other
enum gained a variant with a similar name.
---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index bd81808..aef426c 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -299,6 +299,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From a009f29b3495d83807a4f9a643b1ade8f581584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 19/45] fix: close upgraded config files so that their content
 is written

---
 hyperstate/schema/schema_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index aef426c..704a5d9 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -423,7 +423,8 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        original_config = open(filename).read()
+        with open(filename) as f:
+            original_config = f.read()
         diff = difflib.unified_diff(
             original_config.splitlines(),
             upgraded_config.splitlines(),
@@ -438,7 +439,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From c55961efb4c8319b207ecc1a78890e954969be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:03 +0000
Subject: [PATCH 20/45] fix: arrays restored from checkpoints are writable

---
 hyperstate/msgpack_torch.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..55fb996 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -27,13 +27,16 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
-            tensor: Any = np.ndarray(
-                buffer=obj[b"data"],
-                dtype=np.dtype(obj[b"dtype"]),
-                shape=obj[b"shape"],
+            # Copy, because an array backed by an immutable buffer is read-only
+            tensor: Any = np.copy(
+                np.ndarray(
+                    buffer=obj[b"data"],
+                    dtype=np.dtype(obj[b"dtype"]),
+                    shape=obj[b"shape"],
+                )
             )
             if obj[b"__tensor__"] == "torch" and torch is not None:
-                return torch.from_numpy(np.copy(tensor))
+                return torch.from_numpy(tensor)
             else:
                 return tensor
         else:
-- 
2.43.0


From 1f6a22fda458011edd432ec60e6cbfd7494dc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 21/45] fix: assigning a lazy field before it is loaded is no
 longer undone

The assigned value was overwritten by the persisted value on first access.
---
 hyperstate/lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..f60be4a 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,13 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        super(Lazy, self).__setattr__(name, value)
+        # An explicitly assigned value must not be replaced by the persisted one
+        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From 7ac50a0eb736d399330ce24dd246379cca7ba3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 22/45] fix: integers given as strings are not rounded to a
 float

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 90fa736..0d8c8c4 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -184,6 +184,10 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
+        try:
+            return int(value)  # type: ignore
+        except ValueError:
+            pass
         f = float(value)
         if int(f) == f:
             return int(f)  # type: ignore
-- 
2.43.0


From ce826dde48f63a62d4c7cfd80c53ba53c3a66939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:34 +0000
Subject: [PATCH 23/45] fix: reject tuples that do not have the declared number
 of elements

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 0d8c8c4..8b0cfd8 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -230,6 +230,10 @@ def from_dict(
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
+        if len(value) != len(clz.__args__):  # type: ignore
+            raise DeserializeValueError(
+                f"Expected {fpath} to have {len(clz.__args__)} elements, got {value}"  # type: ignore
+            )
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
-- 
2.43.0


From e2e9c2d1cacfa587b99f1a95a6ffd871095c71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 24/45] fix: load lists and dicts in fields with a Union type

---
 hyperstate/serde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 8b0cfd8..0394ef4 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -197,16 +197,16 @@ def from_dict(
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-                    if value["!__name__"] == arg.__name__:
+                    if value["!__name__"] == getattr(arg, "__name__", None):
                         return from_dict(arg, value, deserializers, fpath, ignore_extra_fields)  # type: ignore
             for arg in clz.__args__:  # type: ignore
-                if hasattr(arg, "__args__") and arg.get_origin() == typing.Dict:
+                if typing.get_origin(arg) == dict:
                     return from_dict(  # type: ignore
                         arg, value, deserializers, fpath, ignore_extra_fields
                     )
         elif isinstance(value, list):
             for arg in clz.__args__:  # type: ignore
-                if hasattr(arg, "__args__") and arg.get_origin() == typing.List:
+                if typing.get_origin(arg) == list:
                     return from_dict(  # type: ignore
                         arg, value, deserializers, fpath, ignore_extra_fields
                     )
-- 
2.43.0


From 935cbc47bf91016996be489081dbb415f399a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 25/45] fix: field documentation of a class overrides that of
 its bases

---
 hyperstate/schema/types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 57771a1..73286e2 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -356,11 +356,12 @@ def _unwrap_container_type(type: Type) -> Type:
 
 
 def _find_all_field_docs(clz: typing.Type[Any]) -> typing.Dict[str, str]:
+    field_docs: typing.Dict[str, str] = {}
+    for base in reversed(getattr(clz, "__bases__", ())):
+        field_docs.update(_find_all_field_docs(base))
+    # Documentation of the class itself takes precedence over that of its bases
     docs = docstring_parser.parse(clz.__doc__ or "")
-    field_docs = {
-        f.arg_name: f.description for f in docs.params if f.description is not None
-    }
-    if hasattr(clz, "__bases__"):
-        for base in clz.__bases__:
-            field_docs.update(_find_all_field_docs(base))
+    field_docs.update(
+        {f.arg_name: f.description for f in docs.params if f.description is not None}
+    )
     return field_docs
-- 
2.43.0


From f865a41adf960b7aef7b6c1c6c2c511b6f49e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 26/45] fix: resume from the latest checkpoint if there are
 other directories

A directory in the checkpoint directory with a higher number at the end of
its name, but without the prefix "latest", hid the actual checkpoints and
training silently started from scratch.
---
 hyperstate/hyperstate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 421f5a9..67a1f94 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -115,8 +115,8 @@ class StateManager(Generic[C, S]):
     def checkpoint_dir(self, value: Union[Path, None]) -> None:
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
-            checkpoint = find_latest_checkpoint(value)
-            if checkpoint is not None and checkpoint.name.startswith("latest"):
+            checkpoint = find_latest_checkpoint(value, prefix="latest")
+            if checkpoint is not None:
                 self._last_checkpoint = checkpoint
         else:
             self._checkpoint_dir = None
@@ -365,14 +365,14 @@ def load(
     )[0]
 
 
-def find_latest_checkpoint(dir: Path) -> Optional[Path]:
+def find_latest_checkpoint(dir: Path, prefix: str = "") -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.is_dir() and len(d.name) >= 12 and d.name.startswith(prefix):
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From c850e1fb38e455b1e742f61340d793ff30eb4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 27/45] fix: do not report unchanged struct defaults as changed

Defaults that are dataclasses are named tuples in schemas loaded from a file
and never compared equal.
---
 hyperstate/schema/schema_checker.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 704a5d9..77566ad 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -3,6 +3,7 @@ import typing
 from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
+import enum
 
 import pyron
 import click
@@ -25,6 +26,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
+from hyperstate.serde import isnamedtupleinstance
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -168,7 +170,9 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and _normalize_default(
+                            oldfield.default
+                        ) != _normalize_default(field.default):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -352,6 +356,24 @@ class SchemaChecker:
                 )
 
 
+def _normalize_default(value: Any) -> Any:
+    # Dataclasses and enums are persisted as named tuples and values in schema files
+    if is_dataclass(value):
+        return {
+            name: _normalize_default(getattr(value, name))
+            for name in value.__dataclass_fields__
+        }
+    elif isnamedtupleinstance(value):
+        return {k: _normalize_default(v) for k, v in value._asdict().items()}
+    elif isinstance(value, enum.Enum):
+        return value.value
+    elif isinstance(value, dict):
+        return {k: _normalize_default(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple)):
+        return [_normalize_default(v) for v in value]
+    return value
+
+
 def name_similarity(field1: str, field2: str) -> float:
     # Special cases
     # TODO: fold these into tweaked levenshtein with different costs for different edits
-- 
2.43.0


From b37dc82ebe6090da8f26de5b874d58c6b07f54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:26 +0000
Subject: [PATCH 28/45] fix: step schedules reach the value of their last point

---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From fdf5d32874d33070ace59b8759e1ce8928b167b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 29/45] fix: elide enums and structs that equal their default

---
 hyperstate/hyperstate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 67a1f94..26fd45a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -537,11 +537,15 @@ class ElideDefaults(Serializer):
         self, value: Any, attrs: Dict[str, Any], path: str
     ) -> None:
         for name, field in value.__class__.__dataclass_fields__.items():
-            if field.default is not MISSING and attrs[name] == field.default:
-                del attrs[name]
-            elif (
-                field.default_factory is not MISSING
-                and attrs[name] == field.default_factory()
+            if field.default is not MISSING:
+                default = field.default
+            elif field.default_factory is not MISSING:
+                default = field.default_factory()
+            else:
+                continue
+            # `attrs` contains enums and structs in serialized form, and the text of schedules
+            if getattr(value, name) == default and attrs[name] == asdict(
+                default, True, [LazySerializer(), VersionedSerializer(), self]
             ):
                 del attrs[name]
 
-- 
2.43.0


From b7fb7f0d65276eddd9e0691d17f9b2d34cf095b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 30/45] fix: overrides keep the defaults of sibling fields

---
 hyperstate/hyperstate.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 26fd45a..28bbe7a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -439,14 +439,25 @@ class OverridesDeserializer(Deserializer):
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-            for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
+            for i, segment in enumerate(fpath[:-1]):
+                if segment not in _value:
+                    _value[segment] = {WEAK_REF: True}
+                elif _value[segment] is None:
                     _value[segment] = {}
                 elif is_dataclass(_value[segment]):
                     _value[segment] = asdict(_value[segment])
                 _value = _value[segment]
                 # The struct is now explicitly set, even if upgrade rules only supplied defaults
-                _value.pop(WEAK_REF, None)
+                if _value.pop(WEAK_REF, False):
+                    default = schema.find_field(fpath[: i + 1]).default  # type: ignore
+                    if is_dataclass(default):
+                        _value.clear()
+                        _value.update(
+                            asdict(
+                                default,
+                                serializers=[VersionedSerializer(), ElideDefaults()],
+                            )
+                        )
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
-- 
2.43.0


From 9a7dea69e9bc844de72587d50d8db951a5daef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:17 +0000
Subject: [PATCH 31/45] fix: rules applied to defaults of an absent struct do
 not create the struct

---
 hyperstate/schema/rewrite_rule.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 099e35f..5cedfbd 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,9 +25,10 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        is_default = _in_weak_ref(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if ok:
-            _insert(state_dict, self.new_field, value)
+            _insert(state_dict, self.new_field, value, create_new=not is_default)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -59,7 +60,7 @@ class MapFieldValue(RewriteRule):
         value, present = _remove(state_dict, path)
         if present:
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -94,7 +95,7 @@ class ChangeDefault(RewriteRule):
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(state_dict, self.field, self.old_default, create_new=False)
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -214,6 +215,19 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _in_weak_ref(state_dict: Any, path: Sequence[str]) -> bool:
+    """
+    Whether any value at `path` is just a default supplied by an earlier rule.
+    """
+    for field in path[:-1]:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if isinstance(state_dict, dict) and WEAK_REF in state_dict:
+            return True
+    return False
+
+
 def _insert(
     state_dict: Any,
     path: Sequence[str],
-- 
2.43.0


From 0adfef5db1c02ce44ff5f6e75e808ccec06894d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 32/45] fix: renaming a field into a struct that is null keeps
 its value

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 5cedfbd..4046745 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -236,7 +236,9 @@ def _insert(
 ) -> None:
     assert len(path) > 0
     for field in path[:-1]:
-        if isinstance(state_dict, dict) and field not in state_dict:
+        if isinstance(state_dict, dict) and (
+            field not in state_dict or create_new and state_dict[field] is None
+        ):
             if create_new:
                 state_dict[field] = {}
             else:
-- 
2.43.0


From a62654b2805577586429ee6aa260eb84099e52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:22 +0000
Subject: [PATCH 33/45] fix: load Serializable objects that are not direct
 fields of a Lazy state

---
 hyperstate/hyperstate.py | 17 +++++++++++++--
 hyperstate/lazy.py       | 47 +++++++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 28bbe7a..92447ca 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -34,7 +34,7 @@ from hyperstate.serde import (
     asdict,
 )
 import hyperstate.serde as serde
-from .lazy import Lazy, LazyDeserializer, LazySerializer
+from .lazy import Lazy, LazyDeserializer, LazySerializer, load_blob
 import pyron
 
 from hyperstate.schedule import Schedule, _parse_schedule
@@ -183,6 +183,7 @@ class StateManager(Generic[C, S]):
             file=path / "state.ron",
             config=self.config,
             ignore_extra_fields=self.ignore_extra_fields,
+            deserialize_ctx=self._deserialize_ctx,
         )[0]
 
     def checkpoint(self, target_dir: str) -> None:
@@ -301,6 +302,7 @@ def _typed_load(
     config: Optional[Any] = None,
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
+    deserialize_ctx: Optional[Dict[str, Any]] = None,
 ) -> Tuple[T, Dict[str, Any]]:
     # Overrides refer to fields of the current version, so upgrades must be applied first
     deserializers: List[Deserializer] = [VersionedDeserializer(allow_missing_version)]
@@ -327,7 +329,18 @@ def _typed_load(
             ignore_extra_fields=ignore_extra_fields,
         )
     if lazy is not None and len(lazy.lazy_fields) > 0:
-        value._unloaded_lazy_fields = lazy.lazy_fields  # type: ignore
+        fields = lazy.lazy_fields
+        if isinstance(value, Lazy):
+            value._unloaded_lazy_fields = {  # type: ignore
+                k: v for k, v in fields.items() if k in value.__dataclass_fields__  # type: ignore
+            }
+            fields = {
+                k: v for k, v in fields.items() if k not in value.__dataclass_fields__  # type: ignore
+            }
+        # Only the fields of a `Lazy` object can be loaded on their first access
+        for path, lazy_field in fields.items():
+            keys = [k for segment in path.split(".") for k in _split_segment(segment)]
+            _set_keys(value, keys, load_blob(lazy_field, value, deserialize_ctx or {}))
     return value, schedules.schedules
 
 
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f60be4a..d4450b9 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -36,6 +36,31 @@ class Serializable(ABC, Generic[C, S]):
         pass
 
 
+def load_blob(
+    lazy_field: Tuple[Type[Serializable], Any, Path, bool],
+    state: Any,
+    ctx: Dict[str, Any],
+) -> Any:
+    ser_clz, config, path, legacy_pickle = lazy_field
+    with open(path, "rb") as f:
+        if legacy_pickle:
+            if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
+                import pickle
+
+                state_dict = pickle.load(f)
+            else:
+                raise RuntimeError(
+                    "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
+                    "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
+                )
+        else:
+            state_dict = msgpack.unpack(
+                f, object_hook=msgpack_torch.decode, strict_map_key=False
+            )
+    # TODO: recursion check
+    return ser_clz.deserialize(state_dict, config, state, ctx)
+
+
 class Lazy:
     def __getattribute__(self, name: str) -> Any:
         try:
@@ -43,26 +68,8 @@ class Lazy:
         except AttributeError:
             unloaded = None
         if unloaded is not None and name in unloaded:
-            ser_clz, config, path, legacy_pickle = unloaded[name]
-            with open(path, "rb") as f:
-                if legacy_pickle:
-                    if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
-                        import pickle
-
-                        state_dict = pickle.load(f)
-                    else:
-                        raise RuntimeError(
-                            "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
-                            "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
-                        )
-                else:
-                    state_dict = msgpack.unpack(
-                        f, object_hook=msgpack_torch.decode, strict_map_key=False
-                    )
-            # TODO: recursion check
-            value = ser_clz.deserialize(
-                state_dict,
-                config,
+            value = load_blob(
+                unloaded[name],
                 self,
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
-- 
2.43.0


From f5dbdce999f585dfd00a21c66d26526b1098664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:17 +0000
Subject: [PATCH 34/45] fix: store the elements of lists in files that other
 fields do not use

---
 hyperstate/lazy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index d4450b9..70b2b06 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -120,9 +120,7 @@ class LazyDeserializer(Deserializer, Generic[C]):
                     "state." + path.replace("[", "_").replace("]", "") + ".pickle"
                 )
             else:
-                filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
-                )
+                filepath = "state." + path + ".msgpack"
             self.lazy_fields[path] = (
                 cls,
                 self.config,
@@ -144,7 +142,7 @@ class LazySerializer(Serializer):
         named_tuples: bool,
     ) -> Tuple[Any, bool]:
         if isinstance(value, Serializable):
-            path = "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
+            path = "state." + path + ".msgpack"
             self.blobs[path] = msgpack.packb(
                 value.serialize(), default=msgpack_torch.encode
             )
-- 
2.43.0


From 4a25ca9d00daa656a4e5f9ec05e6edd2dc26a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:29 +0000
Subject: [PATCH 35/45] fix: dump schemas of configs whose defaults contain
 enums in structs or containers

---
 hyperstate/schema/schema_checker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 77566ad..8c0beab 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -26,7 +26,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
-from hyperstate.serde import isnamedtupleinstance
+from hyperstate.serde import asdict, isnamedtupleinstance
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -417,7 +417,8 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    # Default values can contain enums, which are persisted as their values
+    serialized = pyron.to_string(asdict(materialize_type(type), named_tuples=True))
     with open(filename, "w") as f:
         f.write(serialized)
 
-- 
2.43.0


From f2c9272d38700afb8224d4ceac89282d75f5a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 36/45] fix: do not report variants of different enums at the
 same field as renamed

---
 hyperstate/schema/schema_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 8c0beab..a881df8 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -303,7 +303,7 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
-            if removed.field != added.field:
+            if removed.field != added.field or removed.enum_name != added.enum_name:
                 return None
             return name_similarity(removed.variant, added.variant)
 
-- 
2.43.0


From 0c5d55cd051cb3f979b1e3197d280bb58a7f7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 37/45] fix: a struct is not a subtype of one with other or
 missing defaults

---
 hyperstate/schema/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 73286e2..dea2e27 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -205,8 +205,12 @@ class Struct:
             isinstance(other, Struct)
             and all(
                 k in other.fields
-                and self.fields[k].type.is_subtype(other.fields[k].type)
-                for k in self.fields
+                and f.type.is_subtype(other.fields[k].type)
+                and (
+                    not f.has_default
+                    or (other.fields[k].has_default and f.default == other.fields[k].default)
+                )
+                for k, f in self.fields.items()
             )
             and all(k in self.fields or f.has_default for k, f in other.fields.items())
             or (isinstance(other, Option) and self.is_subtype(other.type))
-- 
2.43.0


From f031241981ebc8d6c05be356ccad0514f9befb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 38/45] fix: report removed structs without fields

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index a881df8..d2d5d71 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -342,6 +342,8 @@ class SchemaChecker:
                 )
 
     def _all_gone(self, struct: t.Struct, path: typing.List[str]) -> None:
+        if not struct.fields:
+            self.changes.append(FieldRemoved(tuple(path), struct))
         for name, field in struct.fields.items():
             if isinstance(field.type, t.Struct):
                 self._all_gone(field.type, path + [name])
-- 
2.43.0


From dd19f642bbea4bbb0a52ebad035cb1c69ab6ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:20 +0000
Subject: [PATCH 39/45] fix: report renamed structs in unions

---
 hyperstate/schema/schema_checker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index d2d5d71..797aa07 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -115,7 +115,11 @@ class SchemaChecker:
             self._find_changes(old.val, new.val, path)
         elif isinstance(old, t.Union):
             assert isinstance(new, t.Union)
-            if len(old.types) != len(new.types):
+            # Values of unions refer to structs by their name
+            if len(old.types) != len(new.types) or any(
+                isinstance(o, t.Struct) and isinstance(n, t.Struct) and o.name != n.name
+                for o, n in zip(old.types, new.types)
+            ):
                 self.changes.append(TypeChanged(tuple(path), old, new))
             else:
                 for old_type, new_type in zip(old.types, new.types):
-- 
2.43.0


From 149e8763bfbbbdcfeaf5be2f33370dc284a868b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:09 +0000
Subject: [PATCH 40/45] fix: do not report removed defaults for which there is
 an AddDefault rule

---
 hyperstate/schema/rewrite_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 4046745..7836856 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -127,7 +127,8 @@ class AddDefault(RewriteRule):
                 has_default=False,
             )
         else:
-            field = replace(field, default=self.default, has_default=True)
+            # Upgraded configs always contain a value for the field
+            field = replace(field, default=None, has_default=False)
         _insert_schema(schema, self.field, field)
 
 
-- 
2.43.0


From 22d7e568dffad1c1b83ea5b17dd143c8b7822592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:10 +0000
Subject: [PATCH 41/45] fix: propose rules for changed defaults before those
 that map values

---
 hyperstate/schema/schema_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 797aa07..4940b64 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -25,6 +25,7 @@ from hyperstate.schema.schema_change import (
     Severity,
     TypeChanged,
 )
+from hyperstate.schema.rewrite_rule import MapFieldValue
 from hyperstate.schema.versioned import Versioned
 from hyperstate.serde import asdict, isnamedtupleinstance
 from .types import load_schema, materialize_type
@@ -57,6 +58,8 @@ class SchemaChecker:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
+        # Old default values have to be in place before values are mapped
+        self.proposed_fixes.sort(key=lambda fix: isinstance(fix, MapFieldValue))
 
     def severity(self) -> Severity:
         max_severity = Severity.INFO
-- 
2.43.0


From e6eb3a4512a81e02655e86f5caea89bef8b2c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:45 +0000
Subject: [PATCH 42/45] fix: apply rules for enums and literals to the schema
 of optional fields

---
 hyperstate/schema/rewrite_rule.py | 46 +++++++++++++------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 7836856..b30c677 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -66,20 +66,12 @@ class MapFieldValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        if isinstance(field.type, types.Enum):
-            _insert_schema(
-                schema,
-                self.field,
-                replace(
-                    field,
-                    type=replace(
-                        field.type,
-                        variants={
-                            k: self.map_fn(v) for k, v in field.type.variants.items()
-                        },
-                    ),
-                ),
+        enum, rebuild = _unwrap_optional(field.type)
+        if isinstance(enum, types.Enum):
+            enum = replace(
+                enum, variants={k: self.map_fn(v) for k, v in enum.variants.items()}
             )
+            _insert_schema(schema, self.field, replace(field, type=rebuild(enum)))
         else:
             _insert_schema(schema, self.field, field)
 
@@ -171,21 +163,21 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(field.type, types.Literal)
-        _insert_schema(
-            schema,
-            self.field,
-            replace(
-                field,
-                type=types.Literal(
-                    [
-                        v
-                        for v in field.type.allowed_values
-                        if v not in self.disallowed_values
-                    ]
-                ),
-            ),
+        literal, rebuild = _unwrap_optional(field.type)
+        assert isinstance(literal, types.Literal)
+        literal = types.Literal(
+            [v for v in literal.allowed_values if v not in self.disallowed_values]
         )
+        _insert_schema(schema, self.field, replace(field, type=rebuild(literal)))
+
+
+def _unwrap_optional(
+    type: types.Type,
+) -> Tuple[types.Type, Callable[[types.Type], types.Type]]:
+    if isinstance(type, types.Option):
+        inner, rebuild = _unwrap_optional(type.type)
+        return inner, lambda t: types.Option(rebuild(t))
+    return type, lambda t: t
 
 
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
-- 
2.43.0


From 4ee66eca95406b5b87e944aa1cf248cef42ba3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:51 +0000
Subject: [PATCH 43/45] fix: propose a single rule for enum variants that take
 over each other's values

---
 hyperstate/schema/schema_checker.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 4940b64..e297e3a 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -25,7 +25,7 @@ from hyperstate.schema.schema_change import (
     Severity,
     TypeChanged,
 )
-from hyperstate.schema.rewrite_rule import MapFieldValue
+from hyperstate.schema.rewrite_rule import MapFieldValue, RewriteRule
 from hyperstate.schema.versioned import Versioned
 from hyperstate.serde import asdict, isnamedtupleinstance
 from .types import load_schema, materialize_type
@@ -56,6 +56,8 @@ class SchemaChecker:
         self._find_enum_variant_renames()
         for change in self.changes:
             proposed_fix = change.proposed_fix()
+            if isinstance(change, EnumVariantValueChanged):
+                proposed_fix = self._enum_value_fix(change)
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
         # Old default values have to be in place before values are mapped
@@ -334,6 +336,27 @@ class SchemaChecker:
             EnumVariantAdded, EnumVariantRemoved, enum_similarity, enum_renamed
         )
 
+    def _enum_value_fix(
+        self, change: EnumVariantValueChanged
+    ) -> Optional[RewriteRule]:
+        mapping = {
+            c.old_value: c.new_value
+            for c in self.changes
+            if isinstance(c, EnumVariantValueChanged)
+            and c.field == change.field
+            and c.enum_name == change.enum_name
+        }
+        if not any(value in mapping for value in mapping.values()):
+            return change.proposed_fix()
+        # Variants take over values of other variants, which only a single rule can tell apart
+        if change.old_value != next(iter(mapping)):
+            return None
+        return MapFieldValue(
+            change.field,
+            lambda x: mapping.get(x, x),
+            rendered=f"lambda x: {mapping!r}.get(x, x)",
+        )
+
     def _all_new(self, struct: t.Struct, path: typing.List[str]) -> None:
         for name, field in struct.fields.items():
             if isinstance(field.type, t.Struct):
-- 
2.43.0


From 2b6c49aaed390af9c4262f2fb85f75880f403dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:19 +0000
Subject: [PATCH 44/45] fix: exit with an error code if an override is invalid

---
 hyperstate/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/command.py b/hyperstate/command.py
index fe630f6..05fb84b 100644
--- a/hyperstate/command.py
+++ b/hyperstate/command.py
@@ -137,7 +137,7 @@ def _check_overrides(cls: Type[C], overrides: List[str]) -> None:
             print()
             print(f"Info for '{override}':")
             hyperstate.help(cls, override)
-            sys.exit(0)
+            sys.exit(1)
 
 
 def _print_config_exception(e: Exception, verbose: bool) -> None:
-- 
2.43.0


From 5ebf278dc76a98f6ba42af78390e23787706cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:59 +0000
Subject: [PATCH 45/45] fix: find fields of optional structs and of structs in
 lists in help

---
 hyperstate/schema/help.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index a6d1361..11b9d17 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -95,6 +95,7 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        if isinstance(f.type, t.Struct):
-            result.extend(find_fields(f.type, query, (path or []) + [f.name]))
+        unwrapped = _unwrap_container_type(f.type)
+        if isinstance(unwrapped, t.Struct):
+            result.extend(find_fields(unwrapped, query, (path or []) + [f.name]))
     return result
-- 
2.43.0

