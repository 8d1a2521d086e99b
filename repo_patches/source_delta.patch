From 6daaa956c76f4d0df4945544d64f6c110ca2d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 01/32] fix: do not delete or wedge on the last checkpoint in
 StateManager.step

Calling step() twice with the same counter moved the only checkpoint away,
and a failed (or externally performed) removal of the previous checkpoint
made every later step() fail and leak checkpoints.
---
 hyperstate/hyperstate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..8571c66 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,10 +136,10 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            previous, self._last_checkpoint = self._last_checkpoint, checkpoint_dir
+            if previous is not None and previous != checkpoint_dir:
                 with tempfile.TemporaryDirectory() as tmpdir:
-                    shutil.move(str(self._last_checkpoint), tmpdir)
-            self._last_checkpoint = checkpoint_dir
+                    shutil.move(str(previous), tmpdir)
             # TODO: persistent checkpoints
 
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
-- 
2.43.0


From 1aa609104bc515e25d125a0bacbffb135c600c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 02/32] fix: restore numpy arrays as writable arrays

Arrays decoded from a checkpoint were read-only views of the message buffer,
so in-place updates that work before a restart failed after it.
---
 hyperstate/msgpack_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..8433a7b 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -35,7 +35,8 @@ def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             if obj[b"__tensor__"] == "torch" and torch is not None:
                 return torch.from_numpy(np.copy(tensor))
             else:
-                return tensor
+                # `tensor` is a read-only view of the message buffer
+                return np.copy(tensor)
         else:
             return obj if chain is None else chain(obj)
     except KeyError:
-- 
2.43.0


From 24c9f08b4cfa5bcf59786330acfe60d8aae913cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 03/32] fix: schedules on fields nested two or more dataclasses
 deep

The lookup of the nested schedule dict restarted from the root on every
segment, raising KeyError for fields nested deeper than one level.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 8571c66..f93eccf 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From cf3ce8c677994bc7de4d49506ca5c8777216d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 04/32] fix: unrelated directories no longer shadow the latest
 checkpoint

A bystander directory whose name ends in 12 digits larger than the step
counter was picked as the latest checkpoint and then discarded for its name,
so the run silently started over.
---
 hyperstate/hyperstate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index f93eccf..83693d7 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -114,8 +114,8 @@ class StateManager(Generic[C, S]):
     def checkpoint_dir(self, value: Union[Path, None]) -> None:
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
-            checkpoint = find_latest_checkpoint(value)
-            if checkpoint is not None and checkpoint.name.startswith("latest"):
+            checkpoint = find_latest_checkpoint(value, prefix="latest-")
+            if checkpoint is not None:
                 self._last_checkpoint = checkpoint
         else:
             self._checkpoint_dir = None
@@ -331,14 +331,14 @@ def load(
     )[0]
 
 
-def find_latest_checkpoint(dir: Path) -> Optional[Path]:
+def find_latest_checkpoint(dir: Path, prefix: str = "") -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.is_dir() and len(d.name) >= 12 and d.name.startswith(prefix):
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From f6c2f109a28d9f5d247ee9878880c5ae59bf7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 05/32] fix: serialize enums by value, which is how they are
 deserialized

Enums whose member name differs from the value could not be restored.
---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..d81871b 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 7964a70a53703826f83a47541d9085fbe94b04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 06/32] fix: write strings and numbers that can be read back

pyron escapes apostrophes and many unicode characters in a form its own
parser rejects, writes small, infinite and nan floats malformed, and turns
integers beyond 64 bits into floats, so checkpoints and schema files
containing them could not be restored (or came back changed).
---
 hyperstate/schema/schema_checker.py |  3 +-
 hyperstate/serde.py                 | 44 +++++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..fdae356 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -25,6 +25,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
+from hyperstate.serde import to_ron
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -375,7 +376,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = to_ron(materialize_type(type))
     with open(filename, "w") as f:
         f.write(serialized)
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d81871b..c857b70 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -17,6 +17,9 @@ from typing import (
     Union,
 )
 import inspect
+import math
+import re
+import sys
 from dataclasses import MISSING, is_dataclass
 import typing
 
@@ -184,7 +187,10 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
-        f = float(value)
+        try:
+            return int(value)  # type: ignore
+        except ValueError:
+            f = float(value)
         if int(f) == f:
             return int(f)  # type: ignore
         else:
@@ -402,7 +408,41 @@ def dumps(
     if serializers is None:
         serializers = []
     state_dict = asdict(obj, named_tuples=True, serializers=serializers)
-    return pyron.to_string(state_dict)
+    return to_ron(_quote_numbers(state_dict))
+
+
+def to_ron(value: Any) -> str:
+    """
+    Serializes a value to RON, using only string escapes that pyron can parse.
+    """
+
+    def unescape(match: typing.Match[str]) -> str:
+        if match.group(2) is not None:
+            return chr(int(match.group(2), 16))
+        return "'" if match.group(1) == "'" else match.group(0)
+
+    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|.)", unescape, pyron.to_string(value))
+
+
+def _quote_numbers(value: Any) -> Any:
+    """
+    Turns numbers that do not survive a roundtrip through RON into strings, which `from_dict` accepts in place of a number.
+    """
+    if isinstance(value, float):
+        if not math.isfinite(value) or 0.0 < value < sys.float_info.epsilon:
+            return repr(value)
+    elif isinstance(value, int):
+        if not -(2**63) <= value < 2**63:
+            return repr(value)
+    elif isinstance(value, dict):
+        return {k: _quote_numbers(v) for k, v in value.items()}
+    elif isinstance(value, list):
+        return [_quote_numbers(v) for v in value]
+    elif isnamedtupleinstance(value):
+        return type(value)(*map(_quote_numbers, value))
+    elif isinstance(value, tuple):
+        return tuple(map(_quote_numbers, value))
+    return value
 
 
 def is_optional(clz: Type[Any]) -> bool:
-- 
2.43.0


From 826a286ca9d677d375e5481757f12297afa2b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 07/32] fix: apply overrides after version upgrades

Upgrade rules used to run on top of the overridden values, so e.g. a
RenameField rule replaced the override with the value from the old file.
---
 hyperstate/hyperstate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 83693d7..4af54f5 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -267,13 +267,12 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
+    # Overrides refer to the current schema, so they apply after version upgrades.
+    deserializers: List[Deserializer] = [VersionedDeserializer(allow_missing_version)]
     if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
+        deserializers.append(OverridesDeserializer(overrides))
     schedules = ScheduleDeserializer()
     deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
-- 
2.43.0


From a055bea8d0f73737fbe6bd2e1b8cd4cdac97a98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:31 +0000
Subject: [PATCH 08/32] fix: reject override values that are not a boolean for
 boolean fields

They silently took the value of the preceding override (or crashed with
UnboundLocalError when there was none).
---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 4af54f5..5cd5b5a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -397,6 +397,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected a boolean."
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From 49ec834c90f8665e559be96b43999d3ec7fae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:53 +0000
Subject: [PATCH 09/32] fix: replace config and schema files atomically

upgrade-config, dump-schema and upgrade-schema truncated the file before
writing it, so a crash or a full disk destroyed the only copy.
upgrade-config did not even close the file.
---
 hyperstate/schema/schema_checker.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index fdae356..ec351e6 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -1,5 +1,8 @@
 from typing import Callable, List, Optional, Tuple, Any, Type
+import os
+import shutil
 import typing
+import uuid
 from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
@@ -376,9 +379,25 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = to_ron(materialize_type(type))
-    with open(filename, "w") as f:
-        f.write(serialized)
+    _replace_file(filename, to_ron(materialize_type(type)))
+
+
+def _replace_file(filename: str, content: str) -> None:
+    """
+    Writes a file such that on any failure the old content stays in place.
+    """
+    target = os.path.realpath(filename)
+    tmp = f"{target}.{uuid.uuid4()}.tmp"
+    try:
+        with open(tmp, "w") as f:
+            f.write(content)
+        if os.path.exists(target):
+            shutil.copymode(target, tmp)
+        os.replace(tmp, target)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.unlink(tmp)
+        raise
 
 
 def _upgrade_schema(filename: str, config_clz: typing.Type[Versioned]) -> None:
@@ -419,7 +438,7 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        _replace_file(filename, upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From ee24a46881073bfa11852ec9cdb83b17d6fd0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 10/32] fix: remove the partial copy when moving a checkpoint
 fails

A failed move across filesystems (disk full, interrupt) left a partial
<dst>.<uuid>.tmp directory in the checkpoint directory for good.
---
 hyperstate/hyperstate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 5cd5b5a..99706bb 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -534,10 +534,14 @@ def atomic_move(src: str, dst: str) -> None:
             # are copying into `<dst>`, they don't overlap in their tmp copies.
             copy_id = uuid.uuid4()
             tmp_dst = f"{dst}.{copy_id}.tmp"
-            shutil.move(src, tmp_dst)
-
-            # Then do an atomic rename onto the new name, and clean up the
-            # source image.
-            os.rename(tmp_dst, dst)
+            try:
+                shutil.move(src, tmp_dst)
+
+                # Then do an atomic rename onto the new name, and clean up the
+                # source image.
+                os.rename(tmp_dst, dst)
+            except BaseException:
+                shutil.rmtree(tmp_dst, ignore_errors=True)
+                raise
         else:
             raise
-- 
2.43.0


From e5285696ac1887b7d998a3cd3055f5be1537db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 11/32] fix: concurrent first access to a lazy field

Two threads accessing the same unloaded field raised KeyError in one of them
or handed out two different objects.
---
 hyperstate/lazy.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..3273cd2 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractclassmethod, abstractmethod
 import inspect
 import os
+import threading
 from typing import (
     Any,
     Dict,
@@ -36,8 +37,22 @@ class Serializable(ABC, Generic[C, S]):
         pass
 
 
+# Serializes the first access to lazy fields from multiple threads. Reentrant
+# because deserializing a field may access other lazy fields.
+_LOAD_LOCK = threading.RLock()
+
+
 class Lazy:
     def __getattribute__(self, name: str) -> Any:
+        unloaded = super(Lazy, self).__getattribute__("__dict__").get(
+            "_unloaded_lazy_fields"
+        )
+        if unloaded and name in unloaded:
+            with _LOAD_LOCK:
+                return Lazy._load_attribute(self, name)
+        return super(Lazy, self).__getattribute__(name)
+
+    def _load_attribute(self, name: str) -> Any:
         try:
             unloaded = super(Lazy, self).__getattribute__("_unloaded_lazy_fields")
         except AttributeError:
-- 
2.43.0


From db7b6b8654cb9d78790bc5924653546d32fc2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 12/32] fix: assigning a lazy field that is not loaded yet

The next access loaded the stored value over the assigned one, so training
that replaces a field right after a restart silently lost the new value.
---
 hyperstate/lazy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 3273cd2..8a87eb0 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -82,9 +82,17 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        unloaded = self.__dict__.get("_unloaded_lazy_fields")
+        if unloaded and name in unloaded:
+            with _LOAD_LOCK:
+                super(Lazy, self).__setattr__(name, value)
+                unloaded.pop(name, None)
+        else:
+            super(Lazy, self).__setattr__(name, value)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From 88eb9db7ae506ff7f3f45d8c39acb7907733edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 13/32] fix: ChangeDefault and AddDefault on fields of absent
 sections

The old default recorded by the upgrade rules was never applied when the
config file left out the whole section, so upgraded configs silently switched
to the new default.
---
 hyperstate/serde.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index c857b70..29b5cee 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -324,27 +324,27 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        weak_ref = weak_refs.get(_field_name)
+        if _field_name in weak_refs and not (
+            isinstance(weak_ref, dict) and WEAK_REF in weak_ref
+        ):
+            kwargs[field.name] = from_dict(
+                field.type, weak_ref, fpath=f"{fpath}.{_field_name}"
+            )
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
                 _kwargs: Dict[str, Any] = {}
                 _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
+                    field.type.__dataclass_fields__.keys(),
                     f"{fpath}.{_field_name}" if fpath else _field_name,
                     weak_refs=_weak_refs,
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From 680e22dcddc659f23ad9f60fb4ab4aac55d8f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:17 +0000
Subject: [PATCH 14/32] fix: step schedules reach their last point

A schedule ending in a step segment stayed at the second to last value
forever, e.g. "step: 0.1@0 step 0.01@100" never dropped to 0.01.
---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From 6dde03ed714c15a93bb8bf6731081403392a972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 15/32] fix: load literals whose values are not type
 expressions

---
 hyperstate/serde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 29b5cee..48e55cb 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -221,14 +221,14 @@ def from_dict(
         )
 
     elif (
-        hasattr(clz, "__args__")
+        typing.get_origin(clz) == list
         and len(clz.__args__) == 1  # type: ignore
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
     elif (
-        hasattr(clz, "__args__")
+        typing.get_origin(clz) == tuple
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
@@ -237,7 +237,7 @@ def from_dict(
             for i, v in enumerate(value)
         )
     elif (
-        hasattr(clz, "__args__")
+        typing.get_origin(clz) == dict
         and len(clz.__args__) == 2  # type: ignore
         and clz == Dict[clz.__args__]  # type: ignore
         and isinstance(value, dict)
-- 
2.43.0


From 8b7441310f912b2b2f451f0d41155e9d6a7b5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 16/32] fix: overriding a field keeps the defaults of the rest
 of its section

---
 hyperstate/hyperstate.py | 26 ++++++++++++++++++++++----
 hyperstate/serde.py      |  2 ++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 99706bb..3cfc07d 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -17,11 +17,12 @@ from typing import (
     Tuple,
     Union,
 )
-from dataclasses import MISSING, dataclass
+from dataclasses import MISSING, dataclass, is_dataclass
 import uuid
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
+from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.versioned import (
     Versioned,
     VersionedSerializer,
@@ -347,6 +348,23 @@ def find_latest_checkpoint(dir: Path, prefix: str = "") -> Optional[Path]:
     return latest_dir
 
 
+def _section(value: Any, default: Any) -> Dict[str, Any]:
+    """
+    Returns the fields of a section as a dictionary. Fields of sections that are not set have the values in `default`.
+    """
+    if isinstance(value, dict) and WEAK_REF in value:
+        value = {k: v for k, v in value.items() if k != WEAK_REF}
+        if default is not None:
+            value = None
+    if value is None:
+        value = default
+    if is_dataclass(value):
+        return {name: getattr(value, name) for name in value.__dataclass_fields__}
+    elif serde.isnamedtupleinstance(value):
+        return dict(value._asdict())
+    return {} if value is None else value
+
+
 @dataclass
 class OverridesDeserializer(Deserializer):
     overrides: List[str]
@@ -404,9 +422,9 @@ class OverridesDeserializer(Deserializer):
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-            for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
+            for i, segment in enumerate(fpath[:-1]):
+                default = schema.find_field(fpath[: i + 1]).default  # type: ignore
+                _value[segment] = _section(_value.get(segment), default)
                 _value = _value[segment]
             _value[fpath[-1]] = val
         if len(errors) == 1:
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 48e55cb..67dd6f8 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -196,6 +196,8 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
+        if is_dataclass(value) and type(value) in clz.__args__:  # type: ignore
+            return value  # type: ignore
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-- 
2.43.0


From 58385e36859c33c73844ae0dc881cf6145028265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 17/32] fix: a checkpoint retired while the directory is
 scanned no longer means a fresh start

---
 hyperstate/hyperstate.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 3cfc07d..c3cfa26 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -335,17 +335,25 @@ def find_latest_checkpoint(dir: Path, prefix: str = "") -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
-    latest = None
-    latest_dir = None
-    for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12 and d.name.startswith(prefix):
-            try:
-                if latest is None or int(d.name[-12:]) > latest:
-                    latest = int(d.name[-12:])
-                    latest_dir = d
-            except ValueError:
-                pass
-    return latest_dir
+    while True:
+        latest = None
+        latest_dir = None
+        vanished = False
+        for d in dir.iterdir():
+            if len(d.name) >= 12 and d.name.startswith(prefix):
+                try:
+                    key = int(d.name[-12:])
+                except ValueError:
+                    continue
+                if d.is_dir():
+                    if latest is None or key > latest:
+                        latest = key
+                        latest_dir = d
+                elif not os.path.lexists(d):
+                    vanished = True
+        # Another process replaced a checkpoint after the directory was listed, so look again.
+        if not vanished:
+            return latest_dir
 
 
 def _section(value: Any, default: Any) -> Dict[str, Any]:
-- 
2.43.0


From c86d705b3b6105fca5597a664aa3a05168548250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 18/32] fix: RejectValues keeps the values it does not reject

---
 hyperstate/schema/rewrite_rule.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..099e35f 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -159,7 +159,7 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
+        value, present = _get(state_dict, self.field)
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
@@ -169,7 +169,7 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
+        assert isinstance(field.type, types.Literal)
         _insert_schema(
             schema,
             self.field,
@@ -178,7 +178,7 @@ class RejectValues(RewriteRule):
                 type=types.Literal(
                     [
                         v
-                        for v in schema.allowed_values
+                        for v in field.type.allowed_values
                         if v not in self.disallowed_values
                     ]
                 ),
@@ -207,7 +207,9 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
         if field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+        if state_dict is None:
+            return None, False
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From 5cdfb26a15f58bc234cf6a224725ef29bb1230eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 19/32] fix: find lazily loaded fields that were renamed by an
 upgrade rule

---
 hyperstate/hyperstate.py |  3 ++-
 hyperstate/lazy.py       | 36 +++++++++++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index c3cfa26..509b8ff 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -278,7 +278,8 @@ def _typed_load(
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
         lazy = LazyDeserializer(config, file.absolute().parent)
-        deserializers.append(lazy)
+        # Has to see the stored paths of lazy fields, so it comes before version upgrades.
+        deserializers.insert(0, lazy)
         value = serde.load(
             clz,
             file,
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 8a87eb0..577df08 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -105,6 +105,25 @@ class Lazy:
         self._deserialize_ctx[key] = value
 
 
+class _BlobMarker(str):
+    """
+    Stands for a separately stored value. Remembers the path that the value was stored under
+    in order to find it even if upgrade rules have moved the field.
+    """
+
+    path: str
+
+
+def _mark_blobs(value: Any, path: str) -> Any:
+    if isinstance(value, dict):
+        return {k: _mark_blobs(v, f"{path}.{k}" if path else k) for k, v in value.items()}
+    elif value in ("<BLOB>", "<blob:pickle>", "<blob:msgpack>"):
+        marker = _BlobMarker(value)
+        marker.path = path
+        return marker
+    return value
+
+
 @dataclass
 class LazyDeserializer(Deserializer, Generic[C]):
     config: C
@@ -125,15 +144,22 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 or value == "<blob:pickle>"
                 or value == "<blob:msgpack>"
             )
+            stored_path = getattr(value, "path", path)
             if value == "<BLOB>":
-                filepath = path.replace(".", "/").replace("[", "/").replace("]", "")
+                filepath = (
+                    stored_path.replace(".", "/").replace("[", "/").replace("]", "")
+                )
             elif value == "<blob:pickle>":
                 filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".pickle"
+                    "state."
+                    + stored_path.replace("[", "_").replace("]", "")
+                    + ".pickle"
                 )
             else:
                 filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
+                    "state."
+                    + stored_path.replace("[", "_").replace("]", "")
+                    + ".msgpack"
                 )
             self.lazy_fields[path] = (
                 cls,
@@ -142,6 +168,10 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 value == "<BLOB>" or value == "<blob:pickle>",
             )
             return None, True, True
+        if path == "":
+            return _mark_blobs(value, path), True, False
+        if isinstance(value, _BlobMarker):
+            return str(value), True, False
         return None, False, False
 
 
-- 
2.43.0


From 4922c363948602aa63659e49c0abc522a4a71194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 20/32] fix: rules about fields of unset optional sections
 leave the section unset

---
 hyperstate/schema/rewrite_rule.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 099e35f..22b9c2a 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,9 +25,10 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        weak = _is_weak(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if ok:
-            _insert(state_dict, self.new_field, value)
+            _insert(state_dict, self.new_field, value, create_new=not weak)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -59,7 +60,7 @@ class MapFieldValue(RewriteRule):
         value, present = _remove(state_dict, path)
         if present:
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -94,7 +95,7 @@ class ChangeDefault(RewriteRule):
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(state_dict, self.field, self.old_default, create_new=False)
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -214,6 +215,19 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _is_weak(state_dict: Any, path: Sequence[str]) -> bool:
+    """
+    Whether the value at `path` is a default that only applies if the section it belongs to is constructed.
+    """
+    for field in path:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if isinstance(state_dict, dict) and WEAK_REF in state_dict:
+            return True
+    return False
+
+
 def _insert(
     state_dict: Any,
     path: Sequence[str],
-- 
2.43.0


From b5733cac1ee3b774077bde321d428429b780bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 21/32] fix: ignore_extra_fields applies to nested sections too

---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 67dd6f8..dce93cd 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -228,14 +228,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         typing.get_origin(clz) == tuple
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -245,7 +245,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -282,6 +282,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From 5ceede0a85c93cf03844d1c2e4e6af21e6b79337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:00 +0000
Subject: [PATCH 22/32] fix: read and write config files as UTF-8 whatever the
 locale

---
 hyperstate/schema/schema_checker.py | 4 ++--
 hyperstate/serde.py                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index ec351e6..637463d 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -389,7 +389,7 @@ def _replace_file(filename: str, content: str) -> None:
     target = os.path.realpath(filename)
     tmp = f"{target}.{uuid.uuid4()}.tmp"
     try:
-        with open(tmp, "w") as f:
+        with open(tmp, "w", encoding="utf-8") as f:
             f.write(content)
         if os.path.exists(target):
             shutil.copymode(target, tmp)
@@ -423,7 +423,7 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        original_config = open(filename).read()
+        original_config = open(filename, encoding="utf-8").read()
         diff = difflib.unified_diff(
             original_config.splitlines(),
             upgraded_config.splitlines(),
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index dce93cd..b783bf4 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -399,7 +399,7 @@ def dump(
     serializers: Optional[List[Serializer]] = None,
 ) -> str:
     serialized = dumps(obj, serializers)
-    with open(file, "w") as f:
+    with open(file, "w", encoding="utf-8") as f:
         f.write(serialized)
     return serialized
 
-- 
2.43.0


From 74046903dae673b3ab27d31c8338cd31163ffc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 23/32] fix: a variant removed from one enum is not the one
 added to another

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 637463d..9d1c0e8 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -285,6 +285,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From 3ead202ce228dbc2027c4d86d7805454d01c2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:17 +0000
Subject: [PATCH 24/32] fix: propose rules for changed defaults before those
 that convert the values

---
 hyperstate/schema/schema_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 9d1c0e8..50e4730 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -27,6 +27,7 @@ from hyperstate.schema.schema_change import (
     Severity,
     TypeChanged,
 )
+from hyperstate.schema.rewrite_rule import MapFieldValue
 from hyperstate.schema.versioned import Versioned
 from hyperstate.serde import to_ron
 from .types import load_schema, materialize_type
@@ -59,6 +60,8 @@ class SchemaChecker:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
+        # Values are converted after old defaults have been filled in
+        self.proposed_fixes.sort(key=lambda fix: isinstance(fix, MapFieldValue))
 
     def severity(self) -> Severity:
         max_severity = Severity.INFO
-- 
2.43.0


From 5f584411ffd2053342ed3c92fa0ab34f1121d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:29 +0000
Subject: [PATCH 25/32] fix: one proposed rule for all changed values of an
 enum

---
 hyperstate/schema/schema_checker.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 50e4730..2055664 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -1,4 +1,4 @@
-from typing import Callable, List, Optional, Tuple, Any, Type
+from typing import Callable, Dict, List, Sequence, Optional, Tuple, Any, Type
 import os
 import shutil
 import typing
@@ -56,7 +56,26 @@ class SchemaChecker:
         self._find_changes(old, self.new, [])
         self._find_field_renames()
         self._find_enum_variant_renames()
+        new_values: Dict[Sequence[str], Dict[Any, Any]] = {}
         for change in self.changes:
+            if isinstance(change, EnumVariantValueChanged):
+                values = new_values.setdefault(change.field, {})
+                values[change.old_value] = change.new_value
+        for change in self.changes:
+            if isinstance(change, EnumVariantValueChanged):
+                # One rule for all variants: the new value of one may be the old value of another
+                values = new_values.pop(change.field, {})
+                if not values:
+                    continue
+                if len(values) > 1:
+                    self.proposed_fixes.append(
+                        MapFieldValue(
+                            change.field,
+                            lambda x, values=values: values.get(x, x),
+                            rendered=f"lambda x: {values!r}.get(x, x)",
+                        )
+                    )
+                    continue
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
-- 
2.43.0


From 23cdf28232b4d385cb81ec5e6de08ff35da4f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:32 +0000
Subject: [PATCH 26/32] fix: Optional[float] is no subtype of Optional[int]

---
 hyperstate/schema/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..7ca94f1 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -220,7 +220,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 5d29b35ab2df3826eef71c0e798c5ba6589272d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:03 +0000
Subject: [PATCH 27/32] fix: load None and other plain values of union fields

---
 hyperstate/schema/types.py | 2 ++
 hyperstate/serde.py        | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 7ca94f1..8792a7d 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -241,6 +241,8 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
         return Primitive(type="bool")
     elif clz == float:
         return Primitive(type="float")
+    elif clz is type(None):
+        return Nothing()
     elif hasattr(clz, "__origin__") and clz.__origin__ == list:
         return List(materialize_type(clz.__args__[0]))
     elif hasattr(clz, "__origin__") and clz.__origin__ == tuple:
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index b783bf4..fb328d2 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -166,6 +166,8 @@ def from_dict(
         return _value  # type: ignore
 
     if typing.get_origin(clz) == typing.Union:
+        if type(value) in clz.__args__:  # type: ignore
+            return value  # type: ignore
         ustr = str in clz.__args__  # type: ignore
         ufloat = float in clz.__args__  # type: ignore
         uint = int in clz.__args__  # type: ignore
@@ -196,8 +198,6 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
-        if is_dataclass(value) and type(value) in clz.__args__:  # type: ignore
-            return value  # type: ignore
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-- 
2.43.0


From e2fe29f653540e7f34f27736e62fb0ccd42a140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:06 +0000
Subject: [PATCH 28/32] fix: save checkpoints across filesystems to paths with
 a trailing slash

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 509b8ff..fba60cf 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -560,7 +560,7 @@ def atomic_move(src: str, dst: str) -> None:
             # atomic.  We intersperse a random UUID so if different processes
             # are copying into `<dst>`, they don't overlap in their tmp copies.
             copy_id = uuid.uuid4()
-            tmp_dst = f"{dst}.{copy_id}.tmp"
+            tmp_dst = f"{Path(dst)}.{copy_id}.tmp"
             try:
                 shutil.move(src, tmp_dst)
 
-- 
2.43.0


From bd8c8914f461fff374de9d1fb5d1de6158c1d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:09 +0000
Subject: [PATCH 29/32] fix: load fields annotated with builtin generics such
 as list[int]

---
 hyperstate/lazy.py             |  5 ++---
 hyperstate/schema/versioned.py |  2 +-
 hyperstate/serde.py            | 12 ++++++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 577df08..9a0aeb5 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -1,5 +1,4 @@
 from abc import ABC, abstractclassmethod, abstractmethod
-import inspect
 import os
 import threading
 from typing import (
@@ -15,7 +14,7 @@ from dataclasses import dataclass, field
 from pathlib import Path
 import msgpack
 
-from hyperstate.serde import Serializer, Deserializer
+from hyperstate.serde import Serializer, Deserializer, isclass
 from hyperstate import msgpack_torch
 
 
@@ -138,7 +137,7 @@ class LazyDeserializer(Deserializer, Generic[C]):
         value: Any,
         path: str,
     ) -> Tuple[Optional[T], bool, bool]:
-        if inspect.isclass(cls) and issubclass(cls, Serializable):
+        if isclass(cls) and issubclass(cls, Serializable):
             assert (
                 value == "<BLOB>"
                 or value == "<blob:pickle>"
diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..727d9ee 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -1,12 +1,12 @@
 from abc import ABC, abstractmethod
 from collections import namedtuple
 from dataclasses import dataclass
-from inspect import isclass
 from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
 from hyperstate.schema import namedtuple_utils, types
 from hyperstate.serde import (
     Deserializer,
     Serializer,
+    isclass,
 )
 
 from hyperstate.schema.rewrite_rule import RewriteRule
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index fb328d2..88eb877 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -176,7 +176,7 @@ def from_dict(
         ufloat = False
         uint = False
 
-    if inspect.isclass(clz) and isinstance(value, clz):
+    if isclass(clz) and isinstance(value, clz):
         return value
     elif (
         (clz == str or ustr) and isnamedtupleinstance(value) and len(value._fields) == 0
@@ -225,13 +225,11 @@ def from_dict(
     elif (
         typing.get_origin(clz) == list
         and len(clz.__args__) == 1  # type: ignore
-        and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         typing.get_origin(clz) == tuple
-        and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
@@ -241,7 +239,6 @@ def from_dict(
     elif (
         typing.get_origin(clz) == dict
         and len(clz.__args__) == 2  # type: ignore
-        and clz == Dict[clz.__args__]  # type: ignore
         and isinstance(value, dict)
     ):
         return {
@@ -448,6 +445,13 @@ def _quote_numbers(value: Any) -> Any:
     return value
 
 
+def isclass(clz: Any) -> bool:
+    """
+    Returns whether `clz` can be used with `issubclass`, which excludes types like `list[int]`.
+    """
+    return inspect.isclass(clz) and typing.get_origin(clz) is None
+
+
 def is_optional(clz: Type[Any]) -> bool:
     return (
         hasattr(clz, "__origin__")
-- 
2.43.0


From 2f3b6c10b316894a07309108a299037ce9b1429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:12 +0000
Subject: [PATCH 30/32] fix: save and load dictionary keys like other values

---
 hyperstate/serde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 88eb877..e7a0e18 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -96,7 +96,7 @@ def asdict(
             return attrs
     elif isinstance(value, dict):
         return {
-            k: asdict(
+            k.value if isinstance(k, Enum) else k: asdict(
                 value=v,
                 named_tuples=named_tuples,
                 serializers=serializers,
@@ -242,7 +242,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
+            from_dict(clz.__args__[0], k, fpath=fpath): from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -435,7 +435,7 @@ def _quote_numbers(value: Any) -> Any:
         if not -(2**63) <= value < 2**63:
             return repr(value)
     elif isinstance(value, dict):
-        return {k: _quote_numbers(v) for k, v in value.items()}
+        return {_quote_numbers(k): _quote_numbers(v) for k, v in value.items()}
     elif isinstance(value, list):
         return [_quote_numbers(v) for v in value]
     elif isnamedtupleinstance(value):
-- 
2.43.0


From 4b3ee9cae33d45bac50b123a7cc0db60b502cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:15 +0000
Subject: [PATCH 31/32] fix: load tuples of variable length, refuse tuples of
 the wrong length

---
 hyperstate/schema/types.py |  4 +++-
 hyperstate/serde.py        | 19 +++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 8792a7d..1c74dee 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -246,7 +246,9 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif hasattr(clz, "__origin__") and clz.__origin__ == list:
         return List(materialize_type(clz.__args__[0]))
     elif hasattr(clz, "__origin__") and clz.__origin__ == tuple:
-        return Tuple([materialize_type(arg) for arg in clz.__args__])
+        return Tuple(
+            [materialize_type(arg) for arg in clz.__args__ if arg is not Ellipsis]
+        )
     elif hasattr(clz, "__origin__") and clz.__origin__ == dict:
         return Dict(
             materialize_type(clz.__args__[0]), materialize_type(clz.__args__[1])
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index e7a0e18..e3e3698 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -228,12 +228,18 @@ def from_dict(
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
-    elif (
-        typing.get_origin(clz) == tuple
-        and isinstance(value, tuple)
+    elif typing.get_origin(clz) == tuple and (
+        isinstance(value, tuple) or value == []
     ):
-        return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
+        args = clz.__args__  # type: ignore
+        if args[-1] is Ellipsis:
+            args = args[:1] * len(value)
+        if len(value) != len(args):
+            raise DeserializeValueError(
+                f"Expected {fpath} to have {len(args)} elements, got {value}"
+            )
+        return tuple(  # type: ignore
+            from_dict(args[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)
             for i, v in enumerate(value)
         )
     elif (
@@ -441,7 +447,8 @@ def _quote_numbers(value: Any) -> Any:
     elif isnamedtupleinstance(value):
         return type(value)(*map(_quote_numbers, value))
     elif isinstance(value, tuple):
-        return tuple(map(_quote_numbers, value))
+        # `()` is parsed as None
+        return tuple(map(_quote_numbers, value)) or []
     return value
 
 
-- 
2.43.0


From d61df364cc7a403abaf01073feb6286bce04c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:08 +0000
Subject: [PATCH 32/32] fix: schedules with a single point, or with two points
 at the same first or last counter value

---
 hyperstate/schedule.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 7594186..c8e51bc 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -46,7 +46,10 @@ class PiecewiseFunction:
             if x < s.end:
                 break
         assert segment is not None
-        rescaled = (x - segment.start) / (segment.end - segment.start)
+        if segment.start == segment.end:
+            rescaled = 0 if x < segment.start else 1
+        else:
+            rescaled = (x - segment.start) / (segment.end - segment.start)
         if rescaled < 0:
             rescaled = 0
         elif rescaled > 1:
@@ -92,4 +95,15 @@ def _parse_schedule(schedule: str) -> PiecewiseFunction:
             last_x, last_y = x, y
         else:
             interpolator = INTERPOLATORS[part]
+    if not segments and last_x is not None:
+        # A single point is a constant
+        segments.append(
+            ScheduleSegment(
+                start=last_x,
+                initial_value=last_y,
+                end=last_x,
+                final_value=last_y,
+                interpolator=interpolator,
+            )
+        )
     return PiecewiseFunction(segments, xname)
-- 
2.43.0

