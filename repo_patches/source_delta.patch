From 8cb96deba741389a46981d2b81247e49c65c7056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 01/21] fix: make code generation thread-safe and restartable

The lists remembering the classes under generation were shared by all threads: a thread could
skip a class another thread was still generating and then fail with KeyError('to_dict'). A
generation cut short also left a reused decorator or an already generated nested class in a
state which made it silently unusable.
---
 serde/core.py | 67 +++++++++++++++++++++++++++++++++++++++++++++++++--
 serde/de.py   | 35 +++++++++++----------------
 serde/se.py   | 30 +++++++++++------------
 3 files changed, 94 insertions(+), 38 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..08e85fe 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -8,6 +8,7 @@ import enum
 import functools
 import logging
 import re
+import threading
 import casefy
 from dataclasses import dataclass
 
@@ -329,6 +330,66 @@ class Scope:
         return " " * (white_spaces if white_spaces > 0 else 0) + s
 
 
+CODEGEN_LOCK = threading.RLock()
+""" Held while code is generated, and while the global class (de)serializers are changed """
+
+
+@dataclass
+class CodeGeneration:
+    """
+    Keeps track of the code generation in one direction (serialize or deserialize).
+
+    Generating code for a class also generates code for unmarked dataclasses it refers to,
+    which may refer back to the class. So no class is usable before the outermost generation
+    has completed. `active()` tells other threads that they have to wait for `CODEGEN_LOCK`.
+    """
+
+    key: str
+    """ Name of the function which is generated last """
+
+    stack: list[type[Any]] = dataclasses.field(default_factory=list)
+    """ Classes for which code is currently being generated. To avoid infinite recursion """
+
+    batch: list[tuple[type[Any], Callable[..., Any] | None]] = dataclasses.field(
+        default_factory=list
+    )
+    """ Classes generated by the outermost generation, with the function they had before """
+
+    def active(self) -> bool:
+        return bool(self.stack)
+
+    def run(self, cls: type[T], generate: Callable[[type[T]], Any]) -> type[T]:
+        with CODEGEN_LOCK:
+            if cls in self.stack:
+                return cls
+
+            depth = len(self.stack)
+            mark = len(self.batch)
+            try:
+                self.stack.append(cls)
+                self.batch.append((cls, self._own_funcs(cls).get(self.key)))
+                generate(cls)
+            except BaseException:
+                # Classes generated meanwhile may refer to `cls`. Generate them again next time.
+                for c, func in self.batch[mark:]:
+                    funcs = self._own_funcs(c)
+                    if func:
+                        funcs[self.key] = func
+                    else:
+                        funcs.pop(self.key, None)
+                del self.batch[mark:]
+                raise
+            finally:
+                del self.stack[depth:]
+                if not self.stack:
+                    self.batch.clear()
+            return cls
+
+    def _own_funcs(self, cls: type[Any]) -> dict[str, Callable[..., Any]]:
+        scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
+        return scope.funcs if scope is not None and scope.cls is cls else {}
+
+
 def raise_unsupported_type(obj: Any) -> None:
     # needed because we can not render a raise statement everywhere, e.g. as argument
     raise SerdeError(f"Unsupported type: {typename(type(obj))}")
@@ -1261,11 +1322,13 @@ def add_serializer(serializer: ClassSerializer) -> None:
     """
     Register custom global serializer.
     """
-    GLOBAL_CLASS_SERIALIZER.append(serializer)
+    with CODEGEN_LOCK:
+        GLOBAL_CLASS_SERIALIZER.append(serializer)
 
 
 def add_deserializer(deserializer: ClassDeserializer) -> None:
     """
     Register custom global deserializer.
     """
-    GLOBAL_CLASS_DESERIALIZER.append(deserializer)
+    with CODEGEN_LOCK:
+        GLOBAL_CLASS_DESERIALIZER.append(deserializer)
diff --git a/serde/de.py b/serde/de.py
index 7c651d1..6de642a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -67,7 +67,9 @@ from .compat import (
 )
 from .core import (
     GLOBAL_CLASS_DESERIALIZER,
+    CODEGEN_LOCK,
     ClassDeserializer,
+    CodeGeneration,
     FROM_DICT,
     FROM_ITER,
     SERDE_SCOPE,
@@ -226,9 +228,9 @@ def _make_deserialize(
 
 
 # The `deserialize` function can call itself recursively when it needs to generate code for
-# unmarked dataclasses. To avoid infinite recursion, this array remembers types for which code is
+# unmarked dataclasses. To avoid infinite recursion, this remembers types for which code is
 # currently being generated.
-GENERATION_STACK = []
+GENERATION = CodeGeneration(FROM_DICT)
 
 
 @dataclass_transform()
@@ -265,13 +267,10 @@ def deserialize(
     Foo(i=10, s='foo', f=100.0, b=True)
     """
 
-    stack = []
-
     def wrap(cls: type[T]) -> type[T]:
-        if cls in stack:
-            return cls
-        stack.append(cls)
+        return GENERATION.run(cls, generate)
 
+    def generate(cls: type[T]) -> type[T]:
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
@@ -405,20 +404,12 @@ def deserialize(
 
         logger.debug(f"{typename(cls)}: {SERDE_SCOPE} {scope}")
 
-        stack.pop()
         return cls
 
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
-
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+    return wrap(_cls)
 
 
 def is_deserializable(instance_or_class: Any) -> bool:
@@ -557,11 +548,13 @@ def from_obj(
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
-        elif is_dataclass_without_de(c):
-            # Do not automatically implement beartype if dataclass without serde decorator
-            # is passed, because it is surprising for users
-            # See https://github.com/yukinarit/pyserde/issues/480
-            deserialize(c, type_check=disabled)
+        elif is_dataclass_without_de(c) or (GENERATION.active() and is_dataclass(c)):
+            with CODEGEN_LOCK:  # another thread may be generating the code
+                if is_dataclass_without_de(c):
+                    # Do not automatically implement beartype if dataclass without serde decorator
+                    # is passed, because it is surprising for users
+                    # See https://github.com/yukinarit/pyserde/issues/480
+                    deserialize(c, type_check=disabled)
             res = deserializable_to_obj(c)
         elif is_deserializable(c):
             res = deserializable_to_obj(c)
diff --git a/serde/se.py b/serde/se.py
index c3a0e18..d7734c6 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -66,7 +66,9 @@ from .compat import (
     typename,
 )
 from .core import (
+    CODEGEN_LOCK,
     ClassSerializer,
+    CodeGeneration,
     CACHE,
     SERDE_SCOPE,
     TO_DICT,
@@ -191,9 +193,9 @@ def _make_serialize(
 
 
 # The `serialize` function can call itself recursively when it needs to generate code for
-# unmarked dataclasses. To avoid infinite recursion, this array remembers types for which code is
+# unmarked dataclasses. To avoid infinite recursion, this remembers types for which code is
 # currently being generated.
-GENERATION_STACK = []
+GENERATION = CodeGeneration(TO_DICT)
 
 
 @dataclass_transform()
@@ -232,6 +234,9 @@ def serialize(
     """
 
     def wrap(cls: type[T]) -> type[T]:
+        return GENERATION.run(cls, generate)
+
+    def generate(cls: type[T]) -> type[T]:
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
@@ -331,14 +336,7 @@ def serialize(
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
-
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+    return wrap(_cls)
 
 
 def is_serializable(instance_or_class: Any) -> bool:
@@ -430,11 +428,13 @@ def to_obj(
         class_serializer = find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
-        if is_dataclass_without_se(o):
-            # Do not automatically implement beartype if dataclass without serde decorator
-            # is passed, because it is surprising for users
-            # See https://github.com/yukinarit/pyserde/issues/480
-            serialize(type(o), type_check=disabled)
+        if is_dataclass_without_se(o) or (GENERATION.active() and is_dataclass(o)):
+            with CODEGEN_LOCK:  # another thread may be generating the code
+                if is_dataclass_without_se(o):
+                    # Do not automatically implement beartype if dataclass without serde decorator
+                    # is passed, because it is surprising for users
+                    # See https://github.com/yukinarit/pyserde/issues/480
+                    serialize(type(o), type_check=disabled)
             return serializable_to_obj(o)
         elif is_serializable(o):
             return serializable_to_obj(o)
-- 
2.43.0


From 28d2f589cb5de0f8fd1fb9f78ed4d2be47f2ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 02/21] fix: do not let the direction used first decide the
 defaults of the other

serialize() and deserialize() share the scope of a class; the settings were taken from whichever
created it, so to_dict() of a plain dataclass returned unconverted dates after from_dict().
---
 serde/de.py | 13 ++++++-------
 serde/se.py | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 6de642a..4e963be 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -291,14 +291,13 @@ def deserialize(
         # That's why we need the "scope.cls is not cls" check.
         scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
         if scope is None or scope.cls is not cls:
-            scope = Scope(
-                cls,
-                reuse_instances_default=reuse_instances_default,
-                convert_sets_default=convert_sets_default,
-                skip_if_default_default=skip_if_default,
-                skip_if_none_default=skip_if_none,
-            )
+            scope = Scope(cls)
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope may have been created for the other direction with other settings.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
diff --git a/serde/se.py b/serde/se.py
index d7734c6..b51a5d5 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -257,14 +257,13 @@ def serialize(
         # That's why we need the "scope.cls is not cls" check.
         scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
         if scope is None or scope.cls is not cls:
-            scope = Scope(
-                cls,
-                reuse_instances_default=reuse_instances_default,
-                convert_sets_default=convert_sets_default,
-                skip_if_default_default=skip_if_default,
-                skip_if_none_default=skip_if_none,
-            )
+            scope = Scope(cls)
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope may have been created for the other direction with other settings.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_serializers: list[ClassSerializer] = list(
-- 
2.43.0


From d0b3681996e30c044ce3e31255333cb49d820e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 03/21] fix: generate code for an undecorated subclass of an
 undecorated dataclass

Once code was generated for an undecorated dataclass, its undecorated subclasses inherited the
scope, counted as generated, and lost their own fields; used first, they worked.
---
 serde/core.py | 14 ++++++++++++++
 serde/de.py   | 17 +++++++++--------
 serde/se.py   | 17 +++++++++--------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 08e85fe..02f1f02 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -284,6 +284,9 @@ class Scope:
     transparent: bool = False
     """If True, serialize/deserialize as the single inner field (serde-rs `transparent`)."""
 
+    unmarked: set[str] = dataclasses.field(default_factory=set)
+    """ Functions generated although the class is not decorated. Not inherited by child classes """
+
     def __repr__(self) -> str:
         res: list[str] = []
 
@@ -390,6 +393,17 @@ class CodeGeneration:
         return scope.funcs if scope is not None and scope.cls is cls else {}
 
 
+def is_generated(cls: Any, key: str) -> bool:
+    """
+    Test if the main function `key` is generated for the class, or a decorated parent class.
+    """
+    scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
+    if not scope or key not in scope.funcs:
+        return False
+    typ = cls if isinstance(cls, type) else type(cls)
+    return scope.cls is typ or key not in scope.unmarked
+
+
 def raise_unsupported_type(obj: Any) -> None:
     # needed because we can not render a raise statement everywhere, e.g. as argument
     raise SerdeError(f"Unsupported type: {typename(type(obj))}")
diff --git a/serde/de.py b/serde/de.py
index 4e963be..c7beb1d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -90,6 +90,7 @@ from .core import (
     has_default_factory,
     ensure,
     fields,
+    is_generated,
     is_instance,
     literal_func_name,
     logger,
@@ -247,6 +248,7 @@ def deserialize(
     class_deserializer: ClassDeserializer | None = None,
     deny_unknown_fields: bool = False,
     transparent: bool = False,
+    _unmarked: bool = False,
     **kwargs: Any,
 ) -> type[T]:
     """
@@ -299,6 +301,10 @@ def deserialize(
         scope.skip_if_default_default = skip_if_default
         scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
+        if _unmarked:
+            scope.unmarked.add(FROM_DICT)
+        else:
+            scope.unmarked.discard(FROM_DICT)
 
         class_deserializers: list[ClassDeserializer] = list(
             itertools.chain(
@@ -341,7 +347,7 @@ def deserialize(
             if is_dataclass_without_de(typ) and typ is not cls:
                 # We call deserialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the deserialization function.
-                deserialize(typ)
+                deserialize(typ, _unmarked=True)
 
             # We don't want to add primitive class e.g "str" into the scope, but primitive
             # compatible types such as IntEnum and a subclass of primitives are added,
@@ -428,12 +434,7 @@ def is_deserializable(instance_or_class: Any) -> bool:
 def is_dataclass_without_de(cls: type[Any]) -> bool:
     if not dataclasses.is_dataclass(cls):
         return False
-    if not hasattr(cls, SERDE_SCOPE):
-        return True
-    scope: Scope | None = getattr(cls, SERDE_SCOPE)
-    if not scope:
-        return True
-    return FROM_DICT not in scope.funcs
+    return not is_generated(cls, FROM_DICT)
 
 
 class Deserializer(Generic[T], metaclass=abc.ABCMeta):
@@ -553,7 +554,7 @@ def from_obj(
                     # Do not automatically implement beartype if dataclass without serde decorator
                     # is passed, because it is surprising for users
                     # See https://github.com/yukinarit/pyserde/issues/480
-                    deserialize(c, type_check=disabled)
+                    deserialize(c, type_check=disabled, _unmarked=True)
             res = deserializable_to_obj(c)
         elif is_deserializable(c):
             res = deserializable_to_obj(c)
diff --git a/serde/se.py b/serde/se.py
index b51a5d5..56f30ca 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -85,6 +85,7 @@ from .core import (
     get_transparent_field,
     strict,
     fields,
+    is_generated,
     is_instance,
     logger,
     union_func_name,
@@ -212,6 +213,7 @@ def serialize(
     serialize_class_var: bool = False,
     transparent: bool = False,
     class_serializer: ClassSerializer | None = None,
+    _unmarked: bool = False,
     **kwargs: Any,
 ) -> type[T]:
     """
@@ -265,6 +267,10 @@ def serialize(
         scope.skip_if_default_default = skip_if_default
         scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
+        if _unmarked:
+            scope.unmarked.add(TO_DICT)
+        else:
+            scope.unmarked.discard(TO_DICT)
 
         class_serializers: list[ClassSerializer] = list(
             itertools.chain(GLOBAL_CLASS_SERIALIZER, [class_serializer] if class_serializer else [])
@@ -298,7 +304,7 @@ def serialize(
             if is_dataclass_without_se(typ) and typ is not cls:
                 # We call serialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the serialization function.
-                serialize(typ)
+                serialize(typ, _unmarked=True)
 
             if is_primitive(typ) and not is_enum(typ):
                 continue
@@ -360,12 +366,7 @@ def is_serializable(instance_or_class: Any) -> bool:
 def is_dataclass_without_se(cls: type[Any]) -> bool:
     if not dataclasses.is_dataclass(cls):
         return False
-    if not hasattr(cls, SERDE_SCOPE):
-        return True
-    scope: Scope | None = getattr(cls, SERDE_SCOPE)
-    if not scope:
-        return True
-    return TO_DICT not in scope.funcs
+    return not is_generated(cls, TO_DICT)
 
 
 def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
@@ -433,7 +434,7 @@ def to_obj(
                     # Do not automatically implement beartype if dataclass without serde decorator
                     # is passed, because it is surprising for users
                     # See https://github.com/yukinarit/pyserde/issues/480
-                    serialize(type(o), type_check=disabled)
+                    serialize(type(o), type_check=disabled, _unmarked=True)
             return serializable_to_obj(o)
         elif is_serializable(o):
             return serializable_to_obj(o)
-- 
2.43.0


From 4642260ad5397ec637688cfed0d974a0706b9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 04/21] fix: tell unions apart that differ only in the order of
 their members

Unions compare and hash equal regardless of the order of their members, so the
memoized get_args() and typename() and the cache of the wrapper classes answered
for Union[B, A] what they had computed for Union[A, B]: to_json()/from_json() with
both failed with a KeyError on the generated function's name.
---
 serde/compat.py | 7 +++++--
 serde/core.py   | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..ad36b06 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -143,7 +143,10 @@ def get_origin(typ: Any) -> Any | None:
     return typing.get_origin(typ) or get_np_origin(typ)
 
 
-@cache
+# Not memoized: ``Union`` hashes and compares equal regardless of the order of its
+# arguments, so a cache would return the arguments of ``Union[int, str]`` for
+# ``Union[str, int]`` if that happened to be seen first. The same is true for any
+# type that has a union somewhere in its arguments.
 def get_args(typ: type[Any]) -> tuple[Any, ...]:
     """
     Provide `get_args` that works in all python versions.
@@ -151,7 +154,7 @@ def get_args(typ: type[Any]) -> tuple[Any, ...]:
     return typing.get_args(typ) or get_np_args(typ)
 
 
-@cache
+# Not memoized: like ``get_args``, the result depends on the order of union arguments.
 def typename(typ: Any, with_typing_module: bool = False) -> str:
     """
     >>> from typing import Any
diff --git a/serde/core.py b/serde/core.py
index 02f1f02..b643409 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -94,6 +94,8 @@ SETTINGS = {"debug": False}
 @dataclass(frozen=True)
 class UnionCacheKey:
     union: Hashable
+    name: str
+    """ Unions are equal regardless of the order of their arguments, their names are not """
     tagging: Tagging
 
 
@@ -180,7 +182,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, name=typename(union_cls), tagging=tagging)
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -192,7 +194,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, name=typename(union_cls), tagging=tagging)
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
-- 
2.43.0


From 34f691409208cd0210557531155c2129b12d1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 05/21] fix: collect the types and literals of a class in the
 order of its fields

iter_types() and iter_literals() went through a set of types, whose order depends on
memory addresses: the names in the generated code's namespace, when two types share
one, were those of a random type, and of Literal[1, 2] and Literal[2, 1] in one class,
which are equal, only one got its function.
---
 serde/compat.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index ad36b06..0cbc808 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -346,55 +346,56 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
     The correct return type is `Iterator[Union[Type, typing._specialform]],
     but `typing._specialform` doesn't exist for python 3.6. Use `Any` instead.
     """
-    lst: set[Union[type[Any], Any]] = set()
+    # A dict, because the order must not depend on the hashes of the types.
+    lst: dict[Union[type[Any], Any], None] = {}
 
     def recursive(cls: Union[type[Any], Any]) -> None:
         if cls in lst:
             return
 
         if is_dataclass(cls):
-            lst.add(cls)
+            lst[cls] = None
             if isinstance(cls, type):
                 for f in dataclass_fields(cls):
                     if not f.metadata.get("serde_skip"):
                         recursive(f.type)
         elif isinstance(cls, str):
-            lst.add(cls)
+            lst[cls] = None
         elif is_opt(cls):
-            lst.add(Optional)
+            lst[Optional] = None
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_union(cls):
-            lst.add(Union)
+            lst[Union] = None
             for arg in type_args(cls):
                 recursive(arg)
         elif is_list(cls):
-            lst.add(list)
+            lst[list] = None
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_set(cls):
-            lst.add(set)
+            lst[set] = None
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_deque(cls):
-            lst.add(deque)
+            lst[deque] = None
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_counter(cls):
-            lst.add(Counter)
+            lst[Counter] = None
             args = type_args(cls)
             if args:
                 recursive(args[0])
         elif is_tuple(cls):
-            lst.add(tuple)
+            lst[tuple] = None
             for arg in type_args(cls):
                 recursive(arg)
         elif is_dict(cls):
-            lst.add(dict)
+            lst[dict] = None
             args = type_args(cls)
             if args and len(args) >= 2:
                 recursive(args[0])
@@ -402,7 +403,7 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
         elif is_pep695_type_alias(cls):
             recursive(cls.__value__)
         else:
-            lst.add(cls)
+            lst[cls] = None
 
     recursive(cls)
     return list(lst)
@@ -457,7 +458,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
     """
     Iterate over all literals that are used in the dataclass
     """
-    lst: set[Union[type[Any], Any]] = set()
+    lst: list[TypeLike] = []
     stack: list[TypeLike] = []  # To prevent infinite recursion
 
     def recursive(cls: Union[type[Any], Any]) -> None:
@@ -465,7 +466,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
             return
 
         if is_literal(cls):
-            lst.add(cls)
+            lst.append(cls)
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
@@ -494,7 +495,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
                 recursive(args[1])
 
     recursive(cls)
-    return list(lst)
+    return lst
 
 
 @cache
-- 
2.43.0


From 7face925c7f0b2701b30b5570e2c56e975135bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 06/21] fix: let the last registered global (de)serializer win
 for top-level values as well

For the fields of a class the (de)serializer registered last wins; for a value passed
directly, whose lookup is meant to mirror that, the first one did.
---
 serde/de.py | 5 +++--
 serde/se.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index c7beb1d..98a73db 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -463,9 +463,10 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     This mirrors the lookup used when rendering dataclass fields, so a deserializer
     registered with ``serde.add_deserializer`` also applies when ``typ`` is passed
     directly to ``from_dict``/``from_tuple`` instead of nested in a dataclass
-    (https://github.com/yukinarit/pyserde/issues/514).
+    (https://github.com/yukinarit/pyserde/issues/514). As for fields, the deserializer
+    registered last takes precedence.
     """
-    for class_deserializer in GLOBAL_CLASS_DESERIALIZER:
+    for class_deserializer in reversed(GLOBAL_CLASS_DESERIALIZER):
         for method in class_deserializer.__class__.deserialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is ``type[X]``; unwrap it to the value type ``X``.
             if get_args(method.signature.types[1])[0] is typ:
diff --git a/serde/se.py b/serde/se.py
index 56f30ca..a3c166d 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -375,9 +375,10 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     This mirrors the lookup used when rendering dataclass fields, so a serializer
     registered with ``serde.add_serializer`` also applies when an instance of
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
-    dataclass (https://github.com/yukinarit/pyserde/issues/514).
+    dataclass (https://github.com/yukinarit/pyserde/issues/514). As for fields, the
+    serializer registered last takes precedence.
     """
-    for class_serializer in GLOBAL_CLASS_SERIALIZER:
+    for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
             if method.signature.types[1] is typ:
-- 
2.43.0


From 0d8291dcc480d448fada9dbe3f31a323902520cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 07/21] fix: do not memoize an answer of is_union() given after
 an error

is_union() is memoized and swallowed every exception, e.g. the RecursionError of a call
close to the recursion limit: the type was then no union for the rest of the process.
---
 serde/compat.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 0cbc808..7fc10e1 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -507,19 +507,15 @@ def is_union(typ: Any) -> bool:
     True
     """
 
-    try:
-        # When `_WithTagging` is received, it will check inner type.
-        if isinstance(typ, _WithTagging):
-            return is_union(typ.inner)
-    except Exception:
-        pass
+    # No exception may be swallowed here: an answer given after e.g. a RecursionError
+    # would be memoized.
+    # When `_WithTagging` is received, it will check inner type.
+    if isinstance(typ, _WithTagging):
+        return is_union(typ.inner)
 
     # Python 3.10+ Union operator e.g. str | int
-    try:
-        if isinstance(typ, types.UnionType):
-            return True
-    except Exception:
-        pass
+    if isinstance(typ, types.UnionType):
+        return True
 
     # typing.Union
     return typing_inspect.is_union_type(typ)  # type: ignore
-- 
2.43.0


From 387262622c50effc07808b2f4a2f154e26e971d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 08/21] fix: raise the error of a class's constructor unchanged
 from within containers as well

from_obj() unwrapped UserError at every level of its recursion, so that the level above
took the user's error for one of its own and wrapped it in SerdeError: from_json(Foo, ..)
raised what Foo.__post_init__ had raised, from_json(list[Foo], ..) did not.
---
 serde/de.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 98a73db..7684cc7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -322,7 +322,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
-        g["from_obj"] = from_obj
+        g["from_obj"] = _from_obj
         g["get_generic_arg"] = get_generic_arg
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -499,7 +499,23 @@ def from_obj(
       when a float target is encountered. Useful for callers that want to treat ints or strings as
       floats.
     """
+    try:
+        return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
+    except UserError as e:
+        raise e.inner from None
+
 
+def _from_obj(
+    c: type[T],
+    o: Any,
+    named: bool,
+    reuse_instances: bool | None,
+    deserialize_numbers: Callable[[str | int], float] | None = None,
+) -> T:
+    """
+    Like `from_obj`, but an error of the user's code is still wrapped in `UserError`, so that
+    it isn't mistaken for an error of pyserde by the callers in between.
+    """
     res: Any
 
     # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not the
@@ -541,7 +557,7 @@ def from_obj(
         maybe_generic = c
     try:
         thisfunc = functools.partial(
-            from_obj,
+            _from_obj,
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -621,8 +637,8 @@ def from_obj(
 
         return cast(T, res)
 
-    except UserError as e:
-        raise e.inner from None
+    except UserError:
+        raise
 
     except Exception as e:
         raise SerdeError(e) from None
-- 
2.43.0


From 8a4ce86d1a2db82aac1650d176f8935ceb26a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 09/21] fix: use a newly registered global codec for unions
 that were used before

The wrapper class generated for a Union passed as top-level type was kept although it had been
generated without the codec.
---
 serde/core.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index b643409..aa12e0f 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -130,13 +130,24 @@ class Cache:
 
     classes: dict[Hashable, type[Any]] = dataclasses.field(default_factory=dict)
 
+    def clear(self) -> None:
+        """
+        Forget the wrapper classes, e.g. because they were generated without a new global class
+        (de)serializer.
+        """
+        self.classes.clear()
+
     def _get_class(self, cls: type[Any]) -> type[Any]:
         """
         Get a wrapper class from the the cache. If not found, it will generate
         the class and store it in the cache.
         """
         wrapper = self.classes.get(cls)  # type: ignore[call-overload] # mypy doesn't recognize type[Any] as Hashable
-        return wrapper or self._generate_class(cls)
+        if wrapper is None:
+            with CODEGEN_LOCK:
+                wrapper = self.classes.get(cls)  # type: ignore[call-overload]
+                wrapper = wrapper or self._generate_class(cls)
+        return wrapper
 
     def _generate_class(self, cls: type[Any]) -> type[Any]:
         """
@@ -184,7 +195,10 @@ class Cache:
         union_cls, tagging = _extract_from_with_tagging(cls)
         cache_key = UnionCacheKey(union=union_cls, name=typename(union_cls), tagging=tagging)
         wrapper = self.classes.get(cache_key)
-        return wrapper or self._generate_union_class(cls)
+        if wrapper is None:
+            with CODEGEN_LOCK:
+                wrapper = self.classes.get(cache_key) or self._generate_union_class(cls)
+        return wrapper
 
     def _generate_union_class(self, cls: type[Any]) -> type[Any]:
         """
@@ -1340,6 +1354,7 @@ def add_serializer(serializer: ClassSerializer) -> None:
     """
     with CODEGEN_LOCK:
         GLOBAL_CLASS_SERIALIZER.append(serializer)
+        CACHE.clear()
 
 
 def add_deserializer(deserializer: ClassDeserializer) -> None:
@@ -1348,3 +1363,4 @@ def add_deserializer(deserializer: ClassDeserializer) -> None:
     """
     with CODEGEN_LOCK:
         GLOBAL_CLASS_DESERIALIZER.append(deserializer)
+        CACHE.clear()
-- 
2.43.0


From bbfac3f7b75856ea7baa2b3b8d2e120ddba5f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 10/21] fix: do not take True or 1.0 for Literal[1]

Literals were looked up by equality, so an int literal field could end up holding a bool or a float.
---
 serde/de.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7684cc7..dae905e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1502,8 +1502,10 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
-  if data in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
-    return data
+  for v in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
+    # 1, 1.0 and True are equal, but not the same literal
+    if data == v and isinstance(data, type(v)) and isinstance(data, bool) == isinstance(v, bool):
+      return data
   raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
   """,
         }
-- 
2.43.0


From 6a559b03623dd85c17d27d0f5c2e2b6b8375e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 11/21] fix: do not take a list for a numpy scalar

---
 serde/de.py    |  7 +++++++
 serde/numpy.py | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index dae905e..a251879 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -115,6 +115,12 @@ def _is_numpy_scalar(typ: Any) -> bool:
     return is_numpy_scalar(typ)
 
 
+def _numpy_scalar(typ: Any, value: Any) -> Any:
+    from .numpy import numpy_scalar
+
+    return numpy_scalar(typ, value)
+
+
 def _is_numpy_jaxtyping(typ: Any) -> bool:
     from .numpy import is_numpy_jaxtyping
 
@@ -328,6 +334,7 @@ def deserialize(
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
         g["coerce_object"] = coerce_object
+        g["numpy_scalar"] = _numpy_scalar
         g["deserialize_enum"] = deserialize_enum
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
diff --git a/serde/numpy.py b/serde/numpy.py
index 7af28b5..98d2415 100644
--- a/serde/numpy.py
+++ b/serde/numpy.py
@@ -65,7 +65,16 @@ try:
         return f"{arg.varname}.item()"
 
     def deserialize_numpy_scalar(arg: Any) -> str:
-        return f"{fullname(arg.type)}({arg.data})"
+        return f"numpy_scalar({fullname(arg.type)}, {arg.data})"
+
+    def numpy_scalar(typ, value):
+        """
+        Construct a numpy scalar. `typ(value)` gives an array if the value is a list.
+        """
+        scalar = typ(value)
+        if not isinstance(scalar, np.generic):
+            raise TypeError(f"{value!r} is not a scalar")
+        return scalar
 
     def is_numpy_array(typ) -> bool:
         origin = get_origin(typ)
@@ -123,6 +132,9 @@ except ImportError:
     def deserialize_numpy_scalar(arg):
         return ""
 
+    def numpy_scalar(typ, value):
+        return value
+
     def is_numpy_array(typ) -> bool:
         return False
 
-- 
2.43.0


From ebb0f34bd22b544aefcc50a5793dac2c64656ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 12/21] fix: decode the elements of a top-level tuple[T, ...]

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index a251879..de8348d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -607,8 +607,10 @@ def _from_obj(
             else:
                 res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
                 res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
         elif is_dict(c):
-- 
2.43.0


From 8dee5827d1a8327e55dd975885d00bbc56bcda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 13/21] fix: decode int-based enums in unions

---
 serde/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index de8348d..3cee6ea 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1494,7 +1494,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
+    {% if is_primitive(t) and not is_enum(t) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1710,6 +1710,7 @@ def render_union_func(
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
         is_primitive=is_primitive,
+        is_enum=is_enum,
         is_none=is_none,
         typename=typename,
     )
-- 
2.43.0


From 220999d19ff1a08f17865ba0732ba571953830f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 14/21] fix: don't modify the user's mapping when adding an
 internal tag

The serialized form of a transparent class or of a custom codec can be an object
of the user. The tag was stored into that very object.
---
 serde/se.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index a3c166d..fbf5a84 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -739,9 +739,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    res = {{rvalue(arg(t))}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
-    return res
+    return {**{{rvalue(arg(t))}}, "{{tagging.tag}}": "{{typename(t)}}"}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-- 
2.43.0


From 6bc37d2f60c283179e5e3a0fd10dc47b6f461cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 15/21] fix: from_tuple reads each field from the position
 to_tuple writes it to

Fields with init=False or skip_deserializing are written by to_tuple but were not counted when
reading, so the fields after them were silently given their neighbours' values. Keyword-only
fields were passed by position.
---
 serde/de.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 3cee6ea..10611eb 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1340,13 +1340,17 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f,f.index))}}
   {% endfor %}
 
   try:
     return cls(
       {% for f in fields %}
+      {% if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% else %}
       __{{f.name}},
+      {% endif %}
       {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1537,7 +1541,19 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    all_fields = defields(cls)
+    force_kw = False
+    index = 0
+    for f in all_fields:
+        if f.kw_only or not renderable(f):
+            force_kw = True
+        if force_kw:
+            f.kw_only = True
+        f.index = index
+        # `to_tuple` also writes fields which are not deserialized.
+        if renderable(f) or not (f.skip or f.skip_serializing):
+            index += 1
+    fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1638,7 +1654,7 @@ def render_from_dict(
     all_fields = defields(cls)
     force_kw = False
     for field in all_fields:
-        if not renderable(field):
+        if field.kw_only or not renderable(field):
             force_kw = True
         if force_kw:
             field.kw_only = True
-- 
2.43.0


From 8486c5c862d3f75ee28b40f43d1622bb4c7c9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 16/21] fix: don't apply dataclass again to a class that has it

A class with a ClassVar or KW_ONLY annotation was not recognized as a dataclass. It was made a
dataclass again, which discarded the options of its fields that have a default, e.g. rename and
init=False.
---
 serde/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index aa12e0f..75c9a45 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1178,6 +1178,10 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
     if not dataclasses.is_dataclass(cls):
         return True
 
+    # The class itself has @dataclass, whatever it annotates e.g. ClassVar or KW_ONLY.
+    if "__dataclass_fields__" in cls.__dict__:
+        return False
+
     # Checking is_dataclass is not enough in such a case that the class is inherited
     # from another dataclass. To do it correctly, check if all fields in __annotations__
     # are present as dataclass fields.
-- 
2.43.0


From e7f78eec5a5a2a334740fd0bcc4b3459cae52429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 17/21] fix: use one set of global codecs for the whole class

A codec registered while code of a class was generated (by user's code that runs when annotations
are evaluated) shifted the indices of the codecs: serializing failed, or applied a codec to a type
it isn't for.
---
 serde/core.py | 10 ++++++++++
 serde/de.py   |  6 +++---
 serde/se.py   |  6 +++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 75c9a45..00cf532 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -366,6 +366,9 @@ class CodeGeneration:
     key: str
     """ Name of the function which is generated last """
 
+    registry: list[Any]
+    """ Global class (de)serializers """
+
     stack: list[type[Any]] = dataclasses.field(default_factory=list)
     """ Classes for which code is currently being generated. To avoid infinite recursion """
 
@@ -374,6 +377,10 @@ class CodeGeneration:
     )
     """ Classes generated by the outermost generation, with the function they had before """
 
+    class_codecs: list[Any] = dataclasses.field(default_factory=list)
+    """ Global class (de)serializers when the innermost generation started. It may run user's code
+    which registers others, but has to refer to them by the same indices throughout """
+
     def active(self) -> bool:
         return bool(self.stack)
 
@@ -384,8 +391,10 @@ class CodeGeneration:
 
             depth = len(self.stack)
             mark = len(self.batch)
+            class_codecs = self.class_codecs
             try:
                 self.stack.append(cls)
+                self.class_codecs = list(self.registry)
                 self.batch.append((cls, self._own_funcs(cls).get(self.key)))
                 generate(cls)
             except BaseException:
@@ -400,6 +409,7 @@ class CodeGeneration:
                 raise
             finally:
                 del self.stack[depth:]
+                self.class_codecs = class_codecs
                 if not self.stack:
                     self.batch.clear()
             return cls
diff --git a/serde/de.py b/serde/de.py
index 10611eb..968de33 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -237,7 +237,7 @@ def _make_deserialize(
 # The `deserialize` function can call itself recursively when it needs to generate code for
 # unmarked dataclasses. To avoid infinite recursion, this remembers types for which code is
 # currently being generated.
-GENERATION = CodeGeneration(FROM_DICT)
+GENERATION = CodeGeneration(FROM_DICT, GLOBAL_CLASS_DESERIALIZER)
 
 
 @dataclass_transform()
@@ -314,7 +314,7 @@ def deserialize(
 
         class_deserializers: list[ClassDeserializer] = list(
             itertools.chain(
-                GLOBAL_CLASS_DESERIALIZER, [class_deserializer] if class_deserializer else []
+                GENERATION.class_codecs, [class_deserializer] if class_deserializer else []
             )
         )
 
@@ -929,7 +929,7 @@ class Renderer:
         """
         implemented_methods: dict[type[Any], int] = {}
         class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
-            GLOBAL_CLASS_DESERIALIZER, [self.class_deserializer] if self.class_deserializer else []
+            GENERATION.class_codecs, [self.class_deserializer] if self.class_deserializer else []
         )
         for n, class_deserializer in enumerate(class_deserializers):
             for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
diff --git a/serde/se.py b/serde/se.py
index fbf5a84..f8fdddd 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -196,7 +196,7 @@ def _make_serialize(
 # The `serialize` function can call itself recursively when it needs to generate code for
 # unmarked dataclasses. To avoid infinite recursion, this remembers types for which code is
 # currently being generated.
-GENERATION = CodeGeneration(TO_DICT)
+GENERATION = CodeGeneration(TO_DICT, GLOBAL_CLASS_SERIALIZER)
 
 
 @dataclass_transform()
@@ -273,7 +273,7 @@ def serialize(
             scope.unmarked.discard(TO_DICT)
 
         class_serializers: list[ClassSerializer] = list(
-            itertools.chain(GLOBAL_CLASS_SERIALIZER, [class_serializer] if class_serializer else [])
+            itertools.chain(GENERATION.class_codecs, [class_serializer] if class_serializer else [])
         )
 
         # Set some globals for all generated functions
@@ -914,7 +914,7 @@ class Renderer:
         """
         implemented_methods: dict[type[Any], int] = {}
         class_serializers: Iterable[ClassSerializer] = itertools.chain(
-            GLOBAL_CLASS_SERIALIZER, [self.class_serializer] if self.class_serializer else []
+            GENERATION.class_codecs, [self.class_serializer] if self.class_serializer else []
         )
         for n, class_serializer in enumerate(class_serializers):
             for method in class_serializer.__class__.serialize.methods:  # type: ignore
-- 
2.43.0


From d39acab8657d89a6a73201a7ae9cfee8d4d97b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 18/21] fix: decode a bare frozenset to a frozenset

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 968de33..7c9db3c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -591,7 +591,7 @@ def _from_obj(
                 res = [thisfunc(type_args(c)[0], e) for e in o]
         elif is_set(c):
             if is_bare_set(c):
-                res = set(o)
+                res = frozenset(o) if is_frozen_set(c) else set(o)
             elif is_frozen_set(c):
                 res = frozenset(thisfunc(type_args(c)[0], e) for e in o)
             else:
@@ -1117,7 +1117,7 @@ class Renderer:
         Render rvalue for set.
         """
         if is_bare_set(arg.type):
-            return f"set({arg.data})"
+            return f"{'frozenset' if is_frozen_set(arg.type) else 'set'}({arg.data})"
         elif is_frozen_set(arg.type):
             return f"frozenset({self.render(arg[0])} for v in {arg.data})"
         else:
-- 
2.43.0


From 31eb5eb04bc030aa859345d4c516629635971f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 19/21] fix: coerce the value of a bare dict field, like other
 containers

---
 serde/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 7c9db3c..040d66e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1166,7 +1166,7 @@ class Renderer:
         Render rvalue for dict.
         """
         if is_bare_dict(arg.type):
-            return arg.data
+            return arg.data if self.suppress_coerce else f"dict({arg.data})"
         elif is_default_dict(arg.type):
             k = arg.key_field()
             v = arg.value_field()
-- 
2.43.0


From c22eedd6504032fe7c659d2a905be3e217b5490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 20/21] fix: don't hide errors of custom serializers when
 comparing with a dataclass default

---
 serde/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 00cf532..8f2dc0e 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -681,7 +681,13 @@ def skip_if_default(v: Any, default: Any | None = None) -> Any:
             from .se import to_dict as serde_to_dict
 
             serialized_default = serde_to_dict(default)
-        except Exception:
+        except SerdeError as e:
+            cause: Any = e
+            while isinstance(cause, SerdeError) and cause.args:
+                cause = cause.args[0]
+            if isinstance(cause, Exception):
+                # The default is serializable, but e.g. a custom serializer failed.
+                raise
             serialized_default = dataclasses.asdict(default)
 
     return v == serialized_default  # Why return type is deduced to be Any?
-- 
2.43.0


From c31f507ad50aae467f952fdcb8f92757b37ee164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 21/21] fix: pass decoded fields by name to constructors that
 take InitVar parameters

---
 serde/de.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 040d66e..0391a54 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1328,6 +1328,15 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def has_init_var(cls: type[Any]) -> bool:
+    """
+    Whether the constructor of the dataclass takes `InitVar` parameters, which can stand between
+    the fields.
+    """
+    fields = getattr(cls, "__dataclass_fields__", {}).values()
+    return any(f._field_type is dataclasses._FIELD_INITVAR for f in fields)  # type: ignore
+
+
 jinja2_env = jinja2.Environment(
     loader=jinja2.DictLoader(
         {
@@ -1542,7 +1551,7 @@ def render_from_iter(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw = False
+    force_kw = has_init_var(cls)
     index = 0
     for f in all_fields:
         if f.kw_only or not renderable(f):
@@ -1652,7 +1661,7 @@ def render_from_dict(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw = False
+    force_kw = has_init_var(cls)
     for field in all_fields:
         if field.kw_only or not renderable(field):
             force_kw = True
-- 
2.43.0

