From c3a9e33acd4ffaa8a6abc31382bed37177a29637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 01/15] fix: write results and messages atomically

A run that was killed, or that failed while writing, left a truncated result
behind. Since the truncated file already contained the source-hash, it was
considered as up to date by all later runs. Messages files were truncated
likewise and, moreover, written with the encoding of the locale, but read
as utf-8 by main().
---
 ts2pythonParser.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e0f7c70..115ad59 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -30,6 +30,7 @@ import keyword
 from functools import partial, lru_cache
 import os
 import sys
+import uuid
 from typing import Tuple, List, Union, Any, Callable, Set, Dict, Sequence, cast
 
 
@@ -1307,6 +1308,26 @@ def serialize_result(result: Any) -> Union[str, bytes]:
         return repr(result)
 
 
+def save_file(file_name: str, content: str):
+    """Writes ``content`` to the file ``file_name``. The content is written
+    to a temporary file first, which then replaces ``file_name``. So, even
+    if writing fails or the process gets killed, ``file_name`` never contains
+    a truncated result.
+    """
+    file_name = os.path.realpath(file_name)  # preserve symbolic links
+    temp_name = os.path.join(os.path.dirname(file_name), f'.ts2python_{uuid.uuid4().hex}.tmp')
+    try:
+        with open(temp_name, 'x', encoding='utf-8') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_name, file_name)
+    except BaseException:
+        if os.path.exists(temp_name):
+            os.remove(temp_name)
+        raise
+
+
 def process_file(source: str, result_filename: str = '') -> str:
     """Compiles the source and writes the serialized results back to disk,
     unless any fatal errors have occurred. Error and Warning messages are
@@ -1333,16 +1354,14 @@ def process_file(source: str, result_filename: str = '') -> str:
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
         if os.path.abspath(source_filename) != os.path.abspath(result_filename):
-            with open(result_filename, 'w', encoding='utf-8') as f:
-                f.write(serialize_result(result))
+            save_file(result_filename, serialize_result(result))
         else:
             errors.append(Error('Source and destination have the same name "%s"!'
                                 % result_filename, 0, FATAL))
     if errors:
         err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
         err_filename = os.path.splitext(result_filename)[0] + err_ext
-        with open(err_filename, 'w') as f:
-            f.write('\n'.join(canonical_error_strings(errors)))
+        save_file(err_filename, '\n'.join(canonical_error_strings(errors)))
         return err_filename
     return ''
 
-- 
2.43.0


From 764d32f06bf2b4e2b4062c75e4dc05ccc8e069d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 02/15] fix: do not mistake the content of the source file for
 its name

If the destination existed already, process_file() passed the content of the
source file on to the compiler, which takes a single line without a line-feed
for a file name. Thus, a source file consisting of a single line could be
compiled only once.
---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 115ad59..001f40e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1345,11 +1345,12 @@ def process_file(source: str, result_filename: str = '') -> str:
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8') as f:
             result = f.read()
+        source_text = source
         if source_filename == source:
             with open(source_filename, 'r', encoding='utf-8') as f:
-                source = f.read()
+                source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source):
+        if m and m.groups()[-1] == source_hash(source_text):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-- 
2.43.0


From 60e0bfe98743539cabef47a83be8b94e1232631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 03/15] fix: do not overwrite the source if the destination is
 a link to it

---
 ts2pythonParser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 001f40e..13497c8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1328,6 +1328,15 @@ def save_file(file_name: str, content: str):
         raise
 
 
+def is_same_file(file_a: str, file_b: str) -> bool:
+    """Returns True, if both names refer to the same file, even if this file
+    is reached through a link."""
+    try:
+        return os.path.samefile(file_a, file_b)
+    except OSError:  # at least one of the files does not exist
+        return os.path.abspath(file_a) == os.path.abspath(file_b)
+
+
 def process_file(source: str, result_filename: str = '') -> str:
     """Compiles the source and writes the serialized results back to disk,
     unless any fatal errors have occurred. Error and Warning messages are
@@ -1354,7 +1363,7 @@ def process_file(source: str, result_filename: str = '') -> str:
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-        if os.path.abspath(source_filename) != os.path.abspath(result_filename):
+        if not is_same_file(source_filename, result_filename):
             save_file(result_filename, serialize_result(result))
         else:
             errors.append(Error('Source and destination have the same name "%s"!'
-- 
2.43.0


From 0b38199b9b9b049310e6881ecd434faf8ab89155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 04/15] fix: do not lose errors and warnings of sources that
 are up to date

When processing an unchanged source that had yielded errors or warnings a
second time, process_file() claimed that there were none. Conversely, the
messages of an earlier version of the source remained on the disk after the
source had been corrected.
---
 ts2pythonParser.py | 49 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 13497c8..dd05565 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1308,6 +1308,13 @@ def serialize_result(result: Any) -> Union[str, bytes]:
         return repr(result)
 
 
+def read_source_hash(code: str) -> str:
+    """Returns the source-hash that has been recorded in the generated code
+    or the empty string, if there is none."""
+    m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', code)
+    return m.groups()[-1] if m else ''
+
+
 def save_file(file_name: str, content: str):
     """Writes ``content`` to the file ``file_name``. The content is written
     to a temporary file first, which then replaces ``file_name``. So, even
@@ -1342,7 +1349,8 @@ def process_file(source: str, result_filename: str = '') -> str:
     unless any fatal errors have occurred. Error and Warning messages are
     written to a file with the same name as `result_filename` with an
     appended "_ERRORS.txt" or "_WARNINGS.txt" in place of the name's
-    extension. Returns the name of the error-messages file or an empty
+    extension. Messages files left over from earlier versions of the source
+    are removed. Returns the name of the error-messages file or an empty
     string, if no errors of warnings occurred.
     """
     source_filename = source if is_filename(source) else ''
@@ -1351,29 +1359,42 @@ def process_file(source: str, result_filename: str = '') -> str:
             result_filename = source_filename[:result_filename.rfind('.')] + '.py'
         else:
             result_filename = "out.py"
+    base_name = os.path.splitext(result_filename)[0]
+    messages_files = [base_name + '_ERRORS.txt', base_name + '_WARNINGS.txt']
+    recorded_hash = ''
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8') as f:
-            result = f.read()
+            recorded_hash = read_source_hash(f.read())
         source_text = source
         if source_filename == source:
             with open(source_filename, 'r', encoding='utf-8') as f:
                 source_text = f.read()
-        m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source_text):
+        if recorded_hash and recorded_hash == source_hash(source_text) \
+                and not any(os.path.exists(name) for name in messages_files):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
-    if not has_errors(errors, FATAL):
-        if not is_same_file(source_filename, result_filename):
-            save_file(result_filename, serialize_result(result))
-        else:
-            errors.append(Error('Source and destination have the same name "%s"!'
-                                % result_filename, 0, FATAL))
+    write_result = not has_errors(errors, FATAL)
+    if write_result and is_same_file(source_filename, result_filename):
+        errors.append(Error('Source and destination have the same name "%s"!'
+                            % result_filename, 0, FATAL))
+        write_result = False
+    err_filename = ''
     if errors:
-        err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
-        err_filename = os.path.splitext(result_filename)[0] + err_ext
+        # messages must be written before the result, because a result that is
+        # up to date will not be compiled again, unless there is a messages file
+        err_filename = messages_files[0 if has_errors(errors, ERROR) else 1]
         save_file(err_filename, '\n'.join(canonical_error_strings(errors)))
-        return err_filename
-    return ''
+    if write_result:
+        code = serialize_result(result)
+        if not recorded_hash or recorded_hash != read_source_hash(code):
+            save_file(result_filename, code)
+    for name in messages_files:
+        if name != err_filename and not is_same_file(source_filename, name):
+            try:
+                os.remove(name)  # messages from an earlier version of the source
+            except FileNotFoundError:
+                pass
+    return err_filename
 
 
 def batch_process(file_names: List[str], out_dir: str,
-- 
2.43.0


From 0ef60ddbd6868794e1f9cb4f35d40ebc8d81c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 05/15] fix: reset the compiler completely after an illegal
 option value

reset() marked the compiler as clean before it validated the options. So,
if it raised a ValueError because of an illegal value for RenderAnonymous,
the next compilation used this value and the state of the last one.
---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index dd05565..48bde4a 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -437,7 +437,6 @@ class ts2pythonCompiler(Compiler):
     """
 
     def reset(self):
-        super().reset()
         bcn = get_config_value('ts2python.BaseClassName', 'TypedDict')
         i = bcn.rfind('.')
         if i >= 0:
@@ -482,6 +481,7 @@ class ts2pythonCompiler(Compiler):
         self.optional_keys: List[List[str]] = [[]]
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
+        super().reset()  # must be last: marks the compiler as properly reset
 
 
     def compile(self, node) -> str:
-- 
2.43.0


From 64ddaaa8a82a34a009650b6724c99b2d160a6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 06/15] fix: do not change types when validating values against
 them

Validation replaced the annotations of validated classes, e.g. List[str] by
list, and the arguments of generic types, which typing caches and shares.
---
 ts2python/json_validation.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fe142a2..12957cd 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -61,9 +61,12 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
         O = get_origin(T)
         if inspect.isclass(O):
             return O
-        else:
-            T = O[get_args(T)]
-    if isinstance(T, ForwardRef):
+        elif str(T).find('ForwardRef') >= 0:
+            # never change T itself, because generic types are cached and shared
+            if Ur_T is None:  Ur_T = T
+            T = T.copy_with(tuple(resolve_forward_refs(arg, Ur_T)
+                                  for arg in get_args(T)))
+    elif isinstance(T, ForwardRef):
         if Ur_T is None:  Ur_T = T
         if sys.version_info >= (3, 9, 0):
             T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__,
@@ -71,11 +74,6 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
         else:
             T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__)
         # T = resolve_forward_refs(T, Ur_T)
-        return T
-    elif str(T).find('ForwardRef') >= 0:
-        if Ur_T is None:  Ur_T = T
-        T.__args__ = tuple(resolve_forward_refs(arg, Ur_T)
-                           for arg in get_args(T))
     return T
 
 
@@ -247,10 +245,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     for field, field_type in get_type_hints(T).items():
         if field not in D:
             continue
-        resolved_field_type = resolve_forward_refs(field_type, T)
-        if resolved_field_type != field_type:
-            field_type = resolved_field_type
-            T.__annotations__[field] = field_type
+        field_type = resolve_forward_refs(field_type, T)
         if is_TypedDictClass(field_type):
             value = D[field]
             if isinstance(value, Dict):
-- 
2.43.0


From dfd80169ed0949b333a10113d2c545920cb8f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 07/15] fix: do not validate enums against the value set of
 their base class

If an enum without members had been validated, its (empty) value set was
inherited by all enums derived from it.
---
 ts2python/json_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 12957cd..5da4594 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -80,7 +80,7 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
 def validate_enum(val: Any, typ: Enum):
     # if not any(member.value == val for member in typ.__members__.values()):
     #     raise ValueError(f"{val} is not contained in enum {typ}")
-    if not hasattr(typ, '__value_set__'):
+    if '__value_set__' not in typ.__dict__:  # don't use the base-class's value set
         typ.__value_set__ = {member.value for member in typ.__members__.values()}
     if val not in typ.__value_set__:
         raise ValueError(f"{val} is not contained in enum {typ}")
-- 
2.43.0


From 5a80d252b078333603c19ae591d30d1808e92709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 08/15] fix: do not lose or misplace registrations with forward
 references

Single dispatch with forward-referenced types
- ignored a forward-referenced type registered after the first dispatch of
  that type, because the dispatch cache was not cleared,
- ignored registrations annotated with a union,
- lost all pending registrations if resolving one of them was interrupted
  or failed, or if two threads resolved them at the same time,
- let a pending registration override a later one for the same class.
---
 ts2python/singledispatch_shim.py | 176 ++++++++++++++++---------------
 1 file changed, 93 insertions(+), 83 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 877c1a0..3bccf87 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -57,11 +57,18 @@ def singledispatch(func):
     # There are many programs that use functools without singledispatch, so we
     # trade-off making singledispatch marginally slower for the benefit of
     # making start-up of such applications slightly faster.
-    import types, weakref
+    import itertools, threading, types, weakref
 
     registry = {}
     dispatch_cache = weakref.WeakKeyDictionary()
     cache_token = None
+    lock = threading.RLock()
+    # registrations the type annotations of which could not be resolved, yet
+    postponed = []
+    # running numbers ensure that registrations that have been postponed
+    # do not override registrations that have been added later
+    running_number = itertools.count(1)
+    registered_as = {}
 
     def dispatch(cls):
         """generic_func.dispatch(cls) -> <function implementation>
@@ -71,36 +78,80 @@ def singledispatch(func):
 
         """
         nonlocal cache_token
-        if cache_token is not None:
-            current_token = get_cache_token()
-            if cache_token != current_token:
-                dispatch_cache.clear()
-                cache_token = current_token
-        try:
-            impl = dispatch_cache[cls]
-        except KeyError:
+        if cache_token is None or cache_token == get_cache_token():
+            try:
+                return dispatch_cache[cls]
+            except KeyError:
+                pass
+        with lock:
+            if cache_token is not None:
+                current_token = get_cache_token()
+                if cache_token != current_token:
+                    dispatch_cache.clear()
+                    cache_token = current_token
+            error = register_postponed()
             try:
                 impl = registry[cls]
             except KeyError:
-                if 'postponed' in registry:
-                    postponed = registry['postponed']
-                    del registry['postponed']
-                    for postponed_cls in postponed:
-                        register(postponed_cls)
-                    if 'postponed' in registry:
-                        for f in registry['postponed']:
-                            get_type_hints(f)   # provoke NameError
-                        raise AssertionError('singledispatch: Internal Error: '
-                                             + str(registry['postponed']))
-                    try:
-                        impl = registry[cls]
-                    except KeyError:
-                        impl = _find_impl(cls, registry)
-                else:
-                    impl = _find_impl(cls, registry)
-            dispatch_cache[cls] = impl
+                if error is not None:
+                    raise error
+                impl = _find_impl(cls, registry)
+            if not postponed:
+                dispatch_cache[cls] = impl
         return impl
 
+    def register_postponed():
+        """Registers those of the postponed functions the type annotations
+        of which can be resolved by now. Returns the first error that
+        occurred in the process or None."""
+        error = None
+        for item in tuple(postponed):
+            number, func = item
+            try:
+                add_to_registry(annotated_type(func), func, number)
+                postponed.remove(item)
+            except NameError as e:
+                error = error or e
+            except TypeError as e:
+                postponed.remove(item)  # annotation is not a class
+                error = error or e
+        return error
+
+    def add_to_registry(cls, func, number):
+        nonlocal cache_token
+        dispatch_cache.clear()
+        for typ in (get_args(cls) if _is_union_type(cls) else (cls,)):
+            if number > registered_as.get(typ, 0):
+                registry[typ] = func
+                registered_as[typ] = number
+            if cache_token is None and hasattr(typ, '__abstractmethods__'):
+                cache_token = get_cache_token()
+
+    def annotated_type(func):
+        """Returns the type with which the first annotated argument of func
+        is annotated. Raises a NameError, if the annotation is a forward
+        reference that cannot be resolved, and a TypeError if it is
+        neither a class nor a union of classes."""
+        argname, cls = next(iter(get_type_hints(func).items()))
+        if isinstance(cls, ForwardRef):
+            if sys.version_info >= (3, 9, 0):
+                cls = cls._evaluate(globals(), sys.modules[func.__module__].__dict__,
+                                    recursive_guard=set())
+            else:
+                cls = cls._evaluate(globals(), sys.modules[func.__module__].__dict__)
+        if not _is_valid_dispatch_type(cls):
+            if _is_union_type(cls):
+                raise TypeError(
+                    f"Invalid annotation for {argname!r}. "
+                    f"{cls!r} not all arguments are classes."
+                )
+            else:
+                raise TypeError(
+                    f"Invalid annotation for {argname!r}. "
+                    f"{cls!r} of type {type(cls)!r} is not a class."
+                )
+        return cls
+
     def _is_union_type(cls):
         try:
             return get_origin(cls) in {Union, types.UnionType}
@@ -120,74 +171,33 @@ def singledispatch(func):
         Registers a new implementation for the given *cls* on a *generic_func*.
 
         """
-        nonlocal cache_token
         if _is_valid_dispatch_type(cls):
             if func is None:
                 return lambda f: register(cls, f)
+            with lock:
+                add_to_registry(cls, func, next(running_number))
         else:
             if func is not None:
                 raise TypeError(
                     f"Invalid first argument to `register()`. "
                     f"{cls!r} is not a class or union type."
                 )
-            ann = getattr(cls, '__annotations__', {})
-            if not ann:
-                if isinstance(cls, ForwardRef):
-                    obj = next(iter(registry.values()))
-                    mod = obj.__module__
-                    method = cls.__forward_value__
-                    cls.__forward_value__ = None
-                    if sys.version_info >= (3, 9, 0):
-                        cls = cls._evaluate(globals(), sys.modules[mod].__dict__,
-                                        recursive_guard=set())
-                    else:
-                        cls = cls._evaluate(globals(), sys.modules[mod].__dict__)
-                else:
-                    raise TypeError(
-                        f"Invalid first argument to `register()`: {cls!r}. "
-                        f"Use either `@register(some_class)` or plain `@register` "
-                        f"on an annotated function."
-                    )
-            else:
-                method = None
             func = cls
-
-            # only import typing if annotation parsing is necessary
-            try:
-                argname, cls = next(iter(get_type_hints(func).items()))
-                if not isinstance(cls, type) and str(type(cls))[1:6] == "class":
-                    raise NameError
-            except NameError:
-                if cls != func:
-                    try:
-                        cls.__forward_value__ = func
-                    except AttributeError as e:
-                        pass  # TODO: Is this risky?
-                        # raise(e)
-                registry.setdefault('postponed', []).append(cls)
-                return func
-            except StopIteration:
-                func = method
-            if not _is_valid_dispatch_type(cls):
-                if _is_union_type(cls):
-                    raise TypeError(
-                        f"Invalid annotation for {argname!r}. "
-                        f"{cls!r} not all arguments are classes."
-                    )
+            if not getattr(func, '__annotations__', {}):
+                raise TypeError(
+                    f"Invalid first argument to `register()`: {func!r}. "
+                    f"Use either `@register(some_class)` or plain `@register` "
+                    f"on an annotated function."
+                )
+            with lock:
+                number = next(running_number)
+                try:
+                    cls = annotated_type(func)
+                except (NameError, TypeError):
+                    postponed.append((number, func))
+                    dispatch_cache.clear()
                 else:
-                    raise TypeError(
-                        f"Invalid annotation for {argname!r}. "
-                        f"{cls!r} of type {type(cls)!r} is not a class."
-                    )
-
-        if _is_union_type(cls):
-            for arg in get_args(cls):
-                registry[arg] = func
-        else:
-            registry[cls] = func
-        if cache_token is None and hasattr(cls, '__abstractmethods__'):
-            cache_token = get_cache_token()
-        dispatch_cache.clear()
+                    add_to_registry(cls, func, number)
         return func
 
     def wrapper(*args, **kw):
-- 
2.43.0


From 2f877874abdb35f9d38a8e71b26377537134d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 09/15] fix: assign the parser names when loading the module

Upon first use, this is neither thread-safe nor repeatable if interrupted.
---
 ts2pythonParser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 48bde4a..8aa6777 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -244,6 +244,11 @@ get_grammar = parsing.factory # for backwards compatibility, only
 #
 #######################################################################
 
+# Assign the parser names while this module is being loaded. Otherwise, this would
+# happen upon the first use of the grammar, where it is neither thread-safe, nor
+# can it be repeated after it has been interrupted.
+ts2pythonGrammar._assign_parser_names__()
+
 SPECIAL_FUNCTIONS = {"Symbol.iterator": "__iter__"}
 
 def convert_special_function(p: Path):
-- 
2.43.0


From 8b12e3286c811f7edc95b79c686784969c6a36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 10/15] fix: reset the compiler before each use, including the
 first one

Otherwise, a compiler which has been created but not been used, because the
translation was interrupted, keeps the options of that time.
---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8aa6777..76aee3a 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -487,6 +487,7 @@ class ts2pythonCompiler(Compiler):
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
         super().reset()  # must be last: marks the compiler as properly reset
+        self._dirty_flag = True  # the options may change before the compiler is called
 
 
     def compile(self, node) -> str:
-- 
2.43.0


From 4836f1d1c5a4880b78d0eb8eff21ea139c8d00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 11/15] fix: quote undefined type names in an order that does
 not depend on the hash seed

The names were taken from a set, and dotted names were not escaped: with both
A and A.B undefined, the generated code depended on PYTHONHASHSEED and was
sometimes not even valid Python (e.g. Union['A'.B]).
---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 76aee3a..c06720c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1217,8 +1217,9 @@ class ts2pythonCompiler(Compiler):
         unknown_types = set(tn.content for tn in node.select('type_name')
                             if not self.is_known_type(tn.content))
         type_expression = self.compile(type_node)
-        for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + typ + r"(?:(?=[^\w'])|$)")
+        # longest names first, lest the order of the set decides on overlapping names, e.g. A, A.B
+        for typ in sorted(unknown_types, key=lambda name: (-len(name), name)):
+            rx = re.compile(r"(?:(?<=[^\w'])|^)" + re.escape(typ) + r"(?:(?=[^\w'])|$)")
             segments = type_expression.split("'")
             for i in range(0, len(segments), 2):
                 segments[i] = rx.sub(f"'{typ}'", segments[i])
-- 
2.43.0


From 455166cdd68ae7d559b5597d424e07f927cf2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 12/15] fix: follow as many indirections as intended when
 fetching the specification

After the second indirection the loop ended before the file it points to had
been fetched: the name of the file was returned in place of its content and
the extraction ended successfully without the type definitions.
---
 demo/extract_ts_from_lsp_specs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index 5f0b69e..12d4f68 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -44,7 +44,7 @@ def extract(specs, dest):
 def download_specfile(url: str) -> str:
     import urllib.request
     max_indirections = 2
-    while max_indirections > 0:
+    while True:
         if url.startswith('http:') or url.startswith('https:'):
             print('fetching: ' + url)
             with urllib.request.urlopen(url) as f:
@@ -52,11 +52,12 @@ def download_specfile(url: str) -> str:
         else:
             with open(url, 'rb') as f:
                 specs = f.read()
-        if len(specs) < 255 and specs.find(b'\n') < 0:
-            url = url[: url.rfind('/') + 1] + specs.decode('utf-8').strip()
-            max_indirections -= 1
-        else:
-            max_indirections = 0
+        if len(specs) >= 255 or specs.find(b'\n') >= 0:
+            break
+        if max_indirections <= 0:
+            raise ValueError('Too many indirections: ' + url)
+        url = url[: url.rfind('/') + 1] + specs.decode('utf-8').strip()
+        max_indirections -= 1
     return specs.decode('utf-8')
 
 
-- 
2.43.0


From 018bbe4c5aa9bc31ca1d4ca979b632d93f5a4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 13/15] fix: recognise included parts with hyphens and
 underscores in their names

Parts the names of which contain anything but letters, digits, dots and
slashes were left out silently when extracting the specification.
---
 demo/extract_ts_from_lsp_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index 12d4f68..da5edc1 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -61,7 +61,7 @@ def download_specfile(url: str) -> str:
     return specs.decode('utf-8')
 
 
-RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[A-Za-z0-9/.]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[A-Za-z0-9/.]+?\.md)\s*%}')
+RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[\w/.-]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[\w/.-]+?\.md)\s*%}')
 
 
 def download_specs(url: str) -> str:
-- 
2.43.0


From 9bb5651988a057bbafcceeabf553d17a0151111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 14/15] fix: do not record the hash of another version of the
 translator than the one at work

---
 ts2pythonParser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c06720c..94a7db2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -310,12 +310,16 @@ UseNotRequired = {get_config_value('ts2python.UseNotRequired', False)}
 KeepMultilineComments = {get_config_value('ts2python.KeepMultilineComments', False)}"""
 
 
+# must be read when the module is loaded, because the file may be replaced by
+# another version, later, while this version is still at work
+try:
+    with open(__file__, 'r', encoding='utf-8') as f:
+        script = f.read()
+except (FileNotFoundError, IOError):
+    script = "source of ts2pythonParser.py not found!?"
+
+
 def source_hash(source_text: str) -> str:
-    try:
-        with open(__file__, 'r', encoding='utf-8') as f:
-            script = f.read()
-    except (FileNotFoundError, IOError):
-        script = "source of ts2pythonParser.py not found!?"
     return md5(source_text, script, dump_configuration())
 
 
-- 
2.43.0


From ed46665ecd803f6ee3df712396328a8a646813b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 15/15] fix: reset the compiler before each use, even if the
 last reset was interrupted

Supersedes two earlier fixes which relied on the order of the assignments in
reset(): an interrupt within Compiler.reset() still left a compiler behind that
was taken for freshly reset.
---
 ts2pythonParser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 94a7db2..2284d6f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -445,7 +445,14 @@ class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
     """
 
+    def __call__(self, root: Node) -> str:
+        # always reset the compiler, because the options may have changed since it has
+        # been created, and because the last reset may have failed or been interrupted
+        self._dirty_flag = True
+        return super().__call__(root)
+
     def reset(self):
+        super().reset()
         bcn = get_config_value('ts2python.BaseClassName', 'TypedDict')
         i = bcn.rfind('.')
         if i >= 0:
@@ -490,8 +497,6 @@ class ts2pythonCompiler(Compiler):
         self.optional_keys: List[List[str]] = [[]]
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
-        super().reset()  # must be last: marks the compiler as properly reset
-        self._dirty_flag = True  # the options may change before the compiler is called
 
 
     def compile(self, node) -> str:
-- 
2.43.0

