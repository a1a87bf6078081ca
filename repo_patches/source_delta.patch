From 61caa2b23800ff0d9b70036a67f080b24f37b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 001/111] fix: do not modify the loaded dict when restoring its
 hashed keys

---
 jsons/deserializers/default_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..eeb7be9 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -46,7 +46,7 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj}
+        result = {**obj, '-keys': {**obj['-keys']}}
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-- 
2.43.0


From 1c81fa254d7bc96bff3c0be9ad87272246ecfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 002/111] fix: keep dict entries apart when hashes of their
 keys collide

---
 jsons/serializers/default_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..1b9626b 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -76,6 +76,8 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
+            while key_hash in obj_['-keys'] or key_hash in obj_:
+                key_hash += 1  # Different keys may share the same hash.
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
     return result
-- 
2.43.0


From c6693c97c853ca8a377d8e35ccdd7e274d4a135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 003/111] fix: leave no stored key behind for an entry that
 strip_nulls removes

---
 jsons/serializers/default_dict.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 1b9626b..452f4b1 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -37,6 +37,15 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
+        dumped_elem = dump(obj_,
+                           cls=cls_,
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           strict=strict,
+                           **kwargs)
+        if strip_nulls and dumped_elem is None:
+            continue
+
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
         dict_and_key = _store_and_hash(result, key,
@@ -46,16 +55,9 @@ def default_dict_serializer(
         if dict_and_key:
             result, key = dict_and_key
 
-        dumped_elem = dump(obj_,
-                           cls=cls_,
-                           key_transformer=key_transformer,
-                           strip_nulls=strip_nulls,
-                           strict=strict,
-                           **kwargs)
-        if not (strip_nulls and dumped_elem is None):
-            if key_transformer:
-                key = key_transformer(key)
-            result[key] = dumped_elem
+        if key_transformer:
+            key = key_transformer(key)
+        result[key] = dumped_elem
     return result
 
 
-- 
2.43.0


From 4f55994d3904b5069d3d933dc645abbccc6b3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 004/111] fix: let the key transformers accept keys without
 letters

---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From 297a04085aca82226de432f3f909aabf95fee3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 005/111] fix: apply key transformers to the keys of a dict
 that are strings only

---
 jsons/deserializers/default_dict.py | 7 ++++---
 jsons/serializers/default_dict.py   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index eeb7be9..400cf24 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -68,9 +68,10 @@ def _deserialize(
         key_transformer: Callable[[str], str],
         keys_were_hashed: bool,
         kwargs: dict) -> dict:
-    key_transformer = key_transformer or (lambda key: key)
-    key_func = key_transformer
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
+    key_func = lambda key: (
+        key_transformer(key) if key_transformer and isinstance(key, str) else key)
+    transform_key = key_func
 
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
@@ -80,7 +81,7 @@ def _deserialize(
             # ensure that the keys in the result are <key>. If the keys were
             # hashed though, they have been loaded already.
             kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+            key_func = lambda key: load(transform_key(key), **kwargs_k)
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 452f4b1..47ca797 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -55,7 +55,7 @@ def default_dict_serializer(
         if dict_and_key:
             result, key = dict_and_key
 
-        if key_transformer:
+        if key_transformer and isinstance(key, str):
             key = key_transformer(key)
         result[key] = dumped_elem
     return result
-- 
2.43.0


From ad0701bdef518c89a1137213a6ad799124629271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 006/111] fix: raise a DeserializationError on meta info that
 holds no (valid) classes

---
 jsons/_common_impl.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..d0ddbfd 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -11,7 +11,7 @@ from typing import Callable, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
-from jsons.exceptions import UnknownClassError
+from jsons.exceptions import DeserializationError, UnknownClassError
 
 NoneType = type(None)
 JSON_KEYS = (str, int, float, bool, NoneType)
@@ -75,6 +75,9 @@ def _get_special_cases(cls: type):
 
 
 def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
+    if not isinstance(cls_str, str):
+        raise UnknownClassError(
+            'Invalid class name: {}'.format(cls_str), source, cls_str)
     cls = getattr(builtins, cls_str, None)
     if cls:
         return cls
@@ -86,7 +89,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError):
+    except (ImportError, AttributeError, ValueError, TypeError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
@@ -121,9 +124,16 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        if not isinstance(meta, dict) \
+                or not isinstance(meta.get('classes', {}), dict):
+            raise DeserializationError(
+                'Invalid meta information: {}'.format(meta), json_obj, None)
+        cls_str = meta.get('classes', {}).get('/', None)
+        cls = None
+        if cls_str is not None:  # The meta may hold the dump time only.
+            cls = get_cls_from_str(cls_str, json_obj, fork_inst)
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From d1c435f59ecd3e8f9552d0e7981a2502f89e3032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 007/111] fix: resolve nested generic types and NoneType in
 meta info

---
 jsons/_common_impl.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index d0ddbfd..759b43d 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -81,6 +81,8 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     cls = getattr(builtins, cls_str, None)
     if cls:
         return cls
+    if cls_str == NoneType.__name__:
+        return NoneType
     if '[' in cls_str and ']' in cls_str:
         return _get_generic_cls_from_str(cls_str, source, fork_inst)
     try:
@@ -96,12 +98,28 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
+    origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
     subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
-    return origin[tuple(subtypes)]
+                for s in _split_subtypes(subtypes_str)]
+    try:
+        return origin[tuple(subtypes)]
+    except TypeError as err:
+        msg = '"{}" is not a valid type.'.format(cls_str)
+        raise UnknownClassError(msg, source, cls_str) from err
+
+
+def _split_subtypes(subtypes_str: str) -> list:
+    # Split by the commas that are not within the brackets of a sub type.
+    result = ['']
+    for char in subtypes_str:
+        unclosed = result[-1].count('[') - result[-1].count(']')
+        if char == ',' and not unclosed:
+            result.append('')
+        else:
+            result[-1] += char
+    return result
 
 
 def determine_precedence(
-- 
2.43.0


From 46fe2c6faf960d0739ffbe9ead3bd7ce26737a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 008/111] fix: load any value into object

---
 jsons/_load_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..a183b86 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -79,6 +79,8 @@ def load(
         return json_obj
     if isinstance(cls, str):
         cls = get_cls_from_str(cls, json_obj, fork_inst)
+    if cls is object:
+        cls = None  # Any value is an object, use the type of json_obj.
     original_cls = cls
     cls, meta_hints = _check_and_get_cls_and_meta_hints(
         json_obj, cls, fork_inst, kwargs.get('_inferred_cls', False))
-- 
2.43.0


From f78f51519f69601ac48af72a17b171e5b254774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 009/111] fix: raise a DecodeError on bytes that cannot be
 decoded

---
 jsons/_load_impl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index a183b86..bc835ed 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -183,7 +183,13 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeDecodeError as err:
+        decode_err = JSONDecodeError(str(err), repr(bytes_), err.start)
+        raise DecodeError('Could not load a dict; the given bytes are not '
+                          'valid {}.'.format(encoding),
+                          bytes_, cls, decode_err) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From f5a15842900bb3a25d7a1aef8f8d48908164a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 010/111] fix: load times that have microseconds

---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From f303e52e2821975cad6532894521383360ae5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 011/111] fix: dump years before 1000 with four digits

---
 jsons/_datetime_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..500677d 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -20,6 +20,9 @@ def to_str(
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
+    if '%Y' in pattern:
+        # Not every platform pads %Y with zeros.
+        pattern = pattern.replace('%Y', '{:04d}'.format(dt.year))
     return dt.strftime("{}{}".format(pattern, offset))
 
 
-- 
2.43.0


From 3d8a85719e523ff08a0cca9cd89b03426af9a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 012/111] fix: dump the minutes of negative UTC offsets
 correctly

---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 500677d..24387b7 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -90,7 +90,7 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     """
     offset_s = tdelta.total_seconds()
     offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
+    offset_m = int((abs(offset_s) / 60) % 60)
     offset_t = time(abs(offset_h), abs(offset_m))
     operator = '+' if offset_s > 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
-- 
2.43.0


From 968ba715924192d54a3d825beba5ad7e912be804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 013/111] fix: dump datetimes without timezone with their local
 UTC offset

---
 jsons/_datetime_impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 24387b7..748833e 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -71,8 +71,12 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
+        try:
+            tzone = obj.astimezone().tzinfo
+        except (OverflowError, ValueError, OSError):
+            # The datetime is out of range for the platform.
+            tzone = datetime.now(timezone.utc).astimezone().tzinfo
+        if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
-- 
2.43.0


From a173735974761f6f973eee015a753600e56d3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 014/111] fix: do not take every timezone that is named UTC for
 UTC

---
 jsons/_datetime_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 748833e..efcd88d 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -79,7 +79,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+    if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
+            or tzone.utcoffset(None)):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 176cf3c3f16025a61e9c091e88b1ece22b59e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 015/111] fix: keep the instant of datetimes with seconds in
 their UTC offset

---
 jsons/_datetime_impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index efcd88d..e0358cb 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -17,6 +17,10 @@ def to_str(
         strip_microseconds: bool,
         fork_inst: type,
         pattern: str = RFC3339_DATETIME_PATTERN) -> str:
+    utcoffset = dt.utcoffset() if isinstance(dt, datetime) else None
+    if utcoffset and utcoffset % timedelta(minutes=1):
+        # RFC3339 allows no seconds in an offset, so use UTC instead.
+        dt = dt.astimezone(timezone.utc)
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
-- 
2.43.0


From 3b805c5c6b4d03bf61ead2c505ea1dd191af3bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 016/111] fix: dump attributes that share a name with a member
 of JsonSerializable

---
 jsons/serializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..b2b3cfb 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -230,7 +230,8 @@ def _filter_attributes(
         strip_attr: tuple) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
-    excluded_elems = dir(JsonSerializable)
+    excluded_elems = (dir(JsonSerializable) if issubclass(cls, StateHolder)
+                      else dir(object))
     props, other_cls_vars = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
@@ -239,7 +240,7 @@ def _filter_attributes(
             and not (strip_properties and attr in props)
             and not (strip_class_variables and attr in other_cls_vars)
             and attr not in strip_attr
-            and attr != 'json'
+            and not (attr == 'json' and attr in props)
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
             and attr not in excluded_elems
-- 
2.43.0


From 582f8ef576141848e2e1f005695162d9ef7d6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 017/111] fix: do not change the cached type hints of a class
 while dumping

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index b2b3cfb..17271f3 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -206,7 +206,7 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         attributes = {attr: None for attr in cls.__slots__}
     elif hasattr(cls, '__annotations__'):
-        attributes = get_type_hints(cls)
+        attributes = {**get_type_hints(cls)}  # Do not alter a cached dict.
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
-- 
2.43.0


From a3e7ea679438f9d6ac569deeeb287a5b26487043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 018/111] fix: do not apply key transformers to the key of the
 meta info

---
 jsons/deserializers/default_object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..3f3b6ec 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -175,7 +175,8 @@ def _check_and_transform_keys(obj: dict,
                               key_transformer: Optional[Callable[[str], str]],
                               **kwargs) -> Tuple[dict, dict]:
     if key_transformer:
-        obj = {key_transformer(key): obj[key] for key in obj}
+        obj = {key if key == META_ATTR else key_transformer(key): obj[key]
+               for key in obj}
         kwargs = {
             **kwargs,
             'key_transformer': key_transformer
-- 
2.43.0


From 2549e71242c8bb3d593806f5370d46219b47a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 019/111] fix: let newly set (de)serializers and validators
 take effect at once

---
 jsons/_lizers_impl.py | 4 +++-
 jsons/_validation.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..24365d7 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -44,6 +44,7 @@ def set_serializer(
         fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()
 
 
 def set_deserializer(
@@ -80,6 +81,7 @@ def set_deserializer(
         fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..3a4b819 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+    clear()
 
 
 @cached
-- 
2.43.0


From c0606a4243b468e84f2c1966f7e73b3b29eaef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 020/111] fix: let announcing a class again take effect

---
 jsons/_extra_impl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
-- 
2.43.0


From 8d008f9b77ea2c7246915f860a90ddd9237d0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 021/111] fix: do not share validators and announced classes
 between forks

---
 jsons/_fork_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..a8cb91c 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,9 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
+    result._announced_classes = fork_inst._announced_classes.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From b9865f7e8d9646c2b008464d246e07b153a83c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 022/111] fix: dump the attributes that come after one that
 failed

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 17271f3..d1ae0a8 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -138,7 +138,7 @@ def _do_serialize(
                                 'attribute.'
                                 .format(attr, get_class_name(cls), err.args[0]),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From 81bdbf4366ad5c42053d8094860c6fc87d468831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 023/111] fix: let the report of a failing attribute not fail
 itself

---
 jsons/serializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index d1ae0a8..0fa823c 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -130,13 +130,14 @@ def _do_serialize(
                                      **kwargs)
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
+            reason = err.args[0] if err.args else repr(err)
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=reason) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr_name, get_class_name(cls), reason),
                                 'attribute-not-serialized')
                 continue
 
-- 
2.43.0


From 3e46d4e5d545fa447bf3b913b697c68c5ba849eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 024/111] fix: handle empty iterables in parallel

---
 jsons/_multitasking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..021413f 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -18,6 +18,8 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    if not len(obj):
+        return []
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
-- 
2.43.0


From 1dbc0ea301c40c8235e6d395c3edd051dd934ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 025/111] fix: use the given fork when loading in parallel

---
 jsons/deserializers/default_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..fef69ea 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -41,7 +41,8 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        result = multi_task(load, obj, tasks, task_type, cls_,
+                            fork_inst=fork_inst, **kwargs_)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
-- 
2.43.0


From fe24563caca31f13d8142af73fb012fe38f7790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 026/111] fix: report the elements that fail when loading or
 dumping in parallel

---
 jsons/_multitasking.py                | 37 ++++++++++++++++++++++++---
 jsons/deserializers/default_list.py   | 11 +++++---
 jsons/exceptions.py                   |  8 ++++++
 jsons/serializers/default_iterable.py |  3 ++-
 4 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index 021413f..953e87b 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,9 +8,30 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
+class _Failure:
+    # Holds the error that was raised while processing an element.
+    def __init__(self, error: Exception):
+        self.error = error
+
+
+def get_result(elem: object, **_) -> object:
+    """
+    Return the given element of the result of ``multi_task`` or raise the error
+    that was raised by the task that was to process that element.
+    :param elem: an element of the result of ``multi_task``.
+    :param _: not used.
+    :return: the element.
+    """
+    if isinstance(elem, _Failure):
+        raise elem.error
+    return elem
+
+
 def multi_task(
         func: Callable,
         obj: Subscriptable,
@@ -32,7 +53,7 @@ def multi_task(
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    result = [_Failure(JsonsError('A task did not finish.'))] * len(obj)
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
@@ -80,5 +101,15 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
-        list_to_fill[i_] = loaded
+        try:
+            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
+            list_to_fill[i_] = loaded
+        except Exception as err:
+            _fill_failure(list_to_fill, i_, err)
+
+
+def _fill_failure(list_to_fill: list, index: int, err: Exception):
+    try:
+        list_to_fill[index] = _Failure(err)
+    except Exception:  # The error cannot be sent to another process.
+        list_to_fill[index] = _Failure(JsonsError(str(err)))
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index fef69ea..9bcffe6 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -1,11 +1,11 @@
 from multiprocessing import Process
-from typing import Type
+from typing import Callable, Type
 
 from typish import get_args
 
 from jsons._common_impl import StateHolder
 from jsons._load_impl import load
-from jsons._multitasking import multi_task
+from jsons._multitasking import get_result, multi_task
 from jsons.exceptions import JsonsError, DeserializationError
 
 
@@ -43,6 +43,8 @@ def default_list_deserializer(
     elif tasks > 1:
         result = multi_task(load, obj, tasks, task_type, cls_,
                             fork_inst=fork_inst, **kwargs_)
+        result = _do_load(result, cls_, warn_on_fail, fork_inst, kwargs_,
+                          get_result)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
@@ -53,11 +55,12 @@ def _do_load(
         cls: type,
         warn_on_fail: bool,
         fork_inst: Type[StateHolder],
-        kwargs) -> list:
+        kwargs,
+        load_elem: Callable = load) -> list:
     result = []
     for index, elem in enumerate(obj):
         try:
-            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
+            result.append(load_elem(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
         except DeserializationError as err:
             new_msg = ('Could not deserialize element at index %s. %s' %
                        (index, err.message))
diff --git a/jsons/exceptions.py b/jsons/exceptions.py
index fae7459..937849d 100644
--- a/jsons/exceptions.py
+++ b/jsons/exceptions.py
@@ -18,11 +18,19 @@ class JsonsError(Exception):
         Exception.__init__(self, message)
         self._message = message
 
+    def __reduce__(self):
+        # Errors must be picklable, regardless of their constructor.
+        return _recreate_error, (self.__class__, self.args), self.__dict__
+
     @property
     def message(self):
         return self._message
 
 
+def _recreate_error(cls: type, args: tuple) -> JsonsError:
+    return cls.__new__(cls, *args)
+
+
 class ValidationError(JsonsError):
     """
     Raised when the validation of an object failed.
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..4a55591 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -5,7 +5,7 @@ from typing import Tuple, Optional
 from typish import get_args, get_type
 
 from jsons._dump_impl import dump
-from jsons._multitasking import multi_task
+from jsons._multitasking import get_result, multi_task
 from jsons.exceptions import SerializationError
 
 
@@ -45,6 +45,7 @@ def default_iterable_serializer(
     else:
         zipped_objs = list(zip(obj, subclasses))
         result = multi_task(_do_dump, zipped_objs, tasks, task_type, **kwargs_)
+        result = [get_result(elem) for elem in result]
 
     return result
 
-- 
2.43.0


From 08448c0f55b4f9d712db532e1b399675bf29f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 027/111] fix: let classes from with_dump use their own
 serializers

---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From dd5399e07188c90d37b326aee4e22f66b4848c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 028/111] fix: do not set attributes again that attr_getters
 provided to the constructor

---
 jsons/deserializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 3f3b6ec..ab404bd 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -37,6 +37,8 @@ def default_object_deserializer(
     """
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
+    # The getters that are used for the constructor are removed from this copy.
+    kwargs['attr_getters'] = dict(kwargs.get('attr_getters') or {})
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
@@ -49,14 +51,13 @@ def _get_constructor_args(
         obj,
         cls,
         meta_hints,
-        attr_getters=None,
+        attr_getters,
         **kwargs) -> dict:
     # Loop through the signature of cls: the type we try to deserialize to. For
     # every required parameter, we try to get the corresponding value from
     # json_obj.
     signature_parameters = _get_signature(cls)
     hints = get_type_hints(cls.__init__, fallback_ns=cls.__module__)
-    attr_getters = dict(**(attr_getters or {}))
 
     result = {}
     for sig_key, sig in signature_parameters.items():
-- 
2.43.0


From e5f634e6c21626c6b946ec568b5c960550803619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 029/111] fix: let decorated functions take variable positional
 arguments

---
 jsons/decorators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..f83ac3c 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -140,6 +140,11 @@ def _get_params_sig(args, func):
     sig = signature(func)
     params = sig.parameters
     param_names = [param_name for param_name in params]
+    for i, param in enumerate(params.values()):
+        if param.kind is Parameter.VAR_POSITIONAL:
+            # All remaining positional arguments belong to this parameter.
+            param_names[i:] = [param.name] * (len(args) - i)
+            break
     result = [(args[i], params[param_names[i]]) for i in range(len(args))]
     return result
 
-- 
2.43.0


From ec6c0ce78fe06a41ee5dd600cb741ce75972bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 030/111] fix: let the decorators handle arguments that are
 passed by keyword

---
 jsons/decorators.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index f83ac3c..8b57e9b 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -165,6 +165,20 @@ def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
     return new_args
 
 
+def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
+    params = signature(decorated).parameters
+    var_keyword = [param for param in params.values()
+                   if param.kind is Parameter.VAR_KEYWORD]
+    new_kwargs = {}
+    for name, arg in kwargs.items():
+        sig = params.get(name, None) or (var_keyword and var_keyword[0])
+        cls = (sig.annotation
+               if sig and sig.annotation != Parameter.empty else None)
+        new_kwargs[name] = mapper(arg, cls=cls, fork_inst=fork_inst,
+                                  **mapper_kwargs)
+    return new_kwargs
+
+
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
     cls = return_annotation if return_annotation != Parameter.empty else None
@@ -176,6 +190,8 @@ def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
     new_args = args
     if mapper:
         new_args = _map_args(args, decorated, fork_inst, mapper, mapper_kwargs)
+        kwargs = _map_kwargs(kwargs, decorated, fork_inst, mapper,
+                             mapper_kwargs)
     result = decorated(*new_args, **kwargs)
     return result
 
-- 
2.43.0


From 56d5e569eef652c921ee9d7ce7d042407756558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 031/111] fix: use defaults for any fields of a namedtuple that
 are not in a dict

---
 jsons/deserializers/default_tuple.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..e5aaf2c 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -58,11 +58,10 @@ def default_namedtuple_deserializer(
 
     args = []
     for index, field_name in enumerate(cls._fields):
-        if index < len(obj):
-            if is_dict:
-                field = tfm_obj[field_name]
-            else:
-                field = obj[index]
+        if is_dict and field_name in tfm_obj:
+            field = tfm_obj[field_name]
+        elif not is_dict and index < len(obj):
+            field = obj[index]
         else:
             field = cls._field_defaults.get(field_name, None)
 
-- 
2.43.0


From ef0b806a9220272ae60bf62be80c6faef034e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 032/111] fix: load None into fields of a namedtuple that are
 untyped

---
 jsons/deserializers/default_tuple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index e5aaf2c..999d079 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,9 +2,8 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
-from jsons._compatibility_impl import (get_type_hints, get_union_params,
-                                       tuple_with_ellipsis)
+from jsons._common_impl import can_match_with_none
+from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import UnfulfilledArgumentError
 
@@ -75,7 +74,7 @@ def default_namedtuple_deserializer(
 
         if field is None:
             hint = field_types.get(field_name)
-            if NoneType not in (get_union_params(hint) or []):
+            if not can_match_with_none(hint):
                 # The value 'None' is not permitted here.
                 msg = ('No value present in {} for argument "{}"'
                        .format(obj, field_name))
-- 
2.43.0


From 84ddb3352c63e0b75018905c9dae66d9ba6178aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 033/111] fix: use defaults of namedtuple fields as they are

---
 jsons/deserializers/default_tuple.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 999d079..1385209 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -61,8 +61,11 @@ def default_namedtuple_deserializer(
             field = tfm_obj[field_name]
         elif not is_dict and index < len(obj):
             field = obj[index]
+        elif cls._field_defaults.get(field_name, None) is not None:
+            args.append(cls._field_defaults[field_name])
+            continue
         else:
-            field = cls._field_defaults.get(field_name, None)
+            field = None
 
         # _field_types has been deprecated in favor of __annotations__ in Python 3.8
         if hasattr(cls, '__annotations__'):
-- 
2.43.0


From 2dcf4b012fbfbf48d2bccc79e30d8f3257113f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 034/111] fix: apply key transformers to the fields of
 namedtuples

---
 jsons/serializers/default_tuple.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 5b12961..8119fca 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -1,4 +1,4 @@
-from typing import Union, Optional, Tuple
+from typing import Callable, Union, Optional, Tuple
 
 from typish import get_args
 
@@ -28,14 +28,23 @@ def default_tuple_serializer(obj: tuple,
     return default_iterable_serializer(obj, cls_, **kwargs)
 
 
-def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
+def default_namedtuple_serializer(
+        obj: tuple,
+        *,
+        key_transformer: Optional[Callable[[str], str]] = None,
+        **kwargs) -> dict:
     """
     Serialize the given ``obj`` to a dict of serialized objects.
     :param obj: the named tuple that is to be serialized.
+    :param key_transformer: a function that will be applied to all field names
+    in the resulting dict.
     :param kwargs: any keyword arguments that may be given to the serialization
     process.
     :return: a dict of which all elements are serialized.
     """
-    result = {field_name: dump(getattr(obj, field_name), **kwargs)
+    key_tfr = key_transformer or (lambda key: key)
+    result = {key_tfr(field_name): dump(getattr(obj, field_name),
+                                        key_transformer=key_transformer,
+                                        **kwargs)
               for field_name in obj._fields}
     return result
-- 
2.43.0


From 8fcffb6e876993894c03bb6979f8dcea1ec7d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 035/111] fix: load into parameterized builtin dicts

---
 jsons/deserializers/default_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index cec2d4b..c3438e7 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,8 +1,9 @@
 from collections.abc import Mapping
 from typing import Mapping as MappingType
 
-from typish import get_args, get_origin
+from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -22,6 +23,6 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
-    if not isinstance(result, get_origin(cls)):
+    if not isinstance(result, get_naked_class(cls)):
         result = cls(dict_)
     return result
-- 
2.43.0


From 8fd42f62fc32446532633ee74d45da9f99de4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 036/111] fix: load values into NewTypes of primitives

---
 jsons/_common_impl.py                    | 7 +++++++
 jsons/deserializers/default_primitive.py | 2 ++
 jsons/deserializers/default_string.py    | 3 ++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 759b43d..854f2f7 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -165,6 +165,13 @@ def can_match_with_none(cls: type):
     return result
 
 
+def get_supertype(cls: type) -> type:
+    # Return the type that underlies cls if cls is a NewType, cls otherwise.
+    while hasattr(cls, '__supertype__'):
+        cls = cls.__supertype__
+    return cls
+
+
 def _lookup_announced_class(
         cls_str: str,
         source: object,
diff --git a/jsons/deserializers/default_primitive.py b/jsons/deserializers/default_primitive.py
index 82c6f23..ed7d72e 100644
--- a/jsons/deserializers/default_primitive.py
+++ b/jsons/deserializers/default_primitive.py
@@ -1,5 +1,6 @@
 from typing import Optional
 
+from jsons._common_impl import get_supertype
 from jsons.exceptions import DeserializationError
 
 
@@ -14,6 +15,7 @@ def default_primitive_deserializer(obj: object,
     :return: ``obj``.
     """
     result = obj
+    cls = get_supertype(cls)
     if obj is not None and not isinstance(obj, cls):
         try:
             result = cls(obj)
diff --git a/jsons/deserializers/default_string.py b/jsons/deserializers/default_string.py
index b20733e..6669f7c 100644
--- a/jsons/deserializers/default_string.py
+++ b/jsons/deserializers/default_string.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from typing import Optional
 
+from jsons._common_impl import get_supertype
 from jsons._load_impl import load
 from jsons.deserializers.default_primitive import default_primitive_deserializer
 from jsons.exceptions import DeserializationError
@@ -17,7 +18,7 @@ def default_string_deserializer(obj: str,
     :param kwargs: any keyword arguments.
     :return: the deserialized obj.
     """
-    target_is_str = cls is str and not kwargs.get('_inferred_cls')
+    target_is_str = get_supertype(cls) is str and not kwargs.get('_inferred_cls')
     if target_is_str:
         return str(obj)
     try:
-- 
2.43.0


From 38045e92f9b33ed86cecb0c27639320aa38a6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 037/111] fix: do not load a list with too few elements into a
 typed tuple

---
 jsons/deserializers/default_tuple.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 1385209..2668290 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -5,7 +5,7 @@ from typish import get_args
 from jsons._common_impl import can_match_with_none
 from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
-from jsons.exceptions import UnfulfilledArgumentError
+from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
 
 def default_tuple_deserializer(obj: list,
@@ -28,6 +28,10 @@ def default_tuple_deserializer(obj: list,
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
+        if len(obj) != len(tuple_types):
+            raise DeserializationError(
+                'Expected {} elements for {}, got {}'.format(
+                    len(tuple_types), cls, len(obj)), obj, cls)
         list_ = [load(value, tuple_types[i], **kwargs)
                  for i, value in enumerate(obj)]
     else:
-- 
2.43.0


From 3c7c988292fcf1fc4e43121a7746a339056ed717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 038/111] fix: do not cast elements of a mixed list when
 dumping strictly

---
 jsons/serializers/default_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index fbf6128..4071a6d 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_serializer(
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
-    elif strict:
+    elif strict and all(isinstance(elem, type(obj[0])) for elem in obj):
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
 
-- 
2.43.0


From 875e1fb23c373d76a2526210742602d8980c286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 039/111] fix: do not cast elements of a mixed iterable when
 dumping strictly

---
 jsons/serializers/default_iterable.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index 4a55591..25cac21 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -1,8 +1,8 @@
 from collections.abc import Iterable
 from multiprocessing import Process
-from typing import Tuple, Optional
+from typing import List, Tuple, Optional
 
-from typish import get_args, get_type
+from typish import get_args
 
 from jsons._dump_impl import dump
 from jsons._multitasking import get_result, multi_task
@@ -77,6 +77,7 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
 def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
     if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        obj_with_only_one_elem = obj.__getitem__(slice(0, 1))
-        cls_ = get_type(obj_with_only_one_elem)
+        first_type = type(obj[0])
+        if all(isinstance(elem, first_type) for elem in obj):
+            cls_ = List[first_type]
     return cls_
-- 
2.43.0


From 7168fbb7e744bff38d6f3d0cc7344cf32e98e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 040/111] fix: dump a timezone with its own type given: it lost
 its attribute

---
 jsons/serializers/default_timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..27190c7 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -1,4 +1,4 @@
-from datetime import timezone
+from datetime import timedelta, timezone
 
 from jsons._dump_impl import dump
 
@@ -12,7 +12,7 @@ def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-    offset = dump(obj.utcoffset(None), **kwargs)
+    offset = dump(obj.utcoffset(None), **{**kwargs, 'cls': timedelta})
     return {
         'name': name,
         'offset': offset
-- 
2.43.0


From fd16c7d4247d50431a38d6815e652fcf94dcc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 041/111] fix: accept a list of names for strip_attr

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 0fa823c..4e56a47 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -166,7 +166,7 @@ def _normalize_strip_attr(strip_attr) -> tuple:
     if (not isinstance(strip_attr, MutableSequence)
             and not isinstance(strip_attr, tuple)):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From 60a02a68338a3c0090fb22ddf7bb086a1c2a27e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 042/111] fix: resolve forward references in a generated
 __init__ of attrs classes

---
 jsons/_compatibility_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..6abbc4d 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -82,7 +82,8 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             result = typing.get_type_hints(callable_, globalns=context_dict)
 
     if sys.version_info.minor >= 10 and type(callable_) is type:
-        annotations_from_init = typing.get_type_hints(callable_.__init__)
+        annotations_from_init = {**get_type_hints(callable_.__init__,
+                                                  callable_.__module__)}
         if 'return' in annotations_from_init:
             # Python3.10: 'return' is a key that holds the returning type.
             del annotations_from_init['return']
-- 
2.43.0


From 35c66c8e57d8e9745efdf3237e0293fbbfe504c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 043/111] fix: keep all hashed keys and their order when
 loading a dict

---
 jsons/deserializers/default_dict.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 400cf24..23e2fa1 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -38,7 +38,7 @@ def _load_hashed_keys(
     # keys are unpacked.
     result = obj
 
-    stored_keys = set(obj.get('-keys', set()))
+    stored_keys = obj.get('-keys', {})
     if stored_keys:
         # Apparently, there are stored hashed keys, we need to unpack them.
         if len(cls_args) != 2:
@@ -46,19 +46,20 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj, '-keys': {**obj['-keys']}}
+        dangling_keys = [key for key in stored_keys if key not in obj]
+        if dangling_keys:
+            raise DeserializationError('No values found for the hashed keys '
+                                       '{}.'.format(dangling_keys), obj, cls)
         key_type = cls_args[0]
-        for key in stored_keys:
-            # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
-            loaded_key = load(original_key, cls=key_type, **kwargs)
-
-            # Replace the hashed key by the loaded key entirely.
-            result[loaded_key] = result[key]
-            del result['-keys'][key]
-            del result[key]
-
-        del result['-keys']
+        # Fill a new dict: a loaded key may be equal to some hashed key.
+        result = {}
+        for key, value in obj.items():
+            if key in stored_keys:
+                # Get the original (unhashed) key and load it.
+                key = load(stored_keys[key], cls=key_type, **kwargs)
+            elif key == '-keys':
+                continue
+            result[key] = value
     return result, len(stored_keys) > 0
 
 
-- 
2.43.0


From e9ab871c843d09667c933dd3d8c99522bfafd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 044/111] fix: dump a list of plain tuples strictly

---
 jsons/_compatibility_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 6abbc4d..6b2b0c2 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,9 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        # There are no arguments if tup is not generic (i.e. tuple, Tuple[()]).
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
-- 
2.43.0


From e3fc37a29f9b77a9af7508fea4873ee734f19e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 045/111] fix: dump verbosely an object with a dict with other
 keys than str

---
 jsons/serializers/default_object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 4e56a47..5b5bb58 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -298,11 +298,13 @@ def _fill_collection_of_types(
     cls_name_ = _get_class_name_and_strip_cls(cls_name_, obj_)
     for attr in obj_:
         if attr != META_ATTR and isinstance(obj_[attr], dict):
+            # Not every key of a dict is a str.
+            path = '{}{}'.format(prefix, attr)
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
-                                                   prefix + attr + '/',
+                                                   path + '/',
                                                    collection_of_types_)
-            collection_of_types_[prefix + attr] = attr_class
+            collection_of_types_[path] = attr_class
     return cls_name_
 
 
-- 
2.43.0


From 8b7251a345194860fea9f1f68afd13cbf041557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 046/111] fix: do not dump elements strictly as the type of the
 first if theirs is a subtype

---
 jsons/serializers/default_iterable.py | 2 +-
 jsons/serializers/default_list.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index 25cac21..24426b3 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -78,6 +78,6 @@ def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
     if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
         first_type = type(obj[0])
-        if all(isinstance(elem, first_type) for elem in obj):
+        if all(type(elem) is first_type for elem in obj):
             cls_ = List[first_type]
     return cls_
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index 4071a6d..99f7c70 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_serializer(
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
-    elif strict and all(isinstance(elem, type(obj[0])) for elem in obj):
+    elif strict and all(type(elem) is type(obj[0]) for elem in obj):
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
 
-- 
2.43.0


From 083840e80abb7b3503fdfeefefb861f98b03d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 047/111] fix: load also the keys that were not hashed of a
 dict with hashed keys

---
 jsons/deserializers/default_dict.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 23e2fa1..f7455dd 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -24,7 +24,7 @@ def default_dict_deserializer(
     cls_args = get_args(cls)
 
     obj_, keys_were_hashed = _load_hashed_keys(
-        obj, cls, cls_args, key_transformer=key_transformer, **kwargs)
+        obj, cls, cls_args, key_transformer, **kwargs)
 
     return _deserialize(obj_, cls_args, key_transformer, keys_were_hashed, kwargs)
 
@@ -33,6 +33,7 @@ def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
+        key_transformer: Optional[Callable[[str], str]],
         **kwargs) -> Tuple[dict, bool]:
     # Load any hashed keys and return a copy of the given obj if any hashed
     # keys are unpacked.
@@ -56,9 +57,15 @@ def _load_hashed_keys(
         for key, value in obj.items():
             if key in stored_keys:
                 # Get the original (unhashed) key and load it.
-                key = load(stored_keys[key], cls=key_type, **kwargs)
+                key = load(stored_keys[key], cls=key_type,
+                           key_transformer=key_transformer, **kwargs)
             elif key == '-keys':
                 continue
+            else:
+                # This key could be dumped without hashing it.
+                if key_transformer and isinstance(key, str):
+                    key = key_transformer(key)
+                key = load(key, cls=key_type, **kwargs)
             result[key] = value
     return result, len(stored_keys) > 0
 
@@ -73,6 +80,8 @@ def _deserialize(
     key_func = lambda key: (
         key_transformer(key) if key_transformer and isinstance(key, str) else key)
     transform_key = key_func
+    if keys_were_hashed:
+        key_func = lambda key: key  # They have been transformed and loaded.
 
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
-- 
2.43.0


From 5fb39abe8de900789047e09c44082da3cfb355f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 048/111] fix: load None into a class with union or optional in
 its name with the right error

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 854f2f7..8627f6b 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -161,7 +161,7 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in get_union_params(cls))
+                  and NoneType in (get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From 235651eb5794b2be7ed1c0a5a3c11eac878182ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 049/111] fix: take defaults for arguments by identity, not by
 their own comparison

---
 jsons/deserializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index ab404bd..b8513af 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -98,7 +98,7 @@ def _get_value_for_attr(
         # There exists an attr_getter for this argument.
         attr_getter = attr_getters.pop(sig_key)
         result = sig_key, attr_getter()
-    elif sig.default != inspect.Parameter.empty:
+    elif sig.default is not inspect.Parameter.empty:
         # There is a default value for this argument.
         result = sig_key, sig.default
     elif sig.kind in (inspect.Parameter.VAR_POSITIONAL,
-- 
2.43.0


From 686c4ee69642c72c7cbd7b6112df94fe51c44e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 050/111] fix: use a default None for any field of a namedtuple

---
 jsons/deserializers/default_tuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2668290..a3ac545 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -65,7 +65,7 @@ def default_namedtuple_deserializer(
             field = tfm_obj[field_name]
         elif not is_dict and index < len(obj):
             field = obj[index]
-        elif cls._field_defaults.get(field_name, None) is not None:
+        elif field_name in cls._field_defaults:
             args.append(cls._field_defaults[field_name])
             continue
         else:
-- 
2.43.0


From f673d5d684de80685ce8a460afe544939615b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 051/111] fix: dump the parts of any number as a complex to
 floats

---
 jsons/serializers/default_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_complex.py b/jsons/serializers/default_complex.py
index db9ced0..de2a8ff 100644
--- a/jsons/serializers/default_complex.py
+++ b/jsons/serializers/default_complex.py
@@ -5,4 +5,4 @@ def default_complex_serializer(obj: complex, **_) -> dict:
     :param _: not used.
     :return: a ``dict``.
     """
-    return {'real': obj.real, 'imag': obj.imag}
+    return {'real': float(obj.real), 'imag': float(obj.imag)}
-- 
2.43.0


From f906f102c9226a517afbdf9d531b1dfb28580cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 052/111] fix: accept any collection of names for strip_attr

---
 jsons/serializers/default_object.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 5b5bb58..92654bb 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -163,8 +163,7 @@ def _add_dumped_elem(
 def _normalize_strip_attr(strip_attr) -> tuple:
     # Make sure that strip_attr is always a tuple.
     strip_attr = strip_attr or tuple()
-    if (not isinstance(strip_attr, MutableSequence)
-            and not isinstance(strip_attr, tuple)):
+    if isinstance(strip_attr, str):
         strip_attr = (strip_attr,)
     return tuple(strip_attr)
 
-- 
2.43.0


From 849af0cd925a9e46802ee94c86f6936f5f88e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 053/111] fix: dump a value that is declared Any or object by
 its own type

---
 jsons/_common_impl.py               | 5 +++++
 jsons/_dump_impl.py                 | 4 +++-
 jsons/serializers/default_list.py   | 7 ++++---
 jsons/serializers/default_object.py | 5 ++++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 8627f6b..ec2b59a 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -165,6 +165,11 @@ def can_match_with_none(cls: type):
     return result
 
 
+def is_any_type(cls: type) -> bool:
+    # Return True if cls does not tell anything about the type of a value.
+    return cls is Any or cls is object
+
+
 def get_supertype(cls: type) -> type:
     # Return the type that underlies cls if cls is a NewType, cls otherwise.
     while hasattr(cls, '__supertype__'):
diff --git a/jsons/_dump_impl.py b/jsons/_dump_impl.py
index c371657..ef899af 100644
--- a/jsons/_dump_impl.py
+++ b/jsons/_dump_impl.py
@@ -7,7 +7,7 @@ import json
 from typing import Optional, Dict
 
 from jsons._cache import clear
-from jsons._common_impl import StateHolder
+from jsons._common_impl import StateHolder, is_any_type
 from jsons._extra_impl import announce_class
 from jsons._lizers_impl import get_serializer
 from jsons.exceptions import SerializationError
@@ -39,6 +39,8 @@ def dump(obj: object,
     :param kwargs: the keyword args are passed on to the serializer function.
     :return: the serialized obj as a JSON type.
     """
+    if is_any_type(cls):
+        cls = None
     cls_ = cls or obj.__class__
     serializer = get_serializer(cls_, fork_inst)
 
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index 99f7c70..72308c1 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -3,7 +3,7 @@ from typing import Optional
 from typish import get_args
 
 from jsons import get_serializer
-from jsons._common_impl import StateHolder
+from jsons._common_impl import is_any_type, StateHolder
 from jsons._dump_impl import dump
 
 
@@ -39,8 +39,9 @@ def default_list_serializer(
 
     cls_args = get_args(cls)
     if cls_args:
-        inner_type = cls_args[0]
-        serializer = get_serializer(inner_type, fork_inst)
+        if not is_any_type(cls_args[0]):
+            inner_type = cls_args[0]
+            serializer = get_serializer(inner_type, fork_inst)
     elif strict and all(type(elem) is type(obj[0]) for elem in obj):
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92654bb..93dfb3d 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -7,7 +7,8 @@ from typish import get_type, get_mro
 
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
-from jsons._common_impl import get_class_name, META_ATTR, StateHolder
+from jsons._common_impl import (get_class_name, is_any_type, META_ATTR,
+                                StateHolder)
 from jsons._compatibility_impl import get_type_hints
 from jsons._datetime_impl import to_str
 from jsons.classes import JsonSerializable
@@ -115,6 +116,8 @@ def _do_serialize(
     make_attributes_public = is_attrs_cls and not strip_privates
     for attr_name, cls_ in attributes.items():
         attr = getattr(obj, attr_name)
+        if is_any_type(cls_):
+            cls_ = None
         attr_type = cls_ or type(attr)
         announce_class(attr_type, fork_inst=fork_inst)
         serializer = get_serializer(attr_type, fork_inst)
-- 
2.43.0


From e86dd8b34c8c5171731d36b27b4e49e857671489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 054/111] fix: do not take slots for class variables

---
 jsons/serializers/default_object.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 93dfb3d..8b55524 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -241,7 +241,8 @@ def _filter_attributes(
             if not attr.startswith('__')
             and not (strip_privates and attr.startswith('_'))
             and not (strip_properties and attr in props)
-            and not (strip_class_variables and attr in other_cls_vars)
+            and not (strip_class_variables and attr in other_cls_vars
+                     and not _is_slot(attr, cls))
             and attr not in strip_attr
             and not (attr == 'json' and attr in props)
             and not inspect.ismethod(getattr(cls, attr, None))
@@ -329,6 +330,11 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
         result['-cls'] = cls_name
 
 
+def _is_slot(attr: str, cls: type) -> bool:
+    # A slot is in the class dict, but it holds an attribute of the instance.
+    return inspect.ismemberdescriptor(getattr(cls, attr, None))
+
+
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
-- 
2.43.0


From fcff10ab1271833a00a26665b1fdc539341b92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 055/111] fix: strictly dump a class of which the slots are a
 single name

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 8b55524..c408190 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -207,7 +207,9 @@ def _get_attributes_from_object(
 def _get_attributes_and_types(cls: type,
                               strict: bool) -> Dict[str, Optional[type]]:
     if '__slots__' in cls.__dict__:
-        attributes = {attr: None for attr in cls.__slots__}
+        slots = cls.__slots__
+        slots = (slots,) if isinstance(slots, str) else slots
+        attributes = {attr: None for attr in slots}
     elif hasattr(cls, '__annotations__'):
         attributes = {**get_type_hints(cls)}  # Do not alter a cached dict.
     elif strict:
-- 
2.43.0


From 9b9318842445b2ef922fd30672d98b089ed87a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 056/111] fix: use the class info of a verbose dump for what it
 belongs to only

---
 jsons/_common_impl.py                 | 11 +++++++++++
 jsons/_load_impl.py                   |  2 ++
 jsons/deserializers/default_dict.py   |  6 +++++-
 jsons/deserializers/default_object.py | 15 +++------------
 jsons/deserializers/default_tuple.py  |  9 +++++++--
 5 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index ec2b59a..7890c16 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -155,6 +155,17 @@ def get_cls_and_meta(
     return None, None
 
 
+def get_sub_hints(meta_hints: Optional[dict], key: object) -> dict:
+    # Return the hints for what is under the given key, with that as the root.
+    path = '/{}'.format(key)
+    result = {sub_path[len(path):]: hint
+              for sub_path, hint in (meta_hints or {}).items()
+              if sub_path.startswith(path + '/')}
+    if path in (meta_hints or {}):
+        result['/'] = meta_hints[path]
+    return result
+
+
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
     result = cls in (Any, object, None, NoneType)
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index bc835ed..bb31be7 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -99,6 +99,8 @@ def load(
         '_initial': False,
         '_inferred_cls': cls is not original_cls,
     }
+    if meta_hints:
+        kwargs_['meta_hints'] = meta_hints  # The object comes with its own.
 
     return _do_load(json_obj, deserializer, cls, initial, **kwargs_)
 
diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index f7455dd..94dd709 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -2,6 +2,7 @@ from typing import Callable, Optional, Tuple
 
 from typish import get_args
 
+from jsons._common_impl import get_sub_hints
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -92,7 +93,10 @@ def _deserialize(
             # hashed though, they have been loaded already.
             kwargs_k = {**kwargs, 'cls': cls_k}
             key_func = lambda key: load(transform_key(key), **kwargs_k)
+    meta_hints = kwargs.get('meta_hints')
     return {
-        key_func(key): load(obj[key], **kwargs_)
+        key_func(key): load(
+            obj[key],
+            **{**kwargs_, 'meta_hints': get_sub_hints(meta_hints, key)})
         for key in obj
     }
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index b8513af..9aeb6f2 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -6,6 +6,7 @@ from jsons._common_impl import (
     get_class_name,
     META_ATTR,
     get_cls_from_str,
+    get_sub_hints,
     determine_precedence,
     can_match_with_none
 )
@@ -114,28 +115,18 @@ def _get_value_for_attr(
     return result
 
 
-def _remove_prefix(prefix: str, s: str) -> str:
-    if s.startswith(prefix):
-        return s[len(prefix):] or '/'  # Special case: map the empty string to '/'
-    return s
-
-
 def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # Obtain the value for the attribute with the given signature from the
     # given obj. Try to obtain the class of this attribute from the meta info
     # or from type hints.
     cls_key = '/{}'.format(sig_key)
     cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
+    # Rebuild the class hints: cls_key becomes the new root.
+    new_hints = get_sub_hints(meta_hints, sig_key)
     cls_from_meta = None
     if cls_str_from_meta:
         cls_from_meta = get_cls_from_str(
             cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-        }
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index a3ac545..4a3d61d 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,7 +2,7 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import can_match_with_none
+from jsons._common_impl import can_match_with_none, get_sub_hints
 from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
@@ -87,7 +87,12 @@ def default_namedtuple_deserializer(
                        .format(obj, field_name))
                 raise UnfulfilledArgumentError(msg, field_name, obj, cls)
         cls_ = field_types.get(field_name) if field_types else None
-        loaded_field = load(field, cls_, key_transformer=key_transformer, **kwargs)
+        kwargs_ = {
+            **kwargs,
+            'key_transformer': key_transformer,
+            'meta_hints': get_sub_hints(kwargs.get('meta_hints'), field_name)
+        }
+        loaded_field = load(field, cls_, **kwargs_)
         args.append(loaded_field)
     inst = cls(*args)
     return inst
-- 
2.43.0


From 050be58272ed1bb105bb79bed141e609afbd1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 057/111] fix: let the class info of elements of tuples and
 dicts precede their generic type like that of lists

---
 jsons/deserializers/default_dict.py  | 2 ++
 jsons/deserializers/default_tuple.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 94dd709..b99891c 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -87,6 +87,8 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
+        # Any class info of a value takes precedence over its generic type.
+        kwargs_['_inferred_cls'] = True
         if not keys_were_hashed:
             # In case of cls is something like Dict[<key>, <value>], we need to
             # ensure that the keys in the result are <key>. If the keys were
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 4a3d61d..cef1ff3 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -32,7 +32,9 @@ def default_tuple_deserializer(obj: list,
             raise DeserializationError(
                 'Expected {} elements for {}, got {}'.format(
                     len(tuple_types), cls, len(obj)), obj, cls)
-        list_ = [load(value, tuple_types[i], **kwargs)
+        # Any class info of an element takes precedence over its generic type.
+        kwargs_ = {**kwargs, '_inferred_cls': True}
+        list_ = [load(value, tuple_types[i], **kwargs_)
                  for i, value in enumerate(obj)]
     else:
         list_ = [load(value, **kwargs) for i, value in enumerate(obj)]
@@ -90,6 +92,7 @@ def default_namedtuple_deserializer(
         kwargs_ = {
             **kwargs,
             'key_transformer': key_transformer,
+            '_inferred_cls': True,
             'meta_hints': get_sub_hints(kwargs.get('meta_hints'), field_name)
         }
         loaded_field = load(field, cls_, **kwargs_)
-- 
2.43.0


From 618cc306147a30c53cae6a2849b3c75801260101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 058/111] fix: let the class info of a dict refine its declared
 type rather than replace it

---
 jsons/deserializers/default_object.py | 41 +++++++++++++++++++++++++--
 jsons/serializers/default_object.py   |  4 ++-
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 9aeb6f2..8e44da4 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -1,5 +1,8 @@
 import inspect
-from typing import Optional, Callable, Tuple
+from collections.abc import Mapping
+from typing import Optional, Callable, Tuple, Union
+
+from typish import get_args
 
 from jsons._cache import cached
 from jsons._common_impl import (
@@ -10,7 +13,11 @@ from jsons._common_impl import (
     determine_precedence,
     can_match_with_none
 )
-from jsons._compatibility_impl import get_type_hints
+from jsons._compatibility_impl import (
+    get_naked_class,
+    get_type_hints,
+    get_union_params
+)
 from jsons._load_impl import load
 from jsons.exceptions import SignatureMismatchError, UnfulfilledArgumentError
 
@@ -127,12 +134,42 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     if cls_str_from_meta:
         cls_from_meta = get_cls_from_str(
             cls_str_from_meta, obj, kwargs['fork_inst'])
+        cls_from_meta = _refine_dict_type(cls, cls_from_meta)
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
     return value
 
 
+def _refine_dict_type(cls: type, cls_from_meta: type) -> type:
+    # The type of a dict in the meta info was determined from its elements: it
+    # may refine a declared type (e.g. Dict[<type>, <type>]), not replace it.
+    if not _is_dict_type(cls_from_meta):
+        return cls_from_meta
+    declared = [cls]
+    if getattr(cls, '__origin__', None) is Union:
+        declared = get_union_params(cls)
+    declared = [elem for elem in declared
+                if _is_dict_type(elem) and len(get_args(elem)) == 2]
+    if len(declared) != 1:
+        return cls_from_meta
+    result, args_from_meta = declared[0], get_args(cls_from_meta)
+    key_type, value_type = get_args(result)
+    if (len(args_from_meta) == 2
+            and inspect.isclass(value_type)
+            and inspect.isclass(args_from_meta[1])
+            and issubclass(args_from_meta[1], value_type)):
+        args = (key_type, args_from_meta[1])
+        result = (result.copy_with(args) if hasattr(result, 'copy_with')
+                  else get_naked_class(result)[args])
+    return result
+
+
+def _is_dict_type(cls: type) -> bool:
+    naked_cls = get_naked_class(cls)
+    return inspect.isclass(naked_cls) and issubclass(naked_cls, Mapping)
+
+
 def _set_remaining_attrs(instance,
                          remaining_attrs,
                          attr_getters,
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index c408190..3334c28 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -324,7 +324,9 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
-        cls = get_type(original_obj)
+        # What is within a dict cannot be told by its class alone.
+        cls = (get_type(original_obj) if isinstance(original_obj, dict)
+               else type(original_obj))
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
-- 
2.43.0


From c14e333d85b60c7fbc054260d6e90775e8d2c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 059/111] fix: pass the key transformer on when loading the
 elements of a tuple

---
 jsons/deserializers/default_tuple.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index cef1ff3..8813098 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -23,6 +23,7 @@ def default_tuple_deserializer(obj: list,
     """
     if hasattr(cls, '_fields'):
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
+    kwargs['key_transformer'] = key_transformer
     cls_args = get_args(cls)
     if cls_args:
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
-- 
2.43.0


From 8fbe034b5cdbb1a1b5fb2528c711d77a19b5ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 060/111] fix: determine whether a timezone is UTC by its
 offset at the datetime

---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index e0358cb..ddeffac 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -84,7 +84,7 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
             return '+00:00'
     offset = 'Z'
     if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
-            or tzone.utcoffset(None)):
+            or tzone.utcoffset(obj)):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 6109d9cdd167b78498b87a6bb6496b26e59ed518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 061/111] fix: let the hashes of keys differ from the other
 keys of a dict

---
 jsons/serializers/default_dict.py | 59 ++++++++++++++++---------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 47ca797..f772217 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, Optional, Tuple
+from typing import Callable, Dict, Optional, Set
 
 from jsons._common_impl import JSON_KEYS
 from jsons._dump_impl import dump
@@ -33,6 +33,7 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
+    elems = []
     for key in obj:
         obj_ = obj[key]
         cls_ = types.get(key, None)
@@ -48,41 +49,41 @@ def default_dict_serializer(
 
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
-                                       key_transformer=key_transformer,
-                                       strip_nulls=strip_nulls, strict=strict,
-                                       types=types, **kwargs)
-        if dict_and_key:
-            result, key = dict_and_key
+        dumped_key = key
+        if not _is_valid_json_key(key):
+            # First try to dump the key, that might be enough already.
+            dumped_key = dump(key, key_transformer=key_transformer,
+                              strip_nulls=strip_nulls, strict=strict,
+                              types=types, **kwargs)
 
-        if key_transformer and isinstance(key, str):
-            key = key_transformer(key)
-        result[key] = dumped_elem
+        if key_transformer and isinstance(dumped_key, str):
+            dumped_key = key_transformer(dumped_key)
+        elems.append((key, dumped_key, dumped_elem))
+
+    # A hash must differ from any other key, also if these are turned to text.
+    taken = {str(dumped_key) for _, dumped_key, _ in elems
+             if _is_valid_json_key(dumped_key)}
+    for key, dumped_key, dumped_elem in elems:
+        if not _is_valid_json_key(dumped_key):
+            dumped_key = _store_and_hash(result, key, dumped_key, taken)
+        result[dumped_key] = dumped_elem
     return result
 
 
 def _store_and_hash(
         obj: dict,
         key: object,
-        **kwargs
-) -> Optional[Tuple[dict, int]]:
-    # Store the given key in the given dict under a special section if that
-    # key is not a valid json key. Return a hash of that key.
-    result = None
-    if not _is_valid_json_key(key):
-        # First try to dump the key, that might be enough already.
-        dumped_key = dump(key, **kwargs)
-        result = obj, dumped_key
-        if not _is_valid_json_key(dumped_key):
-            # Apparently, this was not enough; the key is still not "jsonable".
-            key_hash = hash(key)
-            obj_ = {**obj}
-            obj_.setdefault('-keys', {})
-            while key_hash in obj_['-keys'] or key_hash in obj_:
-                key_hash += 1  # Different keys may share the same hash.
-            obj_['-keys'][key_hash] = dumped_key
-            result = obj_, key_hash
-    return result
+        dumped_key: object,
+        taken: Set[str]) -> int:
+    # Store the given dumped key in the given dict under a special section, as
+    # it is not a valid json key. Return a hash of that key that is not taken.
+    stored_keys = obj.setdefault('-keys', {})
+    key_hash = hash(key)
+    while str(key_hash) in taken:
+        key_hash += 1  # Different keys may share the same hash.
+    taken.add(str(key_hash))
+    stored_keys[key_hash] = dumped_key
+    return key_hash
 
 
 def _is_valid_json_key(key: object) -> bool:
-- 
2.43.0


From b229c3cca68d4e97b21aeb3dcd6d835a7d07a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 062/111] fix: handle subclasses of datetime as datetimes
 rather than as dates

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 128f8f0..3152988 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -276,8 +276,8 @@ __all__ = [
 
 set_serializer(default_tuple_serializer, (tuple, Tuple))
 set_serializer(default_complex_serializer, complex)
-set_serializer(default_datetime_serializer, datetime)
 set_serializer(default_date_serializer, date)
+set_serializer(default_datetime_serializer, datetime)  # must be after date_serializer
 set_serializer(default_time_serializer, time)
 set_serializer(default_timezone_serializer, timezone)
 set_serializer(default_timedelta_serializer, timedelta)
@@ -296,8 +296,8 @@ set_deserializer(default_list_deserializer, (list, List))
 set_deserializer(default_tuple_deserializer, (tuple, Tuple))
 set_deserializer(default_union_deserializer, (Union, Optional))
 set_deserializer(default_defaultdict_deserializer, DefaultDict)
-set_deserializer(default_datetime_deserializer, datetime)
 set_deserializer(default_date_deserializer, date)
+set_deserializer(default_datetime_deserializer, datetime)  # must be after date_deserializer
 set_deserializer(default_time_deserializer, time)
 set_deserializer(default_timezone_deserializer, timezone)
 set_deserializer(default_timedelta_deserializer, timedelta)
-- 
2.43.0


From 635d0a8369dba21d8ccd4e6f6a7fad85a7e0c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 063/111] fix: load strings into subclasses of str

---
 jsons/deserializers/default_string.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_string.py b/jsons/deserializers/default_string.py
index 6669f7c..a09905a 100644
--- a/jsons/deserializers/default_string.py
+++ b/jsons/deserializers/default_string.py
@@ -18,9 +18,12 @@ def default_string_deserializer(obj: str,
     :param kwargs: any keyword arguments.
     :return: the deserialized obj.
     """
-    target_is_str = get_supertype(cls) is str and not kwargs.get('_inferred_cls')
+    cls_ = get_supertype(cls)
+    target_is_str = cls_ is str and not kwargs.get('_inferred_cls')
     if target_is_str:
         return str(obj)
+    if cls_ is not str and isinstance(cls_, type) and issubclass(cls_, str):
+        return cls_(obj)
     try:
         result = load(obj, datetime, **kwargs)
     except DeserializationError:
-- 
2.43.0


From 2d27e459612565a0175f52c1cc9ab0492188669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 064/111] fix: load in parallel whatever can be loaded serially
 into a list

---
 jsons/deserializers/default_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 9bcffe6..2567899 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_,
+        result = multi_task(load, list(obj), tasks, task_type, cls_,
                             fork_inst=fork_inst, **kwargs_)
         result = _do_load(result, cls_, warn_on_fail, fork_inst, kwargs_,
                           get_result)
-- 
2.43.0


From b1d636ed7c03ac4b0851edfd4f8ed163e2f6950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 065/111] fix: warn on failing elements of lists within lists
 as well

---
 jsons/deserializers/default_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 2567899..2373c9b 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -30,7 +30,8 @@ def default_list_deserializer(
     :return: a deserialized list instance.
     """
     cls_ = None
-    kwargs_ = {**kwargs}
+    # Lists within this list are to be treated likewise.
+    kwargs_ = {**kwargs, 'warn_on_fail': warn_on_fail}
     cls_args = get_args(cls)
     if cls_args:
         cls_ = cls_args[0]
-- 
2.43.0


From 036d52a09b08e23163468444e1a4c652e7a6f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 066/111] fix: use the class info of attributes that are no
 constructor parameter

---
 jsons/deserializers/default_object.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 8e44da4..e90504a 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -100,7 +100,7 @@ def _get_value_for_attr(
     # Find a value for the attribute (with signature sig_key).
     if obj and sig_key in obj:
         # This argument is in obj.
-        result = sig_key, _get_value_from_obj(obj, cls, sig, sig_key,
+        result = sig_key, _get_value_from_obj(obj, cls, sig_key,
                                               meta_hints, **kwargs)
     elif sig_key in attr_getters:
         # There exists an attr_getter for this argument.
@@ -122,12 +122,13 @@ def _get_value_for_attr(
     return result
 
 
-def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
-    # Obtain the value for the attribute with the given signature from the
+def _get_value_from_obj(obj, cls, sig_key, meta_hints, **kwargs):
+    # Obtain the value for the attribute with the given name from the
     # given obj. Try to obtain the class of this attribute from the meta info
     # or from type hints.
     cls_key = '/{}'.format(sig_key)
-    cls_str_from_meta = meta_hints.get(cls_key, None)
+    # Without a name, it is the hint of the object itself that would be found.
+    cls_str_from_meta = meta_hints.get(cls_key, None) if sig_key else None
     # Rebuild the class hints: cls_key becomes the new root.
     new_hints = get_sub_hints(meta_hints, sig_key)
     cls_from_meta = None
@@ -177,6 +178,9 @@ def _set_remaining_attrs(instance,
     # Set any remaining attributes on the newly created instance.
     attr_getters = attr_getters or {}
     for attr_name in remaining_attrs:
+        class_attr = getattr(instance.__class__, attr_name, None)
+        if isinstance(class_attr, property) and not class_attr.fset:
+            continue  # There is no need to load what cannot be set.
         annotations = get_type_hints(instance.__class__)
         attr_type = annotations.get(attr_name)
 
@@ -191,11 +195,12 @@ def _set_remaining_attrs(instance,
                             .format(attr_name), 'hashed-keys-without-hint')
         attr_type = attr_type or type(remaining_attrs[attr_name])
 
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        loaded_attr = _get_value_from_obj(remaining_attrs, attr_type,
+                                          attr_name, **kwargs)
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
-            pass  # This is raised when a @property does not have a setter.
+            pass  # This is raised when the attribute cannot be set.
     for attr_name, getter in attr_getters.items():
         setattr(instance, attr_name, getter())
 
-- 
2.43.0


From ca2ecc2fe1432b7dc63ccc737a228b17afdcf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 067/111] fix: load the offset of a time zone with the
 deserializers of the fork

---
 jsons/deserializers/default_timezone.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..2feeffa 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -1,5 +1,6 @@
 from datetime import timezone, timedelta
 
+from jsons._common_impl import StateHolder
 from jsons._load_impl import load
 
 
@@ -10,7 +11,9 @@ def default_timezone_deserializer(obj: dict,
     Deserialize a dict to a timezone instance.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments; the fork that is to be used.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    fork_inst = kwargs.get('fork_inst', StateHolder)
+    offset = load(obj['offset'], timedelta, fork_inst=fork_inst)
+    return timezone(offset, obj['name'])
-- 
2.43.0


From 23ea9b803aadfc293685a8a826f106c2c8e944aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 068/111] fix: load enum members of which the value is a list
 or dict

---
 jsons/deserializers/default_enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_enum.py b/jsons/deserializers/default_enum.py
index 6dd8b46..8b1cb78 100644
--- a/jsons/deserializers/default_enum.py
+++ b/jsons/deserializers/default_enum.py
@@ -27,6 +27,6 @@ def default_enum_deserializer(obj: str,
     else:  # use_enum_name is None
         try:
             result = cls[obj]
-        except KeyError:
+        except (KeyError, TypeError):  # A TypeError if it is unhashable.
             result = cls(obj)  # May raise a ValueError (which is expected).
     return result
-- 
2.43.0


From c90708087526be8ff08fa1672e6f2f3a38e74ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 069/111] fix: dump the values of enum members as JSON and load
 these

---
 jsons/deserializers/default_enum.py | 31 +++++++++++++++++++++++++++--
 jsons/serializers/default_enum.py   | 14 ++++++++-----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/jsons/deserializers/default_enum.py b/jsons/deserializers/default_enum.py
index 8b1cb78..9624179 100644
--- a/jsons/deserializers/default_enum.py
+++ b/jsons/deserializers/default_enum.py
@@ -1,6 +1,10 @@
 from enum import EnumMeta
 from typing import Optional
 
+from jsons._common_impl import StateHolder
+from jsons._dump_impl import dump
+from jsons.exceptions import JsonsError
+
 
 def default_enum_deserializer(obj: str,
                               cls: EnumMeta,
@@ -23,10 +27,33 @@ def default_enum_deserializer(obj: str,
     if use_enum_name:
         result = cls[obj]
     elif use_enum_name is False:
-        result = cls(obj)
+        result = _from_value(obj, cls, **kwargs)
     else:  # use_enum_name is None
         try:
             result = cls[obj]
         except (KeyError, TypeError):  # A TypeError if it is unhashable.
-            result = cls(obj)  # May raise a ValueError (which is expected).
+            result = _from_value(obj, cls, **kwargs)
     return result
+
+
+def _from_value(obj: object,
+                cls: EnumMeta,
+                *,
+                fork_inst: type = StateHolder,
+                **_) -> object:
+    try:
+        return cls(obj)
+    except ValueError:
+        # Values that are no JSON types can be recognized by their dumps.
+        for elem in cls:
+            if _dumps_to(elem.value, obj, fork_inst):
+                return elem
+        raise  # Which is expected.
+
+
+def _dumps_to(value: object, dumped: object, fork_inst: type) -> bool:
+    try:
+        return dump(value, fork_inst=fork_inst, use_enum_name=False,
+                    _initial=False) == dumped
+    except JsonsError:
+        return False
diff --git a/jsons/serializers/default_enum.py b/jsons/serializers/default_enum.py
index 2861ae8..9e8ed31 100644
--- a/jsons/serializers/default_enum.py
+++ b/jsons/serializers/default_enum.py
@@ -1,18 +1,22 @@
 from enum import EnumMeta
 
+from jsons._dump_impl import dump
+
 
 def default_enum_serializer(obj: EnumMeta,
                             *,
                             use_enum_name: bool = True,
-                            **_) -> str:
+                            **kwargs) -> object:
     """
     Serialize the given obj. By default, the name of the enum element is
     returned.
     :param obj: an instance of an enum.
     :param use_enum_name: determines whether the name or the value should be
     used for serialization.
-    :param _: not used.
-    :return: ``obj`` serialized as a string.
+    :param kwargs: any keyword arguments that are used when the value is
+    serialized.
+    :return: ``obj`` serialized as a string or the serialized value.
     """
-    attr = 'name' if use_enum_name else 'value'
-    return getattr(obj, attr)
+    if use_enum_name:
+        return obj.name
+    return dump(obj.value, **{**kwargs, 'cls': None, 'use_enum_name': False})
-- 
2.43.0


From 4dbb069d9bc86cff877d8c2520026f030025ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 070/111] fix: strictly dump the attributes that the bases of a
 class with slots declare

---
 jsons/serializers/default_object.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 3334c28..0769e61 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -209,7 +209,12 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         slots = cls.__slots__
         slots = (slots,) if isinstance(slots, str) else slots
-        attributes = {attr: None for attr in slots}
+        attributes = dict()
+        for base in reversed(cls.__bases__):
+            if base is not object:
+                # The attributes of the bases are not among these slots.
+                attributes.update(_get_attributes_and_types(base, strict))
+        attributes.update({attr: None for attr in slots})
     elif hasattr(cls, '__annotations__'):
         attributes = {**get_type_hints(cls)}  # Do not alter a cached dict.
     elif strict:
-- 
2.43.0


From e81068a9e1ce864581a2861b83a2ce4df6253e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 071/111] fix: respect the order of each union, also of those
 that are equal

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 6b2b0c2..010ab54 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -51,8 +51,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
+    # Not cached: unions of the same types in another order are equal.
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
-- 
2.43.0


From ee9b8835bfbc4f812b3f5aae494f748e86e531b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 072/111] fix: resolve a class given by name before checking
 for null

---
 jsons/_load_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index bb31be7..a2cb0c5 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -73,12 +73,12 @@ def load(
     :param kwargs: the keyword args are passed on to the deserializer function.
     :return: an instance of ``cls`` if given, a dict otherwise.
     """
+    if isinstance(cls, str):
+        cls = get_cls_from_str(cls, json_obj, fork_inst)
     _check_for_none(json_obj, cls)
     if _should_skip(json_obj, cls, strict):
         validate(json_obj, cls, fork_inst)
         return json_obj
-    if isinstance(cls, str):
-        cls = get_cls_from_str(cls, json_obj, fork_inst)
     if cls is object:
         cls = None  # Any value is an object, use the type of json_obj.
     original_cls = cls
-- 
2.43.0


From cbd6a761b2952183e2aa81c54189faddaec9b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 073/111] fix: accept the name of a generic type of one type,
 e.g. Optional

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7890c16..2910b2e 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -104,7 +104,7 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
                 for s in _split_subtypes(subtypes_str)]
     try:
-        return origin[tuple(subtypes)]
+        return origin[subtypes[0] if len(subtypes) == 1 else tuple(subtypes)]
     except TypeError as err:
         msg = '"{}" is not a valid type.'.format(cls_str)
         raise UnknownClassError(msg, source, cls_str) from err
-- 
2.43.0


From 65a5983914d4b0931b75f4363d2287632bcca4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 074/111] fix: raise an UnknownClassError if the module of a
 named class fails to import

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 2910b2e..424a05e 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -91,7 +91,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError, TypeError):
+    except Exception:  # Importing a module can fail in any way.
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
-- 
2.43.0


From af19f936538122a202724b98707bf31982597bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 075/111] fix: keep the keys of users named -cls in verbose
 dumps

---
 jsons/serializers/default_object.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 0769e61..59fa9d4 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -16,6 +16,12 @@ from jsons.classes.verbosity import Verbosity
 from jsons.exceptions import SerializationError
 
 
+class _ClsKey:
+    # The key under which the class of a dumped object is temporarily stored.
+    # It is no str, so it differs from any key of a user.
+    pass
+
+
 def default_object_serializer(
         obj: object,
         cls: Optional[type] = None,
@@ -75,7 +81,7 @@ def default_object_serializer(
         'fork_inst': fork_inst,
         'verbose': verbose,
         'strict': strict,
-        # Set a flag in kwargs to temporarily store -cls:
+        # Set a flag in kwargs to temporarily store _ClsKey:
         '_store_cls': Verbosity.WITH_CLASS_INFO in verbose
     }
 
@@ -282,7 +288,7 @@ def _get_dict_with_meta(
         verbose: Verbosity,
         fork_inst: type) -> dict:
     # This function will add a -meta section to the given obj (provided that
-    # the given obj has -cls attributes for all children).
+    # the given obj has _ClsKey keys for all children).
     if verbose is Verbosity.WITH_NOTHING:
         return obj
 
@@ -304,7 +310,7 @@ def _fill_collection_of_types(
         prefix: str,
         collection_of_types_: dict) -> str:
     # This function loops through obj_ to fill collection_of_types_ with the
-    # class names. All of the -cls attributes are removed in the process.
+    # class names. All of the _ClsKey keys are removed in the process.
     cls_name_ = _get_class_name_and_strip_cls(cls_name_, obj_)
     for attr in obj_:
         if attr != META_ATTR and isinstance(obj_[attr], dict):
@@ -320,10 +326,10 @@ def _fill_collection_of_types(
 
 def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
     result = cls_name
-    if not cls_name and '-cls' in obj:
-        result = obj['-cls']
-    if '-cls' in obj:
-        del obj['-cls']
+    if not cls_name and _ClsKey in obj:
+        result = obj[_ClsKey]
+    if _ClsKey in obj:
+        del obj[_ClsKey]
     return result
 
 
@@ -336,7 +342,7 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
             cls_name = repr(cls)
         else:
             cls_name = get_class_name(cls, fully_qualified=True)
-        result['-cls'] = cls_name
+        result[_ClsKey] = cls_name
 
 
 def _is_slot(attr: str, cls: type) -> bool:
-- 
2.43.0


From e7385dbcd4fe85c2179db21a62c54b12298f99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 076/111] fix: tell classes apart whose names differ in case
 only

---
 jsons/_lizers_impl.py | 12 ++++++------
 jsons/_validation.py  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 24365d7..03ef016 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -41,9 +41,9 @@ def set_serializer(
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         fork_inst._classes_serializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._serializers[cls_name.lower()] = func
+        fork_inst._serializers[cls_name] = func
     else:
-        fork_inst._serializers['nonetype'] = func
+        fork_inst._serializers['NoneType'] = func
     clear()
 
 
@@ -78,9 +78,9 @@ def set_deserializer(
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         fork_inst._classes_deserializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._deserializers[cls_name.lower()] = func
+        fork_inst._deserializers[cls_name] = func
     else:
-        fork_inst._deserializers['nonetype'] = func
+        fork_inst._deserializers['NoneType'] = func
     clear()
 
 
@@ -120,7 +120,7 @@ def _get_lizer(
         classes_lizers: list,
         fork_inst: type,
         recursive: bool = False) -> callable:
-    cls_name = get_class_name(cls, str.lower, fully_qualified=True)
+    cls_name = get_class_name(cls, fully_qualified=True)
     lizer = (lizers.get(cls_name, None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
     if not lizer and not recursive and hasattr(cls, '__supertype__'):
@@ -137,7 +137,7 @@ def _get_lizer_by_parents(
     result = None
     parents = _get_parents(cls, classes_lizers)
     if parents:
-        pname = get_class_name(parents[0], str.lower, fully_qualified=True)
+        pname = get_class_name(parents[0], fully_qualified=True)
         result = lizers[pname]
     return result
 
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 3a4b819..af66978 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -31,7 +31,7 @@ def set_validator(
             set_validator(func, cls=cls_, fork_inst=fork_inst)
     else:
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._validators[cls_name.lower()] = func
+        fork_inst._validators[cls_name] = func
         fork_inst._classes_validators.append(cls)
     clear()
 
-- 
2.43.0


From 465d3948d53a4f64a28f36f915259d305c23a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 077/111] fix: tell classes with the same name apart when
 (de)serializing and validating

---
 jsons/_lizers_impl.py | 29 +++++++++++++++++++----------
 jsons/_validation.py  |  7 +++----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 03ef016..87b8e01 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -40,10 +40,9 @@ def set_serializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         fork_inst._classes_serializers.insert(index, cls)
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._serializers[cls_name] = func
+        _set_lizer(func, cls, fork_inst._serializers)
     else:
-        fork_inst._serializers['NoneType'] = func
+        _set_lizer(func, type(None), fork_inst._serializers)
     clear()
 
 
@@ -77,10 +76,9 @@ def set_deserializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         fork_inst._classes_deserializers.insert(index, cls)
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._deserializers[cls_name] = func
+        _set_lizer(func, cls, fork_inst._deserializers)
     else:
-        fork_inst._deserializers['NoneType'] = func
+        _set_lizer(func, type(None), fork_inst._deserializers)
     clear()
 
 
@@ -114,14 +112,26 @@ def get_deserializer(
     return deserializer
 
 
+def _set_lizer(func: callable, cls: type, lizers: dict) -> None:
+    lizers[get_class_name(cls, fully_qualified=True)] = func
+    lizers[_get_key(cls)] = func
+
+
+def _get_key(cls: type) -> object:
+    # Different classes may share a name, so these are their own key. Any other
+    # type (e.g. Union[int, str]) is known by its name.
+    if issubclass(type(cls), type):
+        return cls
+    return get_class_name(cls, fully_qualified=True)
+
+
 def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
         fork_inst: type,
         recursive: bool = False) -> callable:
-    cls_name = get_class_name(cls, fully_qualified=True)
-    lizer = (lizers.get(cls_name, None)
+    lizer = (lizers.get(_get_key(cls), None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
     if not lizer and not recursive and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
@@ -137,8 +147,7 @@ def _get_lizer_by_parents(
     result = None
     parents = _get_parents(cls, classes_lizers)
     if parents:
-        pname = get_class_name(parents[0], fully_qualified=True)
-        result = lizers[pname]
+        result = lizers[_get_key(parents[0])]
     return result
 
 
diff --git a/jsons/_validation.py b/jsons/_validation.py
index af66978..a7d022a 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -6,8 +6,8 @@ This module contains functionality for validating objects.
 from typing import Union, Sequence, Callable
 
 from jsons._cache import cached, clear
-from jsons._common_impl import StateHolder, get_class_name
-from jsons._lizers_impl import _get_lizer
+from jsons._common_impl import StateHolder
+from jsons._lizers_impl import _get_lizer, _set_lizer
 from jsons.exceptions import ValidationError
 
 
@@ -30,8 +30,7 @@ def set_validator(
         for cls_ in cls:
             set_validator(func, cls=cls_, fork_inst=fork_inst)
     else:
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._validators[cls_name] = func
+        _set_lizer(func, cls, fork_inst._validators)
         fork_inst._classes_validators.append(cls)
     clear()
 
-- 
2.43.0


From b4cda0becfd0d5fb0d07ddcf68fbcc03adb6806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 078/111] fix: make a (de)serializer findable before the class
 it is for

---
 jsons/_lizers_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 87b8e01..a5e468a 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -39,8 +39,8 @@ def set_serializer(
             set_serializer(func, cls_, high_prio, fork_inst)
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
-        fork_inst._classes_serializers.insert(index, cls)
         _set_lizer(func, cls, fork_inst._serializers)
+        fork_inst._classes_serializers.insert(index, cls)
     else:
         _set_lizer(func, type(None), fork_inst._serializers)
     clear()
@@ -75,8 +75,8 @@ def set_deserializer(
             set_deserializer(func, cls_, high_prio, fork_inst)
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
-        fork_inst._classes_deserializers.insert(index, cls)
         _set_lizer(func, cls, fork_inst._deserializers)
+        fork_inst._classes_deserializers.insert(index, cls)
     else:
         _set_lizer(func, type(None), fork_inst._deserializers)
     clear()
-- 
2.43.0


From e2f9e70005d2ada67f385e30ad1dad9f1bf98e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 079/111] fix: tell NewTypes with the same name apart

---
 jsons/_lizers_impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index a5e468a..debd47f 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -118,9 +118,9 @@ def _set_lizer(func: callable, cls: type, lizers: dict) -> None:
 
 
 def _get_key(cls: type) -> object:
-    # Different classes may share a name, so these are their own key. Any other
-    # type (e.g. Union[int, str]) is known by its name.
-    if issubclass(type(cls), type):
+    # Different classes (or NewTypes) may share a name, so these are their own
+    # key. Any other type (e.g. Union[int, str]) is known by its name.
+    if issubclass(type(cls), type) or hasattr(cls, '__supertype__'):
         return cls
     return get_class_name(cls, fully_qualified=True)
 
-- 
2.43.0


From b5f4839573c5dabb4d5c7186e07faa7c93ffc29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 080/111] fix: load as the union or defaultdict that class info
 of an object tells

---
 jsons/deserializers/default_defaultdict.py | 4 +++-
 jsons/deserializers/default_union.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_defaultdict.py b/jsons/deserializers/default_defaultdict.py
index 2ad860e..ba4e21b 100644
--- a/jsons/deserializers/default_defaultdict.py
+++ b/jsons/deserializers/default_defaultdict.py
@@ -28,5 +28,7 @@ def default_defaultdict_deserializer(
         key, value = get_args(cls)
         cls_ = Dict[key, value]
         default_factory = value
-    loaded = load(obj, cls_, key_transformer=key_transformer, **kwargs)
+    # Any class info of obj was considered already.
+    kwargs_ = {**kwargs, '_inferred_cls': False}
+    loaded = load(obj, cls_, key_transformer=key_transformer, **kwargs_)
     return defaultdict(default_factory, loaded)
diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index a499e5a..760f211 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -17,9 +17,11 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     :return: An object of the first type of the Union that could be
     deserialized successfully.
     """
+    # Any class info of obj was considered already (it may be this union).
+    kwargs_ = {**kwargs, '_inferred_cls': False}
     for sub_type in get_union_params(cls):
         try:
-            return load(obj, sub_type, **kwargs)
+            return load(obj, sub_type, **kwargs_)
         except JsonsError:
             pass  # Try the next one.
     else:
-- 
2.43.0


From bd12ba20769d0442d7a83a28a66a693761aa89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 081/111] fix: raise an UnknownClassError for any name that
 cannot be a generic type

---
 jsons/_common_impl.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 424a05e..49158b7 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -101,25 +101,30 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
-    subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in _split_subtypes(subtypes_str)]
     try:
+        subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
+                    for s in _split_subtypes(subtypes_str)]
         return origin[subtypes[0] if len(subtypes) == 1 else tuple(subtypes)]
-    except TypeError as err:
+    except UnknownClassError:
+        raise  # This is about one of the sub types.
+    except Exception as err:  # Subscripting something can fail in any way.
         msg = '"{}" is not a valid type.'.format(cls_str)
         raise UnknownClassError(msg, source, cls_str) from err
 
 
 def _split_subtypes(subtypes_str: str) -> list:
     # Split by the commas that are not within the brackets of a sub type.
-    result = ['']
-    for char in subtypes_str:
-        unclosed = result[-1].count('[') - result[-1].count(']')
-        if char == ',' and not unclosed:
-            result.append('')
-        else:
-            result[-1] += char
-    return result
+    result = []
+    start = unclosed = 0
+    for index, char in enumerate(subtypes_str):
+        if char == '[':
+            unclosed += 1
+        elif char == ']':
+            unclosed -= 1
+        elif char == ',' and not unclosed:
+            result.append(subtypes_str[start:index])
+            start = index + 1
+    return result + [subtypes_str[start:]]
 
 
 def determine_precedence(
-- 
2.43.0


From 61a5072111ed94c411285a3395f7af2bcfebe6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 082/111] fix: load a keyword argument as annotated, not as a
 positional-only parameter of its name

---
 jsons/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 8b57e9b..76b3202 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -171,7 +171,11 @@ def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
                    if param.kind is Parameter.VAR_KEYWORD]
     new_kwargs = {}
     for name, arg in kwargs.items():
-        sig = params.get(name, None) or (var_keyword and var_keyword[0])
+        sig = params.get(name, None)
+        if not sig or sig.kind in (Parameter.POSITIONAL_ONLY,
+                                   Parameter.VAR_POSITIONAL):
+            # Such a parameter cannot be passed by its name.
+            sig = var_keyword and var_keyword[0]
         cls = (sig.annotation
                if sig and sig.annotation != Parameter.empty else None)
         new_kwargs[name] = mapper(arg, cls=cls, fork_inst=fork_inst,
-- 
2.43.0


From 263d19be02f116d1f10cee59af96c3518af9656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 083/111] fix: leave self and cls of decorated private methods
 as they are

---
 jsons/decorators.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 76b3202..668eb68 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -149,11 +149,22 @@ def _get_params_sig(args, func):
     return result
 
 
+def _get_attr_name(decorated):
+    name = decorated.__name__
+    scopes = decorated.__qualname__.split('.')[:-1]
+    if name.startswith('__') and not name.endswith('__') and scopes:
+        # The name of a private method is mangled with that of its class.
+        owner = scopes[-1].lstrip('_')
+        name = '_{}{}'.format(owner, name) if owner else name
+    return name
+
+
 def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
     params_sig = _get_params_sig(args, decorated)
     new_args = []
     for arg, sig in params_sig:
-        if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
+        if (sig.name in ('self', 'cls')
+                and hasattr(arg, _get_attr_name(decorated))):
             # `decorated` is a method and arg is either `self` or `cls`.
             new_arg = arg
         else:
-- 
2.43.0


From be13228c258fb282cf860cc15602ab4bd8c9b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 084/111] fix: raise a DecodeError for text that the decoder
 cannot handle

---
 jsons/_load_impl.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index a2cb0c5..af25a6e 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -155,6 +155,12 @@ def loads(
     except JSONDecodeError as err:
         raise DecodeError('Could not load a dict; the given string is not '
                           'valid JSON.', str_, cls, err) from err
+    except (ValueError, RecursionError) as err:
+        # E.g. a number has too many digits or lists are nested too deeply.
+        decode_err = JSONDecodeError(str(err), repr(str_), 0)
+        raise DecodeError('Could not load a dict; the given string cannot be '
+                          'decoded. {}'.format(err),
+                          str_, cls, decode_err) from err
     else:
         return load(obj, cls, *args, **kwargs)
 
-- 
2.43.0


From da51e9e23a5b7ec5f49459f805bdb21e2382cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 085/111] fix: strictly dump what the constructor of a class
 with a metaclass declares

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 010ab54..5fd6fa3 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -83,7 +83,7 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             context_dict = sys.modules[fallback_ns].__dict__
             result = typing.get_type_hints(callable_, globalns=context_dict)
 
-    if sys.version_info.minor >= 10 and type(callable_) is type:
+    if sys.version_info.minor >= 10 and isinstance(callable_, type):
         annotations_from_init = {**get_type_hints(callable_.__init__,
                                                   callable_.__module__)}
         if 'return' in annotations_from_init:
-- 
2.43.0


From d5b15e87e13eb087159a27eabbe5bacb700ee5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 086/111] fix: dump objects of classes with a class variable
 that holds a type without source

---
 jsons/serializers/default_object.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 59fa9d4..deeed79 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -353,8 +353,13 @@ def _is_slot(attr: str, cls: type) -> bool:
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
-    return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+    if not isinstance(attr_obj, type):
+        return False
+    try:
+        return inspect.getsource(attr_obj) in inspect.getsource(cls)
+    except (OSError, TypeError):
+        # There is no source, e.g. of a builtin or in an interactive session.
+        return attr_obj.__qualname__ == '{}.{}'.format(cls.__qualname__, attr)
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From db327e03be6611990a32ba5ab81c94d61d313b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 087/111] fix: load into classes whose constructors do not call
 the instance self

---
 jsons/deserializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index e90504a..d072f5e 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -85,7 +85,9 @@ def _get_constructor_args(
 
 @cached
 def _get_signature(cls):
-    return inspect.signature(cls.__init__).parameters
+    # The first parameter is the instance itself, whatever its name is.
+    parameters = inspect.signature(cls.__init__).parameters
+    return dict(list(parameters.items())[1:])
 
 
 def _get_value_for_attr(
-- 
2.43.0


From c3cdd6d6d948539b7807e0d74da2a45af618ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 088/111] fix: load into classes whose constructors have
 positional-only parameters

---
 jsons/deserializers/default_object.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index d072f5e..588e5fe 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -50,7 +50,7 @@ def default_object_deserializer(
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
-    instance = cls(**constructor_args)
+    instance = _create_instance(cls, constructor_args)
     _set_remaining_attrs(instance, remaining_attrs, **kwargs)
     return instance
 
@@ -83,6 +83,14 @@ def _get_constructor_args(
     return result
 
 
+def _create_instance(cls, constructor_args: dict) -> object:
+    # Some parameters of the constructor may not accept a keyword argument.
+    kwargs = dict(constructor_args)
+    args = [kwargs.pop(sig_key) for sig_key, sig in _get_signature(cls).items()
+            if sig.kind is inspect.Parameter.POSITIONAL_ONLY]
+    return cls(*args, **kwargs)
+
+
 @cached
 def _get_signature(cls):
     # The first parameter is the instance itself, whatever its name is.
-- 
2.43.0


From 65696ee89166a4c6ee2d0b168f3b82157dfcc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 089/111] fix: load attributes that are annotated as a ClassVar
 or an InitVar

---
 jsons/_compatibility_impl.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 5fd6fa3..2ece309 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -91,4 +91,14 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             del annotations_from_init['return']
         result = {**result, **annotations_from_init}
 
-    return result
+    return {name: _get_qualified_type(hint) for name, hint in result.items()}
+
+
+def _get_qualified_type(hint: object) -> object:
+    # Return the type without what it tells about the variable rather than
+    # about its value (e.g. ClassVar[int] or InitVar[int]).
+    if getattr(hint, '__origin__', None) is typing.ClassVar:
+        hint = hint.__args__[0]
+    elif type(hint).__name__ == 'InitVar':
+        hint = hint.type
+    return None if hint is typing.ClassVar else hint
-- 
2.43.0


From b7440f4b9680b8609a8ed4f74d9bffef457536f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 090/111] fix: load the parts of a complex with the
 deserializers of the fork

---
 jsons/deserializers/default_complex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..4776933 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -1,5 +1,6 @@
 from typing import Dict
 
+from jsons._common_impl import StateHolder
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -11,12 +12,13 @@ def default_complex_deserializer(obj: Dict[str, float],
     Deserialize a dictionary with 'real' and 'imag' keys to a complex number.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments.
     :return: an instance of ``complex``.
     """
+    fork_inst = kwargs.get('fork_inst', StateHolder)
     try:
         clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
+                         cls=Dict[str, float], fork_inst=fork_inst)
         return complex(clean_obj['real'], clean_obj['imag'])
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
-- 
2.43.0


From 33e7fa70e1503f1dd5b70c3fe3d9c4dcf17515c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 091/111] fix: load lists and tuples into their subclasses

---
 jsons/deserializers/default_list.py  | 18 +++++++++++++++++-
 jsons/deserializers/default_tuple.py |  3 ++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 2373c9b..fb1b0d3 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -4,6 +4,7 @@ from typing import Callable, Type
 from typish import get_args
 
 from jsons._common_impl import StateHolder
+from jsons._compatibility_impl import get_naked_class
 from jsons._load_impl import load
 from jsons._multitasking import get_result, multi_task
 from jsons.exceptions import JsonsError, DeserializationError
@@ -48,7 +49,22 @@ def default_list_deserializer(
                           get_result)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
-    return result
+    return to_subclass(result, cls)
+
+
+def to_subclass(obj: object, cls: type) -> object:
+    """
+    Return the given list or tuple as an instance of cls if that is a subclass
+    of its type.
+    :param obj: a list or tuple.
+    :param cls: any type, optionally with a generic (e.g. List[str]).
+    :return: ``obj`` or an instance of a subclass.
+    """
+    naked_cls = get_naked_class(cls)
+    if (isinstance(naked_cls, type) and issubclass(naked_cls, type(obj))
+            and naked_cls is not type(obj)):
+        return naked_cls(obj)
+    return obj
 
 
 def _do_load(
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 8813098..fc8ed7a 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -5,6 +5,7 @@ from typish import get_args
 from jsons._common_impl import can_match_with_none, get_sub_hints
 from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
+from jsons.deserializers.default_list import to_subclass
 from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
 
@@ -39,7 +40,7 @@ def default_tuple_deserializer(obj: list,
                  for i, value in enumerate(obj)]
     else:
         list_ = [load(value, **kwargs) for i, value in enumerate(obj)]
-    return tuple(list_)
+    return to_subclass(tuple(list_), cls)
 
 
 def default_namedtuple_deserializer(
-- 
2.43.0


From e93420d647286520c2be59ca483fb2f1aeec5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 092/111] fix: transform the keys of class hints like the keys
 of the object

---
 jsons/deserializers/default_object.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 588e5fe..98fe1da 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -223,11 +223,26 @@ def _check_and_transform_keys(obj: dict,
                for key in obj}
         kwargs = {
             **kwargs,
-            'key_transformer': key_transformer
+            'key_transformer': key_transformer,
+            'meta_hints': _transform_hints(kwargs.get('meta_hints'),
+                                           key_transformer)
         }
     return obj, kwargs
 
 
+def _transform_hints(meta_hints: Optional[dict],
+                     key_transformer: Callable[[str], str]) -> dict:
+    # The paths of the hints start with keys as they were dumped, these should
+    # still match the keys of the object. What is nested is transformed later.
+    result = {}
+    for path, hint in (meta_hints or {}).items():
+        key, slash, remainder = path[1:].partition('/')
+        if key:
+            path = '/{}{}{}'.format(key_transformer(key), slash, remainder)
+        result[path] = hint
+    return result
+
+
 def _get_remaining_args(obj: dict,
                         cls: type,
                         constructor_args: dict,
-- 
2.43.0


From 870828164004bd7256d46602f856080426b0d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:41 +0000
Subject: [PATCH 093/111] fix: dump values of unions as other classes only if
 nothing else fits

---
 jsons/serializers/default_union.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_union.py b/jsons/serializers/default_union.py
index f0cddd7..b48b7d7 100644
--- a/jsons/serializers/default_union.py
+++ b/jsons/serializers/default_union.py
@@ -1,9 +1,14 @@
+from functools import partial
+from inspect import isclass
 from typing import Union
 
-from jsons._common_impl import get_class_name, NoneType
+from jsons._common_impl import (get_class_name, is_any_type, NoneType,
+                                StateHolder)
 from jsons._compatibility_impl import get_union_params
 from jsons._dump_impl import dump
+from jsons._lizers_impl import get_serializer
 from jsons.exceptions import JsonsError, SerializationError
+from jsons.serializers.default_object import default_object_serializer
 
 
 def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
@@ -24,7 +29,11 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
     if obj is None and NoneType in sub_types:
         return obj
 
-    for sub_type in sub_types:
+    # Anything could be dumped as an object of some class, whether it is one or
+    # not; classes that obj is no instance of are therefore tried last.
+    is_other_cls = partial(_is_other_cls, obj,
+                           kwargs.get('fork_inst', StateHolder))
+    for sub_type in sorted(sub_types, key=is_other_cls):
         try:
             return dump(obj, sub_type, **kwargs)
         except JsonsError:
@@ -35,3 +44,10 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
         err_msg = ('Could not match the object of type "{}" to any type of '
                    'the Union: {}'.format(type(obj), args_msg))
         raise SerializationError(err_msg)
+
+
+def _is_other_cls(obj: object, fork_inst: type, cls: type) -> bool:
+    # Return True if cls has no serializer of its own and obj is not of it.
+    return (isclass(cls) and not is_any_type(cls)
+            and cls not in obj.__class__.__mro__
+            and get_serializer(cls, fork_inst) is default_object_serializer)
-- 
2.43.0


From 932073009270852f37abc8a7712e5377cd5e17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 094/111] fix: load with the type of empty tuples by its name

---
 jsons/_common_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 49158b7..a35f194 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -102,6 +102,8 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
     try:
+        if subtypes_str == '()':  # The type of an empty tuple.
+            return origin[()]
         subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
                     for s in _split_subtypes(subtypes_str)]
         return origin[subtypes[0] if len(subtypes) == 1 else tuple(subtypes)]
-- 
2.43.0


From 1b54845b5719eebbe5d14cea7656daed90034e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 095/111] fix: take the offset of a datetime from its timezone
 at that moment

---
 jsons/_datetime_impl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index ddeffac..5f5da47 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -85,9 +85,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
     offset = 'Z'
     if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
             or tzone.utcoffset(obj)):
-        tdelta = tzone.utcoffset(None) or \
-                 getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
-        offset = _timedelta_offset_str(tdelta)
+        # The offset without a datetime would be that without daylight saving.
+        offset = _timedelta_offset_str(tzone.utcoffset(obj))
     return offset
 
 
-- 
2.43.0


From 68eb8da2f4347d7765a948f4609378e84f32aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 096/111] fix: support NewTypes of NewTypes

---
 jsons/_lizers_impl.py                  | 7 +++----
 jsons/serializers/default_primitive.py | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index debd47f..c62e163 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -129,13 +129,12 @@ def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
-        fork_inst: type,
-        recursive: bool = False) -> callable:
+        fork_inst: type) -> callable:
     lizer = (lizers.get(_get_key(cls), None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
-    if not lizer and not recursive and hasattr(cls, '__supertype__'):
+    if not lizer and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
-                          classes_lizers, fork_inst, True)
+                          classes_lizers, fork_inst)
     return lizer
 
 
diff --git a/jsons/serializers/default_primitive.py b/jsons/serializers/default_primitive.py
index 93725e1..d896d34 100644
--- a/jsons/serializers/default_primitive.py
+++ b/jsons/serializers/default_primitive.py
@@ -15,8 +15,8 @@ def default_primitive_serializer(obj: object,
     result = obj
 
     cls_ = cls
-    if _is_newtype(cls):
-        cls_ = cls.__supertype__
+    while _is_newtype(cls_):
+        cls_ = cls_.__supertype__
 
     if cls_ and obj is not None and not isinstance(obj, cls_):
         try:
-- 
2.43.0


From 6812aa6320a4fd3a9d56b6708c612f3e7222c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:36 +0000
Subject: [PATCH 097/111] fix: dump datetimes of which the timezone tells no
 offset as local times

---
 jsons/_datetime_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 5f5da47..63b5185 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -70,8 +70,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
     :return: the offset for ``obj``.
     """
     tzone = obj.tzinfo
-    if not tzone:
-        # datetimes without tzinfo are treated as local times.
+    if obj.utcoffset() is None:
+        # datetimes without (any offset from) tzinfo are treated as local times.
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-- 
2.43.0


From 050e8acfbbb7340c71909c6c2b5a5e6fdda9bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:57 +0000
Subject: [PATCH 098/111] fix: dump attrs classes with private attributes
 strictly as such

---
 jsons/serializers/default_object.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index deeed79..d3d9a2d 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -229,6 +229,12 @@ def _get_attributes_and_types(cls: type,
     else:
         attributes = {}
 
+    for attr in getattr(cls, '__attrs_attrs__', ()):
+        # The parameters of attrs have no leading underscores.
+        parameter = attr.name.lstrip('_')
+        if parameter != attr.name and parameter in attributes:
+            attributes[attr.name] = attributes.pop(parameter)
+
     # Add properties and class variables.
     props, class_vars = _get_class_props(cls)
     for elem in props + class_vars:
-- 
2.43.0


From ac0f7af652fc3da67a6dfb876cdcf1ac4fe4b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 099/111] fix: dump combinations of flags that have no name by
 their value

---
 jsons/serializers/default_enum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_enum.py b/jsons/serializers/default_enum.py
index 9e8ed31..9c304fc 100644
--- a/jsons/serializers/default_enum.py
+++ b/jsons/serializers/default_enum.py
@@ -1,4 +1,4 @@
-from enum import EnumMeta
+from enum import Enum, EnumMeta, Flag
 
 from jsons._dump_impl import dump
 
@@ -17,6 +17,11 @@ def default_enum_serializer(obj: EnumMeta,
     serialized.
     :return: ``obj`` serialized as a string or the serialized value.
     """
-    if use_enum_name:
+    if use_enum_name and not _is_nameless(obj):
         return obj.name
     return dump(obj.value, **{**kwargs, 'cls': None, 'use_enum_name': False})
+
+
+def _is_nameless(obj: Enum) -> bool:
+    # Return True if obj is a combination of flags that is no element itself.
+    return isinstance(obj, Flag) and obj.name not in type(obj).__members__
-- 
2.43.0


From 7146453a2df2f5d8a06f746fcebd3dd8e27bb0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 100/111] fix: load counters with a type for their keys

---
 jsons/deserializers/default_mapping.py | 2 ++
 jsons/deserializers/default_object.py  | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index c3438e7..764a1ad 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -18,6 +18,8 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     """
     cls_ = Mapping
     cls_args = get_args(cls)
+    if len(cls_args) == 1:
+        cls_args = (cls_args[0], int)  # E.g. Counter[<type>].
     if cls_args:
         cls_ = MappingType[cls_args]
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 98fe1da..ee16620 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -161,10 +161,12 @@ def _refine_dict_type(cls: type, cls_from_meta: type) -> type:
     if getattr(cls, '__origin__', None) is Union:
         declared = get_union_params(cls)
     declared = [elem for elem in declared
-                if _is_dict_type(elem) and len(get_args(elem)) == 2]
+                if _is_dict_type(elem) and get_args(elem)]
     if len(declared) != 1:
         return cls_from_meta
     result, args_from_meta = declared[0], get_args(cls_from_meta)
+    if len(get_args(result)) == 1:
+        return result  # E.g. Counter[<type>].
     key_type, value_type = get_args(result)
     if (len(args_from_meta) == 2
             and inspect.isclass(value_type)
-- 
2.43.0


From 5e4a41c3843067f7ef797597f9f1538be2ce7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 101/111] fix: load into abstract types of sets

---
 jsons/deserializers/default_iterable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/deserializers/default_iterable.py b/jsons/deserializers/default_iterable.py
index 24cc0b5..85cabdf 100644
--- a/jsons/deserializers/default_iterable.py
+++ b/jsons/deserializers/default_iterable.py
@@ -1,4 +1,5 @@
 from collections.abc import Mapping, Iterable
+from inspect import isabstract
 from typing import Iterable as IterableType
 
 from jsons._compatibility_impl import get_naked_class
@@ -26,5 +27,7 @@ def default_iterable_deserializer(
     result = list_
     naked_cls = get_naked_class(cls)
     if not isinstance(result, naked_cls):
+        if isabstract(naked_cls) and issubclass(set, naked_cls):
+            naked_cls = set  # E.g. AbstractSet or MutableSet.
         result = naked_cls(list_)
     return result
-- 
2.43.0


From 835b183a5c70eec8820ea4e939cafadb6b7449f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:27 +0000
Subject: [PATCH 102/111] fix: classes that are false to Python were taken for
 no class

A metaclass may define __len__ or __bool__. Objects of such classes were loaded
as their JSON and the (de)serializers of such classes were registered for None.
---
 jsons/_common_impl.py                 | 4 ++--
 jsons/_dump_impl.py                   | 2 +-
 jsons/_lizers_impl.py                 | 4 ++--
 jsons/deserializers/default_object.py | 5 +++--
 jsons/serializers/default_object.py   | 4 ++--
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index a35f194..c3af2b1 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -141,7 +141,7 @@ def determine_precedence(
         order = [cls_from_meta, cls, cls_from_type]
     # Now to return the first element in the order that holds a value.
     for elem in order:
-        if elem:
+        if elem is not None:
             return elem
 
 
@@ -200,7 +200,7 @@ def _lookup_announced_class(
         source: object,
         fork_inst: type) -> type:
     cls = fork_inst._announced_classes.get(cls_str)
-    if not cls:
+    if cls is None:
         msg = ('Could not find a suitable type for "{}". Make sure it can be '
                'imported or that is has been announced.'.format(cls_str))
         raise UnknownClassError(msg, source, cls_str)
diff --git a/jsons/_dump_impl.py b/jsons/_dump_impl.py
index ef899af..f6722dc 100644
--- a/jsons/_dump_impl.py
+++ b/jsons/_dump_impl.py
@@ -41,7 +41,7 @@ def dump(obj: object,
     """
     if is_any_type(cls):
         cls = None
-    cls_ = cls or obj.__class__
+    cls_ = cls if cls is not None else obj.__class__
     serializer = get_serializer(cls_, fork_inst)
 
     # Is this the initial call or a nested?
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index c62e163..5be6a35 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -37,7 +37,7 @@ def set_serializer(
     if isinstance(cls, Sequence):
         for cls_ in cls:
             set_serializer(func, cls_, high_prio, fork_inst)
-    elif cls:
+    elif cls is not None:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         _set_lizer(func, cls, fork_inst._serializers)
         fork_inst._classes_serializers.insert(index, cls)
@@ -73,7 +73,7 @@ def set_deserializer(
     if isinstance(cls, Sequence):
         for cls_ in cls:
             set_deserializer(func, cls_, high_prio, fork_inst)
-    elif cls:
+    elif cls is not None:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         _set_lizer(func, cls, fork_inst._deserializers)
         fork_inst._classes_deserializers.insert(index, cls)
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index ee16620..6e9d083 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -198,14 +198,15 @@ def _set_remaining_attrs(instance,
 
         if isinstance(remaining_attrs[attr_name], dict) \
                 and '-keys' in remaining_attrs[attr_name] \
-                and not attr_type:
+                and attr_type is None:
             fork_inst = kwargs['fork_inst']
             fork_inst._warn('A dict with -keys was detected without a type '
                             'hint for attribute `{}`. This probably means '
                             'that you did not provide an annotation in your '
                             'class (ending up in __annotations__).'
                             .format(attr_name), 'hashed-keys-without-hint')
-        attr_type = attr_type or type(remaining_attrs[attr_name])
+        if attr_type is None:
+            attr_type = type(remaining_attrs[attr_name])
 
         loaded_attr = _get_value_from_obj(remaining_attrs, attr_type,
                                           attr_name, **kwargs)
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index d3d9a2d..9183a98 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -65,7 +65,7 @@ def default_object_serializer(
     of ``obj``.
     """
     strip_attr = _normalize_strip_attr(strip_attr)
-    if cls and strict:
+    if cls is not None and strict:
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
             strip_attr, strict)
@@ -124,7 +124,7 @@ def _do_serialize(
         attr = getattr(obj, attr_name)
         if is_any_type(cls_):
             cls_ = None
-        attr_type = cls_ or type(attr)
+        attr_type = cls_ if cls_ is not None else type(attr)
         announce_class(attr_type, fork_inst=fork_inst)
         serializer = get_serializer(attr_type, fork_inst)
         try:
-- 
2.43.0


From 84b96a7633b67b202491a2939c0e1f90a1293fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:54 +0000
Subject: [PATCH 103/111] fix: call the datetime, date and time serializers
 without a fork

---
 jsons/serializers/default_date.py     | 3 ++-
 jsons/serializers/default_datetime.py | 3 ++-
 jsons/serializers/default_time.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_date.py b/jsons/serializers/default_date.py
index cba32d8..33bfac5 100644
--- a/jsons/serializers/default_date.py
+++ b/jsons/serializers/default_date.py
@@ -1,5 +1,6 @@
 from datetime import date
 
+from jsons._common_impl import StateHolder
 from jsons._datetime_impl import to_str, RFC3339_DATE_PATTERN
 
 
@@ -12,5 +13,5 @@ def default_date_serializer(obj: date, **kwargs) -> str:
     :param kwargs: not used.
     :return: ``date`` as an RFC3339 string.
     """
-    return to_str(obj, False, kwargs['fork_inst'],
+    return to_str(obj, False, kwargs.get('fork_inst', StateHolder),
                   RFC3339_DATE_PATTERN)
diff --git a/jsons/serializers/default_datetime.py b/jsons/serializers/default_datetime.py
index 5f54a5c..1df7d24 100644
--- a/jsons/serializers/default_datetime.py
+++ b/jsons/serializers/default_datetime.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from typing import Optional
 
+from jsons._common_impl import StateHolder
 from jsons._datetime_impl import to_str, RFC3339_DATETIME_PATTERN
 
 
@@ -18,5 +19,5 @@ def default_datetime_serializer(obj: datetime,
     :param kwargs: not used.
     :return: ``datetime`` as an RFC3339 string.
     """
-    return to_str(obj, strip_microseconds, kwargs['fork_inst'],
+    return to_str(obj, strip_microseconds, kwargs.get('fork_inst', StateHolder),
                   RFC3339_DATETIME_PATTERN)
diff --git a/jsons/serializers/default_time.py b/jsons/serializers/default_time.py
index 47f1d95..bf19c12 100644
--- a/jsons/serializers/default_time.py
+++ b/jsons/serializers/default_time.py
@@ -1,5 +1,6 @@
 from datetime import date
 
+from jsons._common_impl import StateHolder
 from jsons._datetime_impl import to_str, RFC3339_TIME_PATTERN
 
 
@@ -11,5 +12,5 @@ def default_time_serializer(obj: date, **kwargs) -> str:
     :param kwargs: not used.
     :return: ``time`` as an RFC3339 string.
     """
-    return to_str(obj, False, kwargs['fork_inst'],
+    return to_str(obj, False, kwargs.get('fork_inst', StateHolder),
                   RFC3339_TIME_PATTERN)
-- 
2.43.0


From 00d3cd5581403cb271cb39f3dcf1b5e8e4580c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:13 +0000
Subject: [PATCH 104/111] fix: call the primitive deserializer without a type

---
 jsons/deserializers/default_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_primitive.py b/jsons/deserializers/default_primitive.py
index ed7d72e..4733216 100644
--- a/jsons/deserializers/default_primitive.py
+++ b/jsons/deserializers/default_primitive.py
@@ -15,7 +15,7 @@ def default_primitive_deserializer(obj: object,
     :return: ``obj``.
     """
     result = obj
-    cls = get_supertype(cls)
+    cls = type(obj) if cls is None else get_supertype(cls)
     if obj is not None and not isinstance(obj, cls):
         try:
             result = cls(obj)
-- 
2.43.0


From 823dcf71dbddd5480f02a95f0c488ef4eaf32f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:18 +0000
Subject: [PATCH 105/111] fix: call the object deserializer without what load
 provides

---
 jsons/deserializers/default_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 6e9d083..2baf061 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -6,6 +6,7 @@ from typish import get_args
 
 from jsons._cache import cached
 from jsons._common_impl import (
+    StateHolder,
     get_class_name,
     META_ATTR,
     get_cls_from_str,
@@ -43,6 +44,9 @@ def default_object_deserializer(
     deserializers.
     :return: an instance of type ``cls``.
     """
+    # These are not there if this function is called directly.
+    kwargs.setdefault('meta_hints', {})
+    kwargs.setdefault('fork_inst', StateHolder)
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
     # The getters that are used for the constructor are removed from this copy.
-- 
2.43.0


From bf8ce67caea450253580dcbbdf51eb70f2d6b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:24 +0000
Subject: [PATCH 106/111] fix: export the documented (de)serializers of named
 tuples

---
 jsons/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 3152988..d8d7c6f 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -149,7 +149,10 @@ from jsons.deserializers.default_string import default_string_deserializer
 from jsons.deserializers.default_time import default_time_deserializer
 from jsons.deserializers.default_timedelta import default_timedelta_deserializer
 from jsons.deserializers.default_timezone import default_timezone_deserializer
-from jsons.deserializers.default_tuple import default_tuple_deserializer
+from jsons.deserializers.default_tuple import (
+    default_namedtuple_deserializer,
+    default_tuple_deserializer,
+)
 from jsons.deserializers.default_union import default_union_deserializer
 from jsons.deserializers.default_uuid import default_uuid_deserializer
 from jsons.deserializers.default_zone_info import default_zone_info_deserializer
@@ -176,7 +179,10 @@ from jsons.serializers.default_primitive import default_primitive_serializer
 from jsons.serializers.default_time import default_time_serializer
 from jsons.serializers.default_timedelta import default_timedelta_serializer
 from jsons.serializers.default_timezone import default_timezone_serializer
-from jsons.serializers.default_tuple import default_tuple_serializer
+from jsons.serializers.default_tuple import (
+    default_namedtuple_serializer,
+    default_tuple_serializer,
+)
 from jsons.serializers.default_union import default_union_serializer
 from jsons.serializers.default_uuid import default_uuid_serializer
 from jsons.serializers.default_zone_info import default_zone_info_serializer
@@ -233,6 +239,7 @@ __all__ = [
 
     # Serializers:
     default_tuple_serializer.__name__,
+    default_namedtuple_serializer.__name__,
     default_dict_serializer.__name__,
     default_iterable_serializer.__name__,
     default_list_serializer.__name__,
@@ -253,6 +260,7 @@ __all__ = [
     # Deserializers:
     default_list_deserializer.__name__,
     default_tuple_deserializer.__name__,
+    default_namedtuple_deserializer.__name__,
     default_union_deserializer.__name__,
     default_dict_deserializer.__name__,
     default_defaultdict_deserializer.__name__,
-- 
2.43.0


From 0874d47731b6a7ed9c81dfba03c5a4c548d81a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:30 +0000
Subject: [PATCH 107/111] fix: methods that are no plain functions were dumped
 as attributes

---
 jsons/serializers/default_object.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 9183a98..ecd712c 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -266,10 +266,16 @@ def _filter_attributes(
             and not (attr == 'json' and attr in props)
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
+            and not _is_method(getattr(cls, attr, None))
             and attr not in excluded_elems
             and not _is_innerclass(attr, cls)}
 
 
+def _is_method(attr: object) -> bool:
+    # Not every method is a function (e.g. one with functools.lru_cache).
+    return callable(attr) and hasattr(type(attr), '__get__')
+
+
 @cached
 def _get_class_props(cls: type) -> Tuple[list, list]:
     props = []
-- 
2.43.0


From 3e9b6dd2ddcc04682ecc2b94ae69deee10651321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:34 +0000
Subject: [PATCH 108/111] fix: unions did not recognize classes if object has a
 serializer of a user

---
 jsons/serializers/default_union.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsons/serializers/default_union.py b/jsons/serializers/default_union.py
index b48b7d7..434f600 100644
--- a/jsons/serializers/default_union.py
+++ b/jsons/serializers/default_union.py
@@ -8,7 +8,6 @@ from jsons._compatibility_impl import get_union_params
 from jsons._dump_impl import dump
 from jsons._lizers_impl import get_serializer
 from jsons.exceptions import JsonsError, SerializationError
-from jsons.serializers.default_object import default_object_serializer
 
 
 def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
@@ -50,4 +49,4 @@ def _is_other_cls(obj: object, fork_inst: type, cls: type) -> bool:
     # Return True if cls has no serializer of its own and obj is not of it.
     return (isclass(cls) and not is_any_type(cls)
             and cls not in obj.__class__.__mro__
-            and get_serializer(cls, fork_inst) is default_object_serializer)
+            and get_serializer(cls, fork_inst) is get_serializer(object, fork_inst))
-- 
2.43.0


From fa5ab7965635a46f758ada8e1203d46884b885f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 109/111] fix: inherited inner classes were dumped as
 attributes

---
 jsons/serializers/default_object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index ecd712c..5b79956 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -367,11 +367,13 @@ def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
     if not isinstance(attr_obj, type):
         return False
+    # The class may be inherited, look for the one that it is in.
+    owner = next((base for base in get_mro(cls) if attr in base.__dict__), cls)
     try:
-        return inspect.getsource(attr_obj) in inspect.getsource(cls)
+        return inspect.getsource(attr_obj) in inspect.getsource(owner)
     except (OSError, TypeError):
         # There is no source, e.g. of a builtin or in an interactive session.
-        return attr_obj.__qualname__ == '{}.{}'.format(cls.__qualname__, attr)
+        return attr_obj.__qualname__ == '{}.{}'.format(owner.__qualname__, attr)
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From 87a53569dbe927fbcfe65554dda7a6e90b1d0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:47 +0000
Subject: [PATCH 110/111] fix: enums and zones in unions took any object with
 such an attribute

---
 jsons/serializers/default_enum.py      | 3 +++
 jsons/serializers/default_zone_info.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jsons/serializers/default_enum.py b/jsons/serializers/default_enum.py
index 9c304fc..89f4c07 100644
--- a/jsons/serializers/default_enum.py
+++ b/jsons/serializers/default_enum.py
@@ -1,6 +1,7 @@
 from enum import Enum, EnumMeta, Flag
 
 from jsons._dump_impl import dump
+from jsons.exceptions import SerializationError
 
 
 def default_enum_serializer(obj: EnumMeta,
@@ -17,6 +18,8 @@ def default_enum_serializer(obj: EnumMeta,
     serialized.
     :return: ``obj`` serialized as a string or the serialized value.
     """
+    if not isinstance(obj, Enum):
+        raise SerializationError('"{}" is no element of an enum'.format(obj))
     if use_enum_name and not _is_nameless(obj):
         return obj.name
     return dump(obj.value, **{**kwargs, 'cls': None, 'use_enum_name': False})
diff --git a/jsons/serializers/default_zone_info.py b/jsons/serializers/default_zone_info.py
index 7766883..89ba903 100644
--- a/jsons/serializers/default_zone_info.py
+++ b/jsons/serializers/default_zone_info.py
@@ -1,5 +1,7 @@
 from typing import Dict
 
+from jsons.exceptions import SerializationError
+
 try:
     from zoneinfo import ZoneInfo
 
@@ -9,6 +11,8 @@ try:
         Serialize a ZoneInfo object.
         :return: a serialized ZoneInfo instance.
         """
+        if not isinstance(obj, ZoneInfo):
+            raise SerializationError('"{}" is no ZoneInfo'.format(obj))
         return {'key': obj.key}
 
 except ImportError:
-- 
2.43.0


From 6ffdefe935e0311decf036304d6e12d6b16ee0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:41 +0000
Subject: [PATCH 111/111] fix: dump datetimes with zones that need a datetime
 for their name

---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 63b5185..4485b26 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -83,7 +83,7 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
-    if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
+    if (tzone.tzname(obj) not in ('UTC', 'UTC+00:00')
             or tzone.utcoffset(obj)):
         # The offset without a datetime would be that without daylight saving.
         offset = _timedelta_offset_str(tzone.utcoffset(obj))
-- 
2.43.0

