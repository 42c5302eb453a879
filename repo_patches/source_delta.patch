From 3192fbe2638cdda57f77c824afee905174d01d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 01/40] fix: keep unbounded range ends unique when copying or
 pickling

---
 vistautils/range.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..8f97f1c 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -191,6 +191,10 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # copying and pickling must preserve the identity of the constant
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -224,6 +228,10 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # copying and pickling must preserve the identity of the constant
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From 441d7995f6710dcac3060813f4637f3806b87ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 02/40] fix: equal range sets hash equally

---
 vistautils/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 8f97f1c..ab9a99a 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -785,7 +785,8 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        # as_ranges() may be a view, which hashes by identity
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From f19cb1cab6372274d9ec78e55b5e21b84c5e093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/40] fix: compute the minimal enclosing span of one-shot
 iterables

---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..3dfc4ab 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # the spans are traversed twice below, but an iterable may only allow it once
+        spans = tuple(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From 1db731dd67935dbbf97c41cd7989dcc64e3fe2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 04/40] fix: find the containing item of a disjoint span index
 by its span

---
 vistautils/span.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 3dfc4ab..a1bc30f 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -241,13 +241,12 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
-        return None
+        containing_range = self._range_to_item_index.range_set.range_enclosing_range(
+            span.as_range()
+        )
+        if containing_range is None:
+            return None
+        return self._range_to_item_index.rng_to_val[containing_range]
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From f9703a299d976a1f9e9d205d3bbe5070f752066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 05/40] fix: reject repeated spans in an index of disjoint
 spans

---
 vistautils/span.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index a1bc30f..8346293 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -215,7 +215,11 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    ranges_to_items = tuple((span.as_range(), item) for span, item in inp)
+    ret = immutablerangemap(ranges_to_items)
+    if len(ret.rng_to_val) != len(ranges_to_items):
+        raise ValueError("Some items of an index of disjoint spans have the same span.")
+    return ret
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From f8012de64bdf4c8bfe7e073f2d07d1c29272cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 06/40] fix: nest the tags of annotations of the same span

---
 vistautils/annotated_text_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..4878339 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -169,7 +169,8 @@ class HTMLStyleAnnotationFormatter:
             return annotation.span.start, -len(annotation.span)
 
         # for end tags, we want to break ties by shortest length so that tags which start later
-        # end earlier. This preserves proper nesting.
+        # end earlier. This preserves proper nesting. Tags for the same span need to end in the
+        # opposite order of how they start, so the annotations are sorted in reverse below.
         def end_tag_key(annotation):
             return annotation.span.end, len(annotation.span)
 
@@ -179,7 +180,7 @@ class HTMLStyleAnnotationFormatter:
         )
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From 19be5ca54a0b718676ae5e2962ab3b0ad7608f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 07/40] fix: only() counts elements by identity with its end
 marker

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From 66c49a3282435daa98a501085ea3f22db710575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 08/40] fix: strip the whole .tar.gz extension when naming the
 zip file

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From abcf65ec8e28e6781d364d664ab5f78347dcef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 09/40] fix: check_opt_isinstance rejects falsy items of the
 wrong type

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From 48996083f7fddd2e579c8ba853c933f020d572a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 10/40] fix: parameter accessors honour falsy defaults

---
 vistautils/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..1660428 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -457,7 +457,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
@@ -611,7 +611,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -670,7 +670,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -791,7 +791,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From e16c10ecec7cfaf31e42ee8c0e33f6f4f66165c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 11/40] fix: parameters with list values can be collected in
 sets

---
 vistautils/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 1660428..78a96c0 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -52,7 +52,7 @@ _U = TypeVar("_U")  # pylint:disable=invalid-name
 _EnumType = TypeVar("_EnumType", bound=Enum)
 
 
-@attrs(frozen=True, slots=True)
+@attrs(frozen=True, slots=True, hash=False)
 class Parameters:
     """
     Configuration parameters for a program.
@@ -86,6 +86,10 @@ class Parameters:
                 "." not in key, "Parameter keys cannot contain namespace separator '.'"
             )
 
+    def __hash__(self) -> int:
+        # parameter values (e.g. lists) need not be hashable
+        return hash((self.namespace_prefix, frozenset(self._data)))
+
     @staticmethod
     def empty(*, namespace_prefix: Iterable[str] = tuple()) -> "Parameters":
         """
-- 
2.43.0


From 8019d29232911a19d4c8bdc22efc5c3bec270ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 12/40] fix: interpolate falsy parameter values

---
 vistautils/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 78a96c0..3e5a13b 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1642,7 +1642,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not None
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1661,7 +1664,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1680,7 +1683,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From 6c982ad5ed1543fb461649758c408f296fe4b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 13/40] fix: an interpolation below a non-namespace parameter
 is just absent

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 3e5a13b..d377c29 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1600,7 +1600,7 @@ class YAMLParametersLoader:
             parts = param_name.split(".")
             cur_dict = nested_dict
             for part in parts[:-1]:
-                if part in cur_dict:
+                if part in cur_dict and isinstance(cur_dict[part], dict):
                     cur_dict = cur_dict[part]
                 else:
                     return None
-- 
2.43.0


From 99960cfcec21417cb144be872a22c81cc2cefd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 14/40] fix: environment variables with dots in their names do
 not break loading

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index d377c29..a37df0a 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1517,7 +1517,8 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # and a parameter name cannot contain the namespace separator
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From 3bbf74aaffc37a81736214da0bce9cfbe37ee84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 15/40] fix: namespace prefix of parameters passed to default
 factories

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index a37df0a..04e6c62 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1372,7 +1372,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From eaeac8ef3e6d513a70ba642128b606ab12aa9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 16/40] fix: write null parameters

---
 vistautils/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 04e6c62..7121e74 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1769,7 +1769,9 @@ class YAMLParametersWriter:
         We don't do this using pyyaml representers because there doesn't seem to be a documented way
         to register a representer non-globally.
         """
-        if isinstance(param_node, Path):
+        if param_node is None:
+            return param_node
+        elif isinstance(param_node, Path):
             return str(param_node)
         elif isinstance(param_node, Mapping):
             return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-- 
2.43.0


From fa7d73a1d9fdbf8f672793094c9691250888b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 17/40] fix: apply the special factory named by a string
 parameter

---
 vistautils/parameters.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 7121e74..817462c 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1047,9 +1047,21 @@ class Parameters:
                 if requested_param_string_value in special_values:
                     return validate(special_values[requested_param_string_value])
                 elif requested_param_string_value in special_factories:
+                    special_factory = special_factories[requested_param_string_value]
+                    if isinstance(special_factory, str):
+                        # just like when named in a namespace,
+                        # a special factory may be given by an expression
+                        special_factory = eval_in_context_of_modules(
+                            special_factory,
+                            context if context else dict(globals()),
+                            context_modules=self._context_modules_from_prefix(
+                                special_factory
+                            ),
+                            expected_type=object,
+                        )
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factory,
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From ee0ac1a2168f4133a54245dd85878f4ec18e115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 18/40] fix: special values and factories within namespaces may
 be objects

---
 vistautils/parameters.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 817462c..8ee96a6 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1008,6 +1008,12 @@ class Parameters:
                 )
                 if value_namespace_param_name in namespace:
                     # The user specifies the value to be evaluated directly
+                    requested_value = namespace.get(value_namespace_param_name, object)
+                    if (
+                        isinstance(requested_value, str)
+                        and requested_value in special_values
+                    ):
+                        return validate(special_values[requested_value])
                     return validate(
                         self.evaluate(
                             name,
@@ -1020,6 +1026,15 @@ class Parameters:
                 elif factory_namespace_param_name in namespace:
                     # The user specifies an expression to be evaluated which yields
                     # a factory which can create an object which this namespace.
+                    requested_factory = namespace.get(factory_namespace_param_name, object)
+                    if (
+                        isinstance(requested_factory, str)
+                        and requested_factory in special_factories
+                        and not isinstance(special_factories[requested_factory], str)
+                    ):
+                        return validate(
+                            apply_factory(special_factories[requested_factory], namespace)
+                        )
                     return validate(
                         apply_factory(
                             self.evaluate(
-- 
2.43.0


From d6d2349ebd1b176ef07084bd9b119448f4f8cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 19/40] fix: use the defaults for namespaces with neither value
 nor factory

---
 vistautils/parameters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 8ee96a6..79b270e 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1003,6 +1003,15 @@ class Parameters:
                 # The general case is that the user has a namespace providing all the information
                 # for evaluation.
                 namespace = self.namespace(name)
+                if (
+                    value_namespace_param_name not in namespace
+                    and factory_namespace_param_name not in namespace
+                ):
+                    # If the namespace specifies neither, we fall back on defaults.
+                    if default_value is not None:
+                        return validate(default_value)
+                    elif default_factory is not None:
+                        return validate(apply_factory(default_factory, namespace))
                 namespace.assert_exactly_one_present(
                     [value_namespace_param_name, factory_namespace_param_name]
                 )
-- 
2.43.0


From 528558e0a5e3e6644c9751a52a71d3bf8b557f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 20/40] fix: file-map shortcuts and binary default of key-value
 sources

---
 vistautils/key_value.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..749ec2c 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -835,12 +835,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
@@ -1010,7 +1010,7 @@ def byte_key_value_source_from_params(
         input_namespace,
         KeyValueSource,
         special_factories=_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES,
-        default_factory=_doc_id_source_from_params,
+        default_factory=_doc_id_binary_source_from_params,
         context=effective_context,
         factory_namespace_param_name="type",
     )
-- 
2.43.0


From 2d4d632982837c4d819edf4d31ef4e2e29c93ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 21/40] fix: accept the documented 'directory' shortcut for
 key-value sinks

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 749ec2c..116c230 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1019,11 +1019,13 @@ def byte_key_value_source_from_params(
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
 }
 
 
-- 
2.43.0


From 03208e270de308db3ca5ec6e0b3b84e55d697720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 22/40] fix: parameters_only_entry_point uses explicitly
 specified parameters

---
 vistautils/parameters_only_entrypoint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..e9a0e1c 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -65,7 +65,10 @@ def _real_parameters_only_entry_point(
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters:
+        params = parameters
+    else:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From 000a4d21910008c0cb47feafd86a5f989be62f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 23/40] fix: failed puts to zip sinks do not record their keys

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 116c230..303b4a0 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        # only record the key once its value has been written
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From 89178a70fdf23048c3c2b0f195bc9013d464442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 24/40] fix: re-entered zip sinks forget the keys of their
 previous use

---
 vistautils/key_value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 303b4a0..bca6467 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -495,6 +495,7 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From b0d39d818ce97bb0f31ecf478a22e091d90f68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 25/40] fix: shuffle keys to downsample on current Python
 versions

---
 vistautils/scripts/downsample_key_value_store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..c34a8f6 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,7 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 8ffe071f65c558bf12657b440c9fbff11048bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 26/40] fix: honour explicit_split.must_be_exhaustive

---
 vistautils/scripts/split_key_value_store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..b2227a8 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,10 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    if params.boolean(
+        f"{_EXPLICIT_SPLIT_PARAM}.must_be_exhaustive",
+        default=params.boolean("must_be_exhaustive", default=True),
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From 6c1b548476325aa6e888c84e006209833f038639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 27/40] fix: interpolated namespaces of the context get their
 own path

---
 vistautils/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 79b270e..f0ce88f 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1707,7 +1707,11 @@ class YAMLParametersLoader:
             # if the parameter is not present in the parameters we are interpolating directly,
             # we look it up in the context.
             try:
-                return context._private_get(param_name)
+                from_context = context._private_get(param_name)
+                if isinstance(from_context, Parameters):
+                    # a copy of a namespace does not keep the path of the original
+                    return from_context.as_nested_dicts()
+                return from_context
             except ParameterError as e:
                 raise ParameterError(
                     f"The key '{param_to_interpolate}' doesn't exist in the parameters."
-- 
2.43.0


From c45693d5d5da68ff91946d7bc80ebac54bb360f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 28/40] fix: exhaustive explicit splits of sources whose keys
 are dictionary views

---
 vistautils/scripts/split_key_value_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index b2227a8..4e922cd 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -118,7 +118,7 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
         f"{_EXPLICIT_SPLIT_PARAM}.must_be_exhaustive",
         default=params.boolean("must_be_exhaustive", default=True),
     ):
-        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
+        keys_not_copied = immutableset(list(source.keys())) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
                 f"Expected the split to be a partition, but "
-- 
2.43.0


From ec5e3dc2ada59c12b903c7f61d107a2d1c95f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 29/40] fix: --dont-stream of archives with directory members

---
 vistautils/scripts/tar_gz_to_zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..09cae3c 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -68,7 +68,8 @@ def main():
                 for member in inp:
                     if member.isfile():
                         out.write(member.name)
-                    os.remove(member.name)
+                    if not member.isdir():
+                        os.remove(member.name)
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From dc49c1c46fd189d368af22b4cd4d3d6a24c6d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 30/40] fix: --omit-large-files together with --dont-stream

---
 vistautils/scripts/tar_gz_to_zip.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 09cae3c..3833d35 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -67,7 +67,14 @@ def main():
                 inp.extractall()
                 for member in inp:
                     if member.isfile():
-                        out.write(member.name)
+                        if omit_large_files and member.size > large_file_cutoff:
+                            print(
+                                f"WARNING: Omitting {member.name} as "
+                                f"its size {member.size / 1e9:.2f} GB "
+                                f"exceeds {args.large_file_cutoff:.2f} GB"
+                            )
+                        else:
+                            out.write(member.name)
                     if not member.isdir():
                         os.remove(member.name)
             else:
-- 
2.43.0


From 3fc7ddf380963dae0fad29630117b047fa3290e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 31/40] fix: namespaces in unified parameters know their path
 in the result

---
 vistautils/parameters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index f0ce88f..f86794f 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -212,6 +212,12 @@ class Parameters:
         """
         if not isinstance(new_params, Parameters):
             new_params = Parameters.from_mapping(new_params)
+        if not namespace_prefix:
+            namespace_prefix = self.namespace_prefix
+
+        def without_prefixes(val: Any) -> Any:
+            # namespaces present on one side only must know their path in the result
+            return val.as_nested_dicts() if isinstance(val, Parameters) else val
 
         ret = dict()
         for (key, old_val) in self._data.items():
@@ -237,11 +243,11 @@ class Parameters:
                 else:
                     ret[key] = new_val
             else:
-                ret[key] = old_val
+                ret[key] = without_prefixes(old_val)
 
         for (key, new_val) in new_params._data.items():
             if key not in self:
-                ret[key] = new_val
+                ret[key] = without_prefixes(new_val)
 
         return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)
 
-- 
2.43.0


From 839fee7b031fbe3fdcb24a81c9c2e543b9b687cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 32/40] fix: tar entries whose key is the empty string are not
 skipped

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index bca6467..1613a4d 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -742,7 +742,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
             for member in self.inp:  # type: ignore
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
-                    if key and key_filter(key):
+                    if key is not None and key_filter(key):
                         data = self.inp.extractfile(member)  # type: ignore
                         if data:
                             with data:
-- 
2.43.0


From 00cb52ee1cc747d795df1822032aa61fe8e2eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 33/40] fix: percent signs in messages of check_arg without
 arguments

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index e849729..6ff14a8 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -32,7 +32,7 @@ def check_not_none(x: T, msg: str = None) -> T:
 def check_arg(result: Any, msg: str = None, msg_args: Tuple = None) -> None:
     if not result:
         if msg:
-            raise ValueError(msg % (msg_args or ()))
+            raise ValueError(msg % msg_args if msg_args else msg)
         else:
             raise ValueError()
 
-- 
2.43.0


From f9d68794e9801b46e23360fe1fbe96383925daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 34/40] fix: non_empty refuses empty values when used as a
 validator

---
 vistautils/attrutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/attrutils.py b/vistautils/attrutils.py
index 9722bbf..c4e4942 100644
--- a/vistautils/attrutils.py
+++ b/vistautils/attrutils.py
@@ -140,4 +140,6 @@ def _empty_immutable_if_none(
 # Unused arguments are to match the attrs validator signature
 # noinspection PyUnusedLocal
 def non_empty(_self: Any, _attr: Any, val: Sized) -> bool:
-    return len(val) > 0
+    if len(val) == 0:
+        raise ValueError("{} must not be empty".format(_attr.name))
+    return True
-- 
2.43.0


From 6b32f2c260f854a2e35304db187b4860f2b1f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 35/40] fix: --dont-stream of archives with files from before
 1980

---
 vistautils/scripts/tar_gz_to_zip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 3833d35..c946691 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -74,6 +74,8 @@ def main():
                                 f"exceeds {args.large_file_cutoff:.2f} GB"
                             )
                         else:
+                            # times before 1980 cannot be stored in zip files
+                            os.utime(member.name)
                             out.write(member.name)
                     if not member.isdir():
                         os.remove(member.name)
-- 
2.43.0


From 05082414a2c6879425a8e0ff9aee97c36aa10cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 36/40] fix: references through interpolated namespaces
 depended on the order of the parameters

---
 vistautils/parameters.py | 46 +++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index f86794f..2ab270a 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1678,6 +1678,35 @@ class YAMLParametersLoader:
         nodes = list()
         edges = list()
 
+        def own_params_needed_for(param_name: str) -> List[str]:
+            """
+            The parameters being interpolated which must be complete to look up *param_name*.
+
+            Besides the parameter itself these are the parameters on the way to it
+            which will be replaced by a namespace:
+            for *%foo.x%* with *foo: "%bar%"*, both *foo* and *bar.x* are needed.
+            """
+            needed: List[str] = []
+            while get_from_nested_dict(mutable_parameters, param_name) is None:
+                parts = param_name.split(".")
+                for num_parts in range(1, len(parts)):
+                    prefix = ".".join(parts[:num_parts])
+                    val = get_from_nested_dict(mutable_parameters, prefix)
+                    if isinstance(
+                        val, str
+                    ) and YAMLParametersLoader._INTERPOLATION_REGEX.fullmatch(val):
+                        break
+                else:
+                    # not among the parameters being interpolated
+                    return needed
+                if prefix in needed:
+                    # a cycle, which will be found when ordering the parameters
+                    return needed
+                needed.append(prefix)
+                param_name = ".".join([val[1:-1]] + parts[num_parts:])
+            needed.append(param_name)
+            return needed
+
         def gather_interpolation_edges(params: Parameters) -> None:
             for key, val in params.namespaced_items():
                 if isinstance(val, str):
@@ -1685,16 +1714,13 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if (
-                            get_from_nested_dict(mutable_parameters, interp_match)
-                            is not None
-                        ):
-                            # We don't want to include nodes from the context in the interpolation
-                            # ordering since the context is present
-                            # only to be referred to by for interpolation into other parameters,
-                            # not to include its parameters directly in the interpolation result.
-                            nodes.append(interp_match)
-                            edges.append((key, interp_match))
+                        # We don't want to include nodes from the context in the interpolation
+                        # ordering since the context is present
+                        # only to be referred to by for interpolation into other parameters,
+                        # not to include its parameters directly in the interpolation result.
+                        for needed_param in own_params_needed_for(interp_match):
+                            nodes.append(needed_param)
+                            edges.append((key, needed_param))
                 elif isinstance(val, Parameters):
                     gather_interpolation_edges(val)
 
-- 
2.43.0


From d8b159d852681833dac37db681fcf1da15717687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:41 +0000
Subject: [PATCH 37/40] fix: let empty range sets be pickled with every
 protocol

With protocols 0 and 1 pickle drops a falsy state, so an empty range set came
back without its dictionary of members.
---
 vistautils/range.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index ab9a99a..84bc28c 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -1087,6 +1087,11 @@ class _SortedDictRangeSet(RangeSet[T], metaclass=ABCMeta):
     def __len__(self) -> int:
         return len(self._ranges_by_lower_bound)
 
+    def __reduce__(self):
+        # an empty state is falsy, and without __reduce__ pickle protocols 0 and 1
+        # would drop it and never call __setstate__
+        return type(self), (SortedDict(),), self.__getstate__()
+
     def __setstate__(self, state: Iterable[Range[T]]) -> None:
         self._ranges_by_lower_bound = SortedDict(
             [(rng._lower_bound, rng) for rng in state]
-- 
2.43.0


From df7a49c96c7c3ac5ac0945a452fb719e39421fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:13 +0000
Subject: [PATCH 38/40] fix: is_empty of links to files within .tgz archives

The size of a link member is zero, so the character source for a link to a
non-empty file claimed to be empty. The archive is also closed now.
---
 vistautils/io_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..7bff8bd 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -244,8 +244,16 @@ class _FileWithinTgzCharSource(CharSource):
         return ret
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        return tgz_file.getmember(self._path_within_tgz).size == 0
+        # the size of a link is zero, so we look at the data of what it links to
+        with tarfile.open(
+            self._tgz_path, "r:gz", encoding=self._encoding
+        ) as tgz_file:
+            tgz_data = tgz_file.extractfile(self._path_within_tgz)
+            if tgz_data is None:
+                raise IOError(
+                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
+                )
+            return not tgz_data.read(1)
 
 
 class CharSink(metaclass=ABCMeta):
-- 
2.43.0


From 7a6b4de45f8ed8bec3c2514c9005ce4a673e7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:18 +0000
Subject: [PATCH 39/40] fix: --dont-stream of archives with repeated member
 names

Such archives are made by appending newer versions of files to them. The
unpacked file was removed after the first of the members, and the second one
then failed with FileNotFoundError.
---
 vistautils/scripts/tar_gz_to_zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index c946691..4daf557 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -65,7 +65,8 @@ def main():
         with tarfile.open(tar_file) as inp:
             if dont_stream:
                 inp.extractall()
-                for member in inp:
+                # of several members of the same name, only the last one is on disk
+                for member in {member.name: member for member in inp}.values():
                     if member.isfile():
                         if omit_large_files and member.size > large_file_cutoff:
                             print(
-- 
2.43.0


From e89623d4538b6c6a0e0a9d9cba6a91c1415608f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:02 +0000
Subject: [PATCH 40/40] fix: check defaults of optional floating point
 parameters against the range whatever their type

---
 vistautils/parameters.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 2ab270a..49ec3ab 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -681,11 +681,7 @@ class Parameters:
         if name in self:
             return self.floating_point(name, valid_range)
         if default is not None:
-            if (
-                valid_range is not None
-                and isinstance(default, float)
-                and default not in valid_range
-            ):
+            if valid_range is not None and default not in valid_range:
                 raise ParameterError(
                     f"Default value of {default} not in the range of {valid_range}."
                 )
-- 
2.43.0

