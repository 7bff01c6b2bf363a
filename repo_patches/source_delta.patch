From c78ccc3df19767f5b4ddbe89b16cd69bea9aef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 01/38] fix: keep the fractional part of the bounds of floats

---
 mapry/parse.py                    | 26 ++++++++++++++++++++++++--
 mapry/py/generate/fromjsonable.py |  4 ++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..7d44415 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -103,6 +103,28 @@ def _embed_from_mapping(mapping: Mapping[str, Any], ref: str) -> mapry.Embed:
         name=mapping['name'], description=mapping['description'], ref=ref)
 
 
+def _float_bound_from_mapping(mapping: Mapping[str, Any],
+                              key: str) -> Optional[float]:
+    """
+    Parse a bound of a floating-point type.
+
+    The whole numbers are represented as integers since they give more readable
+    literals in the generated code.
+
+    :param mapping: representing the type definition
+    :param key: in the mapping that corresponds to the bound
+    :return: bound, if specified
+    """
+    if key not in mapping:
+        return None
+
+    bound = mapping[key]  # type: float
+    if abs(bound) < 2**53 and bound == int(bound):
+        return int(bound)
+
+    return bound
+
+
 def _recurse_type_from_mapping(
         mapping: Mapping[str, Any], classes: Mapping[str, mapry.Class],
         embeds: Mapping[str, mapry.Embed]) -> mapry.Type:
@@ -132,10 +154,10 @@ def _recurse_type_from_mapping(
 
     if type_identifier == 'float':
         return mapry.Float(
-            minimum=int(mapping['minimum']) if 'minimum' in mapping else None,
+            minimum=_float_bound_from_mapping(mapping=mapping, key='minimum'),
             exclusive_minimum=bool(mapping['exclusive_minimum'])
             if 'exclusive_minimum' in mapping else False,
-            maximum=int(mapping['maximum']) if 'maximum' in mapping else None,
+            maximum=_float_bound_from_mapping(mapping=mapping, key='maximum'),
             exclusive_maximum=bool(mapping['exclusive_maximum'])
             if 'exclusive_maximum' in mapping else False)
 
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..915f2b8 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -396,7 +396,7 @@ else:
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
-            {{ "Expected %s %d, but got: {}"|
+            {{ "Expected %s %s, but got: {}"|
                 format(op, a_type.minimum)|repr }}.format(
                 {{ value }}))
     {% set got_cond_before = True %}
@@ -408,7 +408,7 @@ else:
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
-            {{ "Expected %s %d, but got: {}"|
+            {{ "Expected %s %s, but got: {}"|
                 format(op, a_type.maximum)|repr }}.format(
                 {{ value }}))
     {% set got_cond_before = True %}
-- 
2.43.0


From e0deeff847ee5537bff095cc4bbae9d843544d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/38] fix: keep the leading parts of the names in irregular
 plurals

---
 mapry/naming.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..e7a6742 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -70,12 +70,15 @@ def plural(identifier: str) -> str:
     >>> plural(identifier='Focus')
     'Foci'
 
+    >>> plural(identifier='Some_focus')
+    'Some_foci'
+
     """
     parts = split_identifier(identifier=identifier)
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return '_'.join(parts[:-1] + [PLURAL_TABLE[last_part]])
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
-- 
2.43.0


From 731842fbb755e1237c617d9d43bad90b77b0baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 03/38] fix: serialize Python attributes of properties with
 capitals

---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From 3f3f6a297d03aa2c052b00eb73c0e5158a639302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 04/38] fix: escape quotes and braces of patterns and formats
 in Python

---
 mapry/py/expr.py                  | 33 +++++++++++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py | 16 +++++++--------
 mapry/py/jinja2_env.py            |  2 ++
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/mapry/py/expr.py b/mapry/py/expr.py
index 85e30f8..c2ce89e 100644
--- a/mapry/py/expr.py
+++ b/mapry/py/expr.py
@@ -17,3 +17,36 @@ def is_variable(expr: str) -> bool:
     >>> assert not is_variable('ref + "#"')
     """
     return _VARIABLE_RE.match(expr) is not None
+
+
+def regex_literal(pattern: str) -> str:
+    r"""
+    Represent the regular expression as a Python string literal.
+
+    Raw string literals are preferred for readability. If the pattern can not be
+    put between the quotes of a raw string literal, the pattern is escaped.
+
+    :param pattern: regular expression
+    :return: string literal
+
+    >>> print(regex_literal('^[a-z]+$'))
+    r'^[a-z]+$'
+
+    >>> print(regex_literal("^it's$"))
+    "^it's$"
+
+    """
+    if "'" in pattern or not pattern.isprintable() or pattern.endswith('\\'):
+        return repr(pattern)
+
+    return "r'{}'".format(pattern)
+
+
+def escape_braces(text: str) -> str:
+    """
+    Escape the braces so that the text stays as-is in a call to ``str.format``.
+
+    >>> escape_braces('a{2,3}')
+    'a{{2,3}}'
+    """
+    return text.replace('{', '{{').replace('}', '}}')
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 915f2b8..13fd9a1 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -466,13 +466,13 @@ else:
     {{ target_expr }} = {{ value }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|regex_literal }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_braces)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -540,13 +540,13 @@ else:
     {{ set_target|indent }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|regex_literal }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_braces)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -1645,7 +1645,7 @@ parses {{ graph.name|as_composite }} from a JSONable value.
             for id in registry_value:
                 {% if cls.id_pattern %}
                 if not re.match(
-                        r'{{ cls.id_pattern.pattern }}',
+                        {{ cls.id_pattern.pattern|regex_literal }},
                         id):
                     errors.add(
                         '/'.join((
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..ab82c34 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -23,5 +23,7 @@ ENV.filters.update({
     'repr': repr,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
+    'regex_literal': mapry.py.expr.regex_literal,
+    'escape_braces': mapry.py.expr.escape_braces,
     '_raise': _raise
 })
-- 
2.43.0


From eeb5cc508b58a47a38cd60e4c14120a6555e25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 05/38] fix: detect conflicts with the name of the graph

The graph was considered among the composites only if its name was
a keyword, so that classes and embeddable structures with the same
identifier were not reported.
---
 mapry/cpp/validation.py | 2 +-
 mapry/go/validation.py  | 2 +-
 mapry/py/validation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 191e56e..7c127a6 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -214,7 +214,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.cpp.naming.as_composite(identifier=cls.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a3d2be3..a610cee 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -330,7 +330,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.naming.ucamel_case(identifier=cls.name)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 66e215a..be80322 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -203,7 +203,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.py.naming.as_composite(identifier=cls.name)
-- 
2.43.0


From 785ed7e6f63ad6ff5fa7704db056a53bf4b3451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 06/38] fix: match the names of graphs, embeds and Go packages
 completely

The patterns were not anchored at the end so that names which are no
identifiers were accepted and code which does not compile was generated.
---
 mapry/schemas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 1807539..71a8642 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,7 +10,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z][A-Za-z0-9]*"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?$"
                 },
                 "description": {
                     "type": "string",
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*$"
                 }
             },
             "required": ["package"],
@@ -203,7 +203,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?$"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
-- 
2.43.0


From d1ea014682cb6dc62b8d0c65e92602e88fa0ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 07/38] fix: report invalid nested types and properties typed
 as the graph

Missing and non-string types of array and map values as well as properties
of the type of the object graph crashed the generators instead of being
reported as errors in the schema.
---
 mapry/validation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index 6b3c491..578293a 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -36,7 +36,7 @@ def _validate_names(mapping: Mapping[str, Any],
 
     :param mapping: representing the mapry schema
     :param ref: reference path to the mapry definition
-    :return: set of structure names, list of errors
+    :return: set of names of classes and embeds, list of errors
     """
     errs = []  # type: List[SchemaError]
 
@@ -64,7 +64,8 @@ def _validate_names(mapping: Mapping[str, Any],
 
             names.add(name)
 
-    return names, errs
+    # The object graph can not be nested in another structure.
+    return names - {mapping['name']}, errs
 
 
 def _validate_class(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
@@ -122,11 +123,10 @@ def _validate_type_against_schema(
     try:
         jsonschema.validate(instance=mapping, schema=json_schema)
     except jsonschema.ValidationError as err:
-        pth = '/'.join(err.path)
         return SchemaError(
             message="Invalid {} definition: {}".format(
                 mapping['type'], err.message),
-            ref='{}/{}'.format(ref, pth))
+            ref='/'.join([ref] + [str(part) for part in err.path]))
 
     return None
 
@@ -419,7 +419,11 @@ def _validate_type_recursively(
                         "in the definition, but got {}").format(keys[1]),
                     ref='{}/description'.format(ref))
 
-    if mapping['type'] not in types:
+    if 'type' not in mapping:
+        return SchemaError(
+            message="'type' is missing in the definition", ref=ref)
+
+    if not isinstance(mapping['type'], str) or mapping['type'] not in types:
         return SchemaError(
             message="Invalid type: {}".format(mapping['type']),
             ref='{}/type'.format(ref))
-- 
2.43.0


From 692ea0c5e7724f04f38f474c63b612deec67574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 08/38] fix: convert identifiers with consecutive underscores
 to camel case

---
 mapry/naming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index e7a6742..3bdac2a 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -143,7 +143,7 @@ def camel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0].lower())
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
 
@@ -179,6 +179,6 @@ def ucamel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0][0].upper() + parts[0][1:])
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
-- 
2.43.0


From cc81c58b557ea7581a3bb898533ea8d004652051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 09/38] fix: report the struct names reserved for mapry in Go

The errors were constructed, but never added to the list of errors.
---
 mapry/go/validation.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a610cee..ba62465 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -182,7 +182,8 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
+        'Error', 'Errors', 'NewErrors',
+        '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
 
@@ -201,31 +202,34 @@ def _validate_graph_fields(graph: mapry.Graph
     for cls in graph.classes.values():
         cls_name = mapry.naming.ucamel_case(cls.name)
         if cls_name in reserved_type_names:
-            mapry.validation.SchemaError(
-                message=(
-                    "The Go struct identifier {!r} "
-                    "conflicts with the name reserved for mapry."
-                ).format(cls_name),
-                ref=cls.ref)
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(cls_name),
+                    ref=cls.ref))
 
     for embed in graph.embeds.values():
         embed_name = mapry.naming.ucamel_case(embed.name)
         if embed_name in reserved_type_names:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(embed_name),
+                    ref=embed.ref))
+
+    graph_name = mapry.naming.ucamel_case(graph.name)
+    if graph_name in reserved_type_names:
+        errs.append(
             mapry.validation.SchemaError(
                 message=(
                     "The Go struct identifier {!r} "
                     "conflicts with the name reserved for mapry."
-                ).format(embed_name),
-                ref=embed.ref)
-
-    graph_name = mapry.naming.ucamel_case(graph.name)
-    if graph_name in reserved_type_names:
-        mapry.validation.SchemaError(
-            message=(
-                "The Go struct identifier {!r} "
-                "conflicts with the name reserved for mapry."
-            ).format(graph_name),
-            ref=graph.ref)
+                ).format(graph_name),
+                ref=graph.ref))
 
     return errs
 
-- 
2.43.0


From 6d8a7297c85c48d7f1559a255227008f0d037428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 10/38] fix: use the reference week day of Go in the layouts

The reference time of Go is a Monday; Sun and Sunday are plain text in
the layouts so that the week days could be neither parsed nor formatted.
---
 mapry/go/timeformat.py | 4 ++--
 mapry/go/validation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..013bf44 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -8,8 +8,8 @@ import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index ba62465..87f9528 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -236,8 +236,8 @@ def _validate_graph_fields(graph: mapry.Graph
 
 # yapf: disable
 _GO_TIME_FORMAT_DIRECTIVES = [
-    'Sunday',
-    'Sun',
+    'Monday',
+    'Mon',
     'January',
     'Jan',
     '02',
-- 
2.43.0


From 47554d0067466baeeb7415667f832c9dba7ed027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 11/38] fix: detect all the conflicts of date/time formats with
 Go layouts

Texts with digits, time zones and fractions are interpreted by Go as
elements of the layout, also together with the adjacent directives.
---
 mapry/go/timeformat.py | 62 +++++++++++++++++++++++++++++++-
 mapry/go/validation.py | 82 ++++++++++++------------------------------
 2 files changed, 84 insertions(+), 60 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 013bf44..55afb63 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
-from typing import List  # pylint: disable=unused-import
+import re
+from typing import Dict, List, Optional, Tuple  # pylint: disable=unused-import
 
 from icontract import ensure
 
@@ -63,3 +64,62 @@ def convert(a_format: str) -> str:
                 parts.append(tkn.content)
 
     return ''.join(parts)
+
+
+# Elements of the layouts as recognized by Go,
+# see nextStdChunk in https://golang.org/src/time/format.go
+_GO_ELEMENT_RE = re.compile(
+    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST'
+    r'|002|0[1-6]|15|1|2006|2|_(?=2006)|__2|_2|[345]|PM|pm'
+    r'|-070000|-07:00:00|-0700|-07:00|-07'
+    r'|Z070000|Z07:00:00|Z0700|Z07:00|Z07|[.,](?:0+|9+)(?![0-9])')
+
+
+def find_conflict(a_format: str) -> Optional[str]:
+    """
+    Search for elements which Go would see in addition to the given directives.
+
+    :param a_format: strftime/strptime directives
+    :return:
+        element of the Go layout which does not correspond to a directive,
+        or the first directive hidden by the surrounding text; None if Go
+        recognizes exactly the directives
+
+    >>> find_conflict(a_format="%Y-%m-%dT%H:%M:%SZ")
+    >>> find_conflict(a_format="%Y 15 %m")
+    '15'
+    >>> find_conflict(a_format="0%H")
+    '01'
+    >>> find_conflict(a_format="%bx")
+    '%b'
+
+    """
+    layout = ''
+    expected = dict()  # type: Dict[Tuple[int, int], str]
+
+    for i, tkn_line in enumerate(mapry.strftime.tokenize(format=a_format)):
+        if i > 0:
+            layout += '\n'
+
+        for tkn in tkn_line:
+            if tkn.identifier != 'directive':
+                layout += tkn.content
+                continue
+
+            start = len(layout)
+            layout += _STRFTIME_TO_GO[tkn.content]
+            if tkn.content != '%%':
+                expected[(start, len(layout))] = tkn.content
+
+    for mtch in _GO_ELEMENT_RE.finditer(layout):
+        # An underscore before the long year is a text for Go.
+        if mtch.group() == '_':
+            continue
+
+        if expected.pop(mtch.span(), None) is None:
+            return mtch.group()
+
+    for directive in expected.values():
+        return directive
+
+    return None
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 87f9528..5d4e10a 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -3,8 +3,8 @@ from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
 import mapry
+import mapry.go.timeformat
 import mapry.naming
-import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -234,32 +234,6 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
-# yapf: disable
-_GO_TIME_FORMAT_DIRECTIVES = [
-    'Monday',
-    'Mon',
-    'January',
-    'Jan',
-    '02',
-    '_2',
-    '01',
-    '2006',
-    '06',
-    '15',
-    '03',
-    '3',
-    '04',
-    'pm',
-    'PM',
-    '05',
-    '-0700',
-    'MST'
-]
-
-
-# yapf: enable
-
-
 def _validate_date_time_formats(graph: mapry.Graph
                                 ) -> List[mapry.validation.SchemaError]:
     """
@@ -278,38 +252,28 @@ def _validate_date_time_formats(graph: mapry.Graph
     # yapf: enable
 
     for a_type, ref in date_time_types:
-        tkn_lines = mapry.strftime.tokenize(format=a_type.format)
-
-        # yapf: disable
-        text_tkns = [
-            tkn
-            for tkn_line in tkn_lines
-            for tkn in tkn_line
-            if tkn.identifier == 'text'
-        ]
-        # yapf: enable
-
-        for tkn in text_tkns:
-            for directive in _GO_TIME_FORMAT_DIRECTIVES:
-                if directive in tkn.content:
-                    if isinstance(a_type, mapry.Date):
-                        type_str = 'Date'
-                    elif isinstance(a_type, mapry.Datetime):
-                        type_str = 'Date/time'
-                    elif isinstance(a_type, mapry.Time):
-                        type_str = 'Time'
-                    else:
-                        raise NotImplementedError(
-                            "Unhandled mapry type: {}".format(type(a_type)))
-
-                    errs.append(
-                        mapry.validation.SchemaError(
-                            message=(
-                                '{} format contains a conflicting '
-                                'Go time.Format directive {}: {}').format(
-                                    type_str, directive, a_type.format),
-                            ref=ref))
-                    break
+        directive = mapry.go.timeformat.find_conflict(a_format=a_type.format)
+        if directive is None:
+            continue
+
+        if isinstance(a_type, mapry.Date):
+            type_str = 'Date'
+        elif isinstance(a_type, mapry.Datetime):
+            type_str = 'Date/time'
+        elif isinstance(a_type, mapry.Time):
+            type_str = 'Time'
+        else:
+            raise NotImplementedError(
+                "Unhandled mapry type: {}".format(type(a_type)))
+
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    '{} format contains a conflicting '
+                    'Go time.Format directive {}: {}').format(
+                        type_str, directive, a_type.format),
+                ref=ref))
+
     return errs
 
 
-- 
2.43.0


From c453c0c1aa9f01394b3f79a791ae1a4fb08d2da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 12/38] fix: report ambiguous JSON names

Properties of a composite mapped to the same JSON name, registries of
different classes with the same JSON name and graph properties with the
JSON name of a registry overwrote each other in the documents.
---
 mapry/validation.py | 78 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 578293a..f728f5c 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -608,6 +608,81 @@ def _validate_plurals(mapping: Mapping[str, Any],
     return errs
 
 
+def _validate_json_names(mapping: Mapping[str, Any],
+                         ref: str) -> List[SchemaError]:
+    """
+    Check that the JSON names within each JSON object are unique.
+
+    :param mapping: schema mapping to be validated
+    :param ref: reference to the schema
+    :return: list of schema errors or an empty list, if no errors
+    """
+    errs = []  # type: List[SchemaError]
+
+    # JSON names used in the object graph mapped to their owners
+    registries = dict()  # type: Dict[str, str]
+    for i, cls_mapping in enumerate(mapping.get('classes', [])):
+        plural = cls_mapping.get(
+            'plural', mapry.naming.plural(identifier=cls_mapping['name']))
+        json_plural = mapry.naming.json_plural(a_plural=plural)
+
+        # Duplicate names of the classes are reported elsewhere.
+        if registries.get(json_plural, cls_mapping['name']) != cls_mapping[
+                'name']:
+            errs.append(
+                SchemaError(
+                    message=(
+                        'The JSON name {!r} of the registry of class {!r} '
+                        'conflicts with the registry of class {!r}').format(
+                            json_plural, cls_mapping['name'],
+                            registries[json_plural]),
+                    ref='{}/classes/{}'.format(ref, i)))
+        else:
+            registries[json_plural] = cls_mapping['name']
+
+    for name, property_mapping in mapping.get('properties', dict()).items():
+        json_name = property_mapping.get('json', name)
+
+        # Conflicts of the names are reported elsewhere.
+        if json_name != name and json_name in registries:
+            errs.append(
+                SchemaError(
+                    message=(
+                        'The JSON name {!r} of the graph property {!r} '
+                        'conflicts with the registry of class {!r}').format(
+                            json_name, name, registries[json_name]),
+                    ref='{}/properties/{}'.format(ref, name)))
+
+    # yapf: disable
+    composites = (
+        [(mapping, ref)] +
+        [(cls_mapping, '{}/classes/{}'.format(ref, i))
+         for i, cls_mapping in enumerate(mapping.get('classes', []))] +
+        [(embed_mapping, '{}/embeds/{}'.format(ref, i))
+         for i, embed_mapping in enumerate(mapping.get('embeds', []))])
+    # yapf: enable
+
+    for composite_mapping, composite_ref in composites:
+        json_names = dict()  # type: Dict[str, str]
+
+        properties = composite_mapping.get('properties', dict())
+        for name, property_mapping in properties.items():
+            json_name = property_mapping.get('json', name)
+
+            if json_name in json_names:
+                errs.append(
+                    SchemaError(
+                        message=(
+                            'The JSON name {!r} of the property {!r} '
+                            'conflicts with the property {!r}').format(
+                                json_name, name, json_names[json_name]),
+                        ref='{}/properties/{}'.format(composite_ref, name)))
+            else:
+                json_names[json_name] = name
+
+    return errs
+
+
 def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     """
     Validate the given mapping as a mapry schema.
@@ -696,4 +771,7 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     # do not conflict any of the graph properties
     errors.extend(_validate_plurals(mapping=mapping, ref=ref))
 
+    # Check that the properties can be distinguished in JSON
+    errors.extend(_validate_json_names(mapping=mapping, ref=ref))
+
     return errors
-- 
2.43.0


From c7ef6e8e3347e4424fcffc782f3674307b08748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 13/38] fix: name the fields of properties with capitals
 consistently in C++

The parsing used the field names in lower case whereas the definitions
and the serialization used the names of the properties.
---
 mapry/cpp/generate/jsoncpp_impl.py | 6 ++++--
 mapry/cpp/generate/types_header.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..8f29e8d 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2687,7 +2687,8 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(identifier=prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2773,7 +2774,8 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(identifier=prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..5416515 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -256,10 +256,11 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             prop_type = mapry.cpp.generate.type_repr(a_type=prop.type, cpp=cpp)
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From 8a388c49c17fdfa09362093444b1d1862a6c60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 14/38] fix: define nested embeddable structures first in C++

The structures were defined in the order of the schema, and the code did
not compile if an embeddable structure nested one defined later.
---
 mapry/cpp/generate/types_header.py | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 5416515..4cd3b51 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -6,6 +6,7 @@ from icontract import ensure
 import mapry
 import mapry.cpp.generate
 import mapry.cpp.jinja2_env
+import mapry.cpp.naming
 import mapry.indention
 
 
@@ -294,6 +295,35 @@ def _embed_definition(embed: mapry.Embed, cpp: mapry.Cpp) -> str:
                                                       cpp=cpp)).strip()
 
 
+def _order_embeds(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Order the embeddable structures such that the nested ones come first.
+
+    C++ needs the complete definition of a structure contained as a value.
+
+    :param graph: definition of the object graph
+    :return: embeddable structures in the order of the definitions
+    """
+    ordered = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[str]
+
+    def visit(embed: mapry.Embed) -> None:
+        if embed.name in visited:
+            return
+
+        visited.add(embed.name)
+        for prop in embed.properties.values():
+            if isinstance(prop.type, mapry.Embed):
+                visit(prop.type)
+
+        ordered.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed)
+
+    return ordered
+
+
 _CLASS_DEFINITION_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if cls.description %}
@@ -390,7 +420,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _order_embeds(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From 4ca9238d0fee651f3f4d8ad4655101b7418f9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 15/38] fix: report embeddable structures which contain
 themselves in C++ and Go

A structure can not contain itself as a value in these languages so that
the generated code did not compile.
---
 mapry/cpp/validation.py | 39 ++++++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 7c127a6..1cc16ec 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.cpp
@@ -193,6 +193,40 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_nesting(graph: mapry.Graph
+                      ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that no embeddable structure contains itself as a value in C++.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for embed in graph.embeds.values():
+        visited = set()  # type: Set[str]
+        stack = [embed]
+        while stack:
+            for prop in stack.pop().properties.values():
+                if not (isinstance(prop.type, mapry.Embed)):
+                    continue
+
+                if prop.type is embed and embed.name not in visited:
+                    errs.append(
+                        mapry.validation.SchemaError(
+                            message=(
+                                "The embeddable structure {!r} contains "
+                                "itself ({}), which is not possible "
+                                "in C++").format(embed.name, prop.ref),
+                            ref=embed.ref))
+
+                if prop.type.name not in visited:
+                    visited.add(prop.type.name)
+                    stack.append(prop.type)
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -277,4 +311,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    # Check that the embeddable structures are finite
+    errs.extend(_validate_nesting(graph=schema.graph))
+
     return errs
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 5d4e10a..b57ea23 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.go.timeformat
@@ -277,6 +277,41 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_nesting(graph: mapry.Graph
+                      ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that no embeddable structure contains itself as a value in Go.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for embed in graph.embeds.values():
+        visited = set()  # type: Set[str]
+        stack = [embed]
+        while stack:
+            for prop in stack.pop().properties.values():
+                if not (isinstance(prop.type, mapry.Embed)
+                        and not prop.optional):
+                    continue
+
+                if prop.type is embed and embed.name not in visited:
+                    errs.append(
+                        mapry.validation.SchemaError(
+                            message=(
+                                "The embeddable structure {!r} contains "
+                                "itself ({}), which is not possible "
+                                "in Go").format(embed.name, prop.ref),
+                            ref=embed.ref))
+
+                if prop.type.name not in visited:
+                    visited.add(prop.type.name)
+                    stack.append(prop.type)
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Go code for the given mapry schema.
@@ -362,6 +397,9 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    # Check that the embeddable structures are finite
+    errs.extend(_validate_nesting(graph=schema.graph))
+
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
     return errs
-- 
2.43.0


From d5281c9d991ea03273587e61d03db0af653101fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 16/38] fix: escape the escape character in Go and C++ literals

---
 mapry/cpp/generate/__init__.py | 2 +-
 mapry/go/generate/__init__.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7e37be1..1c57965 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -143,7 +143,7 @@ def escaped_str(text: str) -> str:
         ('\v', '\\v'),
         ('\f', '\\f'),
         ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\x1B', '\\033')])
     # yapf: enable
 
     result = text
diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0e31ec4..112035e 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -114,7 +114,7 @@ def escaped_str(text: str) -> str:
         ('\v', '\\v'),
         ('\f', '\\f'),
         ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\x1B', '\\x1b')])
     # yapf: enable
 
     result = text
-- 
2.43.0


From b4781a79be91b4b0716ccd00d103112aa11bc575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 17/38] fix: escape the percent signs in the Go error formats

---
 mapry/go/generate/fromjsonable.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..15140dc 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -692,7 +692,8 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|replace('%', '%%'))|
+                    escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -761,7 +762,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|replace('%', '%%'))|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1688,7 +1689,8 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(cls.id_pattern.pattern|
+                                    replace('%', '%%'))|escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
-- 
2.43.0


From 6863f26a1b2f95ef54903b8e05f92e02802ce9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 18/38] fix: compile the Go code of graphs without classes and
 properties

---
 mapry/go/generate/fromjsonable.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index 15140dc..54aebc6 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -46,7 +46,15 @@ def _imports(graph: mapry.Graph) -> str:
     :param go: Go settings
     :return: generated code
     """
-    import_set = {'strings', 'fmt'}
+    import_set = {'fmt'}
+
+    # yapf: disable
+    if graph.classes or any(
+            composite.properties
+            for composite in (graph, *graph.embeds.values())):
+        # yapf: enable
+        # needed to join the references
+        import_set.add('strings')
 
     if mapry.needs_type(a_type=graph, query=mapry.Integer):
         import_set.add('math')
@@ -1642,7 +1650,11 @@ func {{ graph.name|ucamel_case }}FromJSONable(
         panic("unexpected non-empty errors")
     }
 
+    {% if graph.classes or property_parsings %}
     cast, ok := value.(map[string]interface{})
+    {% else %}
+    _, ok := value.(map[string]interface{})
+    {% endif %}{# /if graph.classes or property_parsings #}
     if !ok {
         errors.Add(
             ref,
-- 
2.43.0


From 3d2bcb3d2f41157c0b1472ff0ae3e605525fdedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 19/38] fix: report the location of JSON errors at the end of
 the file

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 7d44415..60bd5c7 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -412,7 +412,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().splitlines()
+            lines = path.read_text().split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From ac79bf42efcfa16a918b4de73c7bca97ca02357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 20/38] fix: read and write the files in UTF-8 in all the
 locales

---
 mapry/main.py  | 6 +++---
 mapry/parse.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index 8410d75..78835a7 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -79,7 +79,7 @@ def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -132,7 +132,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -183,7 +183,7 @@ def generate_py(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
diff --git a/mapry/parse.py b/mapry/parse.py
index 60bd5c7..3cd27b3 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -402,7 +402,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     :param path: to the JSON-encoded mapry schema.
     :return: parsed schema
     """
-    with path.open('rt') as fid:
+    with path.open('rt', encoding='utf-8') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
         try:
@@ -412,7 +412,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().split('\n')
+            lines = path.read_text(encoding='utf-8').split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From d8c693369305d755c2329c8712649310d455d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 21/38] fix: parse the directives %e, %l and %P in Python

---
 mapry/py/expr.py                  | 24 ++++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py |  6 +++---
 mapry/py/jinja2_env.py            |  1 +
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/mapry/py/expr.py b/mapry/py/expr.py
index c2ce89e..6d700e0 100644
--- a/mapry/py/expr.py
+++ b/mapry/py/expr.py
@@ -50,3 +50,27 @@ def escape_braces(text: str) -> str:
     'a{{2,3}}'
     """
     return text.replace('{', '{{').replace('}', '}}')
+
+
+# Directives which Python writes, but can not parse,
+# mapped to the directives which parse the same texts
+_STRPTIME_DIRECTIVES = {'%e': '%d', '%l': '%I', '%P': '%p'}
+
+
+def strptime_format(text: str) -> str:
+    """
+    Convert the date/time format so that it can be parsed by ``strptime``.
+
+    :param text: date/time format consisting of strftime/strptime directives
+    :return: format limited to the directives known to ``datetime.strptime``
+
+    >>> strptime_format('%Y-%m-%d')
+    '%Y-%m-%d'
+
+    >>> strptime_format('%e %%e %l:%M %P')
+    '%d %%e %I:%M %p'
+
+    """
+    return re.sub(
+        r'%.', lambda mtch: _STRPTIME_DIRECTIVES.get(
+            mtch.group(), mtch.group()), text)
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 13fd9a1..fc62dfd 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -604,7 +604,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|strptime_format|repr }}
         ).date()
     except ValueError:
         errors.add(
@@ -663,7 +663,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }})
+            {{ a_type.format|strptime_format|repr }})
     except ValueError:
         errors.add(
             '/'.join((
@@ -721,7 +721,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|strptime_format|repr }}
         ).time()
     except ValueError:
         errors.add(
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index ab82c34..0ed6c43 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -25,5 +25,6 @@ ENV.filters.update({
     'is_variable': mapry.py.expr.is_variable,
     'regex_literal': mapry.py.expr.regex_literal,
     'escape_braces': mapry.py.expr.escape_braces,
+    'strptime_format': mapry.py.expr.strptime_format,
     '_raise': _raise
 })
-- 
2.43.0


From 0f8375db56cf3c9106096abcdec7d80cd2656a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 22/38] fix: report the formats which Python can not parse

---
 mapry/py/validation.py | 43 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index be80322..6573888 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -1,9 +1,11 @@
 """Validate that the Python code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
+import mapry.py.expr
 import mapry.py.naming
+import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -181,6 +183,42 @@ def _validate_graph_attributes(graph: mapry.Graph
     return errs
 
 
+def _validate_date_time_formats(graph: mapry.Graph
+                                ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that all date/time formats can be parsed in Python.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if not isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
+            continue
+
+        observed = set()  # type: Set[str]
+        for tkn_line in mapry.strftime.tokenize(format=a_type.format):
+            for tkn in tkn_line:
+                if tkn.identifier != 'directive' or tkn.content == '%%':
+                    continue
+
+                directive = mapry.py.expr.strptime_format(text=tkn.content)
+                if directive in observed:
+                    errs.append(
+                        mapry.validation.SchemaError(
+                            message=(
+                                "Format {!r} can not be parsed in Python: "
+                                "strptime does not accept "
+                                "the directive {!r} more than once").format(
+                                    a_type.format, directive),
+                            ref=ref))
+
+                observed.add(directive)
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -269,4 +307,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
 
+    # Check that the formats can be parsed
+    errs.extend(_validate_date_time_formats(graph=schema.graph))
+
     return errs
-- 
2.43.0


From 37b382e3deb8ad95a78bc7644f2ea269cdc80408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 23/38] fix: report the formats whose separators Go takes for
 fractional seconds

---
 mapry/go/timeformat.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 55afb63..a2f069b 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -74,6 +74,9 @@ _GO_ELEMENT_RE = re.compile(
     r'|-070000|-07:00:00|-0700|-07:00|-07'
     r'|Z070000|Z07:00:00|Z0700|Z07:00|Z07|[.,](?:0+|9+)(?![0-9])')
 
+# Layout after the seconds whose texts Go takes for fractional seconds
+_GO_FRACTION_RE = re.compile(r'[.,](?:[0-9]|_2)')
+
 
 def find_conflict(a_format: str) -> Optional[str]:
     """
@@ -92,6 +95,8 @@ def find_conflict(a_format: str) -> Optional[str]:
     '01'
     >>> find_conflict(a_format="%bx")
     '%b'
+    >>> find_conflict(a_format="%S.%H")
+    '%S'
 
     """
     layout = ''
@@ -111,6 +116,10 @@ def find_conflict(a_format: str) -> Optional[str]:
             if tkn.content != '%%':
                 expected[(start, len(layout))] = tkn.content
 
+    seconds = [(span, directive)
+               for span, directive in expected.items()
+               if directive == '%S']
+
     for mtch in _GO_ELEMENT_RE.finditer(layout):
         # An underscore before the long year is a text for Go.
         if mtch.group() == '_':
@@ -122,4 +131,10 @@ def find_conflict(a_format: str) -> Optional[str]:
     for directive in expected.values():
         return directive
 
+    # Go parses a separator and digits after the seconds
+    # as fractional seconds even if the layout lacks them.
+    for (_, end), directive in seconds:
+        if _GO_FRACTION_RE.match(layout, end):
+            return directive
+
     return None
-- 
2.43.0


From 7ab9d40e3fdd821a147505040b6d2b7a7e45e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 24/38] fix: serialize the registry named as the graph in C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8f29e8d..20c3685 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2705,7 +2705,7 @@ _SERIALIZE_GRAPH_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 Json::Value serialize_{{ graph.name|as_variable }}(
         const {{ graph.name|as_composite }}& {{ graph.name|as_variable }}) {
-    {% set value = "%s_as_value"|format(graph.name|as_variable) %}
+    {% set value = graph_value %}
     {% if property_serializations or graph.classes %}
     Json::Value {{ value }};
     {% for serialization in property_serializations %}
@@ -2766,13 +2766,22 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
     """
     value_expr = mapry.cpp.naming.as_variable(graph.name)
 
+    # The variable must not be hidden by the variables of the registries.
+    graph_value = '{}_as_value'.format(value_expr)
+    registry_values = {
+        '{}_as_value'.format(mapry.cpp.naming.as_variable(cls.plural))
+        for cls in graph.classes.values()
+    }
+    while graph_value in registry_values:
+        graph_value = 'graph_{}'.format(graph_value)
+
     auto_id = _AutoID()
 
     # yapf: disable
     property_serializations = [
         _serialize_property(
-            target_expr="{}_as_value[{}]".format(
-                mapry.cpp.naming.as_variable(graph.name),
+            target_expr="{}[{}]".format(
+                graph_value,
                 mapry.cpp.generate.escaped_str(prop.json)),
             value_expr="{}.{}".format(
                 value_expr, mapry.cpp.naming.as_field(identifier=prop.name)),
@@ -2784,7 +2793,9 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
     # yapf: enable
 
     return _SERIALIZE_GRAPH_TPL.render(
-        graph=graph, property_serializations=property_serializations)
+        graph=graph,
+        graph_value=graph_value,
+        property_serializations=property_serializations)
 
 
 @ensure(lambda result: result.endswith('\n'))
-- 
2.43.0


From ef9175ef6638fd08b9f1abcd9755a0b60b83f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 25/38] fix: report the names reserved in the generated C++
 code

---
 mapry/cpp/validation.py | 68 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 1cc16ec..3f13acd 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -24,6 +24,13 @@ _KEYWORDS = {
     'void', 'volatile', 'wchar_t', 'while', 'xor', 'xor_eq'
 }
 
+# Macros and types which the included headers define and
+# the namespace of the JSON library
+_RESERVED_NAMES = {
+    'BUFSIZ', 'EOF', 'INFINITY', 'Json', 'NAN', 'NULL', 'assert', 'errno',
+    'int64_t', 'stderr', 'stdin', 'stdout'
+}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -79,6 +86,14 @@ def _validate_fields(fields: List[_Field]
                         "is a keyword in C++").format(field.name),
                     ref=field.ref))
 
+        if field.name in _RESERVED_NAMES:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} "
+                        "is reserved in the C++ code").format(field.name),
+                    ref=field.ref))
+
         if field.name in name_to_fields:
             errs.append(
                 mapry.validation.SchemaError(
@@ -163,6 +178,16 @@ def _validate_graph_fields(graph: mapry.Graph
                             plural_field, cls.name),
                     ref=cls.ref))
 
+        if plural_field in _RESERVED_NAMES or plural_field == 'instance':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} corresponding "
+                        "to the registry of the class {!r} in the object "
+                        "graph is reserved in the C++ code").format(
+                            plural_field, cls.name),
+                    ref=cls.ref))
+
         if plural_field in property_field_map:
             errs.append(
                 mapry.validation.SchemaError(
@@ -227,6 +252,46 @@ def _validate_nesting(graph: mapry.Graph
     return errs
 
 
+def _validate_reserved(graph: mapry.Graph
+                       ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the identifiers of the composites are not reserved in C++.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    for composite in composites:
+        variable = mapry.cpp.naming.as_variable(identifier=composite.name)
+        if variable in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "C++ variable identifier ({!r}) corresponding to "
+                        "the name of the composite ({!r}) "
+                        "is a keyword in C++").format(variable, composite.name),
+                    ref=composite.ref))
+
+        identifier = mapry.cpp.naming.as_composite(identifier=composite.name)
+        for name in (identifier, variable):
+            if name in _RESERVED_NAMES:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "C++ identifier ({!r}) corresponding to "
+                            "the name of the composite ({!r}) "
+                            "is reserved in the C++ code").format(
+                                name, composite.name),
+                        ref=composite.ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -311,6 +376,9 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    # Check the identifiers derived from the names of the composites
+    errs.extend(_validate_reserved(graph=schema.graph))
+
     # Check that the embeddable structures are finite
     errs.extend(_validate_nesting(graph=schema.graph))
 
-- 
2.43.0


From f1edfeed96fa766e25099491f26cc608b1394526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 26/38] fix: report the attributes reserved in Python

---
 mapry/py/validation.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 6573888..5cb4df9 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -9,12 +9,15 @@ import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
-    'False', 'None', 'True', 'and', 'as', 'assert', 'break', 'class',
-    'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
-    'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not',
-    'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
+    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
+    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally',
+    'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal',
+    'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
 
+# The attributes are passed as arguments to the constructors.
+_RESERVED_ATTRIBUTES = _KEYWORDS | {'self'}
+
 
 class _Attribute:
     """Represent a Python attribute of a composite."""
@@ -64,7 +67,7 @@ def _validate_attributes(attributes: List[_Attribute]
     name_to_attributes = dict()  # type: Dict[str, _Attribute]
 
     for attribute in attributes:
-        if attribute.name in _KEYWORDS:
+        if attribute.name in _RESERVED_ATTRIBUTES:
             errs.append(
                 mapry.validation.SchemaError(
                     message=(
@@ -129,6 +132,17 @@ def _validate_graph_attributes(graph: mapry.Graph
     attributes = _properties_to_attributes(properties=graph.properties)
     errs.extend(_validate_attributes(attributes=attributes))
 
+    # The constructor of the object graph needs the module.
+    for attribute in attributes:
+        if attribute.name == 'collections':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} is reserved "
+                        "for the module used by the autogenerated "
+                        "code").format(attribute.name),
+                    ref=attribute.ref))
+
     # yapf: disable
     property_attribute_map = {
         attribute.name: attribute
@@ -141,7 +155,8 @@ def _validate_graph_attributes(graph: mapry.Graph
     for cls in graph.classes.values():
         plural_attribute = mapry.py.naming.as_attribute(identifier=cls.plural)
 
-        if plural_attribute in _KEYWORDS:
+        if (plural_attribute in _RESERVED_ATTRIBUTES
+                or plural_attribute == 'collections'):
             errs.append(
                 mapry.validation.SchemaError(
                     message=(
-- 
2.43.0


From 75b64fbdb8a470c2e981cf1d30214bae867a89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 27/38] fix: report the composites with conflicting variables
 in Python

---
 mapry/py/validation.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 5cb4df9..f9f38f6 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -234,6 +234,44 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_variables(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the variables and functions of the composites are distinct.
+
+    The composites whose names differ only in case are ambiguous in
+    the snake case.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    variable_to_composite = dict()  # type: Dict[str, mapry.Composite]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+
+        if variable in variable_to_composite:
+            conflict_composite = variable_to_composite[variable]
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The composites {!r} and {!r} ({}) have "
+                        "conflicting Python variable identifiers: {!r}").format(
+                            composite.name, conflict_composite.name,
+                            conflict_composite.ref, variable),
+                    ref=composite.ref))
+        else:
+            variable_to_composite[variable] = composite
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -322,6 +360,9 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
 
+    # Check that the names derived from the composites are distinct
+    errs.extend(_validate_variables(graph=schema.graph))
+
     # Check that the formats can be parsed
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
-- 
2.43.0


From 794b815f04b3e24e5140365b1a2afe07d8a3ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 28/38] fix: reject names, descriptions and settings that end
 with a new line

---
 mapry/schemas.py    | 24 ++++++++++++------------
 mapry/validation.py |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 71a8642..f897ab2 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,13 +10,13 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "type": "string",
                     "description": "describes the object graph "
                     "(starts with a verb and ends with a dot).",
-                    "pattern": "^[a-z]+.*\\.$"
+                    "pattern": "^[a-z]+.*\\.\\Z"
                 },
                 "cpp": {
                     "$ref": "#/definitions/Cpp"
@@ -63,7 +63,7 @@ GRAPH = {
                     "description":
                     "indicates the namespace of the generated code.",
                     "pattern":
-                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*\\Z"
                 },
                 "path_as": {
                     "type": "string",
@@ -97,7 +97,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code."
                     "Defaults to two spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*\\Z"
                 }
             },
             "required":
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*$"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*\\Z"
                 }
             },
             "required": ["package"],
@@ -129,7 +129,7 @@ GRAPH = {
                     "specifies the fully qualified base module name "
                     "of the generated code.",
                     "pattern":
-                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*\Z"
                 },
                 "path_as": {
                     "type": "string",
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*\\Z"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
@@ -162,20 +162,20 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the class in Snake_case.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "type": "string",
                     "description": "describes the class "
                     "(starts with a verb and ends with a dot).",
-                    "pattern": "^[a-z]+.*\\.$"
+                    "pattern": "^[a-z]+.*\\.\\Z"
                 },
                 "plural": {
                     "type": "string",
                     "description":
                     "gives the plural of the class in Snake_case. "
                     "If omitted, automatically inferred.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "id_pattern": {
                     "type":
@@ -203,13 +203,13 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
                     "(starts with a verb and ends with a dot).",
                     "type": "string",
-                    "pattern": "^[a-z]+.*\\.$"
+                    "pattern": "^[a-z]+.*\\.\\Z"
                 },
                 "properties": {
                     "type": "object",
diff --git a/mapry/validation.py b/mapry/validation.py
index f728f5c..937f7ad 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -102,7 +102,7 @@ def _validate_class(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     return errs
 
 
-_PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$')
+_PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\Z')
 _NONCOMPOSITE_TYPE_SET = {
     'boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime',
     'duration', 'time_zone', 'array', 'map'
-- 
2.43.0


From 21705b64a5d3eed221799f4614844e2aa7507a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 29/38] fix: keep line ends other than new lines in the Go and
 C++ literals

Literals with such characters were split or changed when the generated
code was indented.
---
 mapry/cpp/generate/__init__.py     | 30 ++++++++++++++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  9 +++++----
 mapry/cpp/jinja2_env.py            |  1 +
 mapry/go/generate/__init__.py      | 14 +++++++++++++-
 4 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 1c57965..ff916d2 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -150,4 +150,34 @@ def escaped_str(text: str) -> str:
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
+    # Other characters that break a line are written as bytes lest the literal
+    # is split when it is indented.
+    for src in '\x1c\x1d\x1e\x85\u2028\u2029':
+        result = result.replace(
+            src, ''.join('\\{:03o}'.format(byte) for byte in src.encode()))
+
     return '"{}"'.format(result)
+
+
+def raw_str(text: str) -> str:
+    r"""
+    Convert the ``text`` into a C++ raw string literal.
+
+    If the raw literal can not hold the ``text``, an escaped literal is given.
+
+    :param text: to be converted
+    :return: C++ string literal
+
+    >>> print(raw_str(text=r'^\d+$'))
+    R"v0g0n(^\d+$)v0g0n"
+
+    >>> print(raw_str(text='test\nme'))
+    "test\nme"
+
+    """
+    if ')v0g0n"' in text or any(
+            char in text for char in
+            '\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029'):
+        return escaped_str(text=text)
+
+    return 'R"v0g0n({})v0g0n"'.format(text)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 20c3685..c9ac543 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -202,11 +202,12 @@ def _regex_constants(graph: mapry.Graph) -> str:
                 '''\
             namespace {composite_varname}_re {{
             const std::regex kID(
-                R"v0g0n({regex})v0g0n");
+                {regex});
             }}  // namespace {composite_varname}_re'''.format(
                     composite_varname=mapry.cpp.naming.as_variable(
                         identifier=cls.name),
-                    regex=cls.id_pattern.pattern)))
+                    regex=mapry.cpp.generate.raw_str(
+                        text=cls.id_pattern.pattern))))
 
     return "\n\n".join(blocks)
 
@@ -771,7 +772,7 @@ if (!{{ value }}.isString()) {
     {{ target_expr }} = {{ value }}.asString();
     {% else %}
     const static std::regex regex_{{ uid }}(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
@@ -863,7 +864,7 @@ if (!{{ value }}.isString()) {
     {{ set_target }}
     {% else %}
     const static std::regex regex(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index eff190f..a506199 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -21,6 +21,7 @@ ENV.filters.update({
     'as_composite': mapry.cpp.naming.as_composite,
     'comment': mapry.cpp.generate.comment,
     'escaped_str': mapry.cpp.generate.escaped_str,
+    'raw_str': mapry.cpp.generate.raw_str,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 112035e..acb2e08 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -121,6 +121,12 @@ def escaped_str(text: str) -> str:
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
+    # Other characters that break a line are escaped lest the literal is split
+    # when it is indented. Go source code can not contain zeros and byte order
+    # marks.
+    for src in '\0\x1c\x1d\x1e\x85\u2028\u2029\ufeff':
+        result = result.replace(src, '\\u{:04x}'.format(ord(src)))
+
     return '"{}"'.format(result)
 
 
@@ -130,7 +136,8 @@ def ticked_str(text: str) -> str:
     Convert the ``text`` into a backticked Go string literal.
 
     If there are backticks in the text, the generated string literal
-    is split into multiple lines.
+    is split into multiple lines. If a backticked literal can not hold
+    the text, an escaped literal is generated.
 
     :param text: to be converted
     :return: Go string literal
@@ -143,6 +150,11 @@ def ticked_str(text: str) -> str:
         `me`
 
     """
+    if any(
+            char in text for char in
+            '\0\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029\ufeff'):
+        return escaped_str(text=text)
+
     tick_parts = text.split('`')
     parts = []  # type: List[str]
 
-- 
2.43.0


From 9f8c4871c13c5517df50e1a4925ddfde82736880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 30/38] fix: keep the line ends of date/time formats in the Go
 layouts

All the line ends became new lines, and the trailing ones were lost.
---
 mapry/go/timeformat.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index a2f069b..5cf4972 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -3,8 +3,6 @@
 import re
 from typing import Dict, List, Optional, Tuple  # pylint: disable=unused-import
 
-from icontract import ensure
-
 import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
@@ -31,7 +29,6 @@ _STRFTIME_TO_GO = {
 }
 
 
-@ensure(lambda result: not result.endswith('\n'))
 def convert(a_format: str) -> str:
     r"""
     Convert the strftime/strptime directives to Go directives.
@@ -48,12 +45,15 @@ def convert(a_format: str) -> str:
     """
     tkn_lines = mapry.strftime.tokenize(format=a_format)
 
-    parts = []  # type: List[str]
+    # The tokens do not include the line ends.
+    line_ends = [
+        line[len(line.splitlines()[0]):]
+        for line in a_format.splitlines(keepends=True)
+    ]
 
-    for i, tkn_line in enumerate(tkn_lines):
-        if i > 0:
-            parts.append('\n')
+    parts = []  # type: List[str]
 
+    for tkn_line, line_end in zip(tkn_lines, line_ends):
         for tkn in tkn_line:
             if tkn.identifier == 'directive':
                 assert tkn.content in _STRFTIME_TO_GO, \
@@ -63,6 +63,8 @@ def convert(a_format: str) -> str:
             elif tkn.identifier == 'text':
                 parts.append(tkn.content)
 
+        parts.append(line_end)
+
     return ''.join(parts)
 
 
-- 
2.43.0


From ffd89ab68658f996eb7f11e218ba62da6ffc2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 31/38] fix: compile the C++ code of optional dates and
 date/times with date.h

---
 mapry/cpp/generate/jsoncpp_impl.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index c9ac543..d8e91dd 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -1881,9 +1881,18 @@ def _parse_property(
     needs_emplace = isinstance(
         a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
 
+    # date::parse needs the value itself.
+    parses_in_place = (
+        cpp.datetime_library == 'date.h'
+        and isinstance(a_property.type, (mapry.Date, mapry.Datetime)))
+
     parsing_target_expr = property_target_expr
     if a_property.optional:
-        if isinstance(a_property.type, (mapry.Array, mapry.Map)):
+        if parses_in_place:
+            needs_emplace = True
+
+        if (isinstance(a_property.type, (mapry.Array, mapry.Map))
+                or parses_in_place):
             parsing_target_expr = "*{}".format(property_target_expr)
         elif isinstance(a_property.type, mapry.Embed):
             parsing_target_expr = "(*{})".format(property_target_expr)
-- 
2.43.0


From 3d5e4799c3921ede50bae66ea377209bd607fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 32/38] fix: report modules, packages and namespaces which can
 not be used

Keywords and names of the generated code gave code that does not load or
compile, or that raises, e.g. in the Python module graph.
---
 mapry/cpp/validation.py | 43 ++++++++++++++++++++
 mapry/go/validation.py  |  7 ++++
 mapry/py/validation.py  | 90 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 140 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 3f13acd..1b13097 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -31,6 +31,12 @@ _RESERVED_NAMES = {
     'int64_t', 'stderr', 'stdin', 'stdout'
 }
 
+# Names of the C library used in the code, hidden by the equal namespaces
+_GLOBAL_NAMES = {'size_t', 'strftime', 'strlen', 'strptime', 'tm'}
+
+# Namespaces used in the code, hidden by the equal nested namespaces
+_LIBRARY_NAMESPACES = {'boost', 'date', 'std'}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -292,6 +298,37 @@ def _validate_reserved(graph: mapry.Graph
     return errs
 
 
+def _validate_namespace(namespace: str, ref: str
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the code can be put in the namespace.
+
+    :param namespace: of the generated code
+    :param ref: reference to the namespace in the schema
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for i, part in enumerate(namespace.split('::')):
+        if part in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the namespace is "
+                        "a keyword in C++").format(part),
+                    ref=ref))
+        elif (part in _RESERVED_NAMES or part in _GLOBAL_NAMES
+              or (i > 0 and part in _LIBRARY_NAMESPACES)):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the namespace is "
+                        "reserved in the C++ code").format(part),
+                    ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -303,6 +340,12 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.cpp is not None:
+        errs.extend(
+            _validate_namespace(
+                namespace=schema.cpp.namespace,
+                ref="{}/cpp/namespace".format(schema.graph.ref)))
+
     graph_name = mapry.cpp.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index b57ea23..dd68936 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -323,6 +323,13 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.go is not None and schema.go.package in _KEYWORDS:
+        errs.append(
+            mapry.validation.SchemaError(
+                message="The package {!r} is a keyword in Go".format(
+                    schema.go.package),
+                ref="{}/go/package".format(schema.graph.ref)))
+
     graph_name = mapry.naming.ucamel_case(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index f9f38f6..ff86a50 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -1,4 +1,5 @@
 """Validate that the Python code can be generated according to the schema."""
+import re
 from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping, Set)
 
@@ -18,6 +19,20 @@ _KEYWORDS = {
 # The attributes are passed as arguments to the constructors.
 _RESERVED_ATTRIBUTES = _KEYWORDS | {'self'}
 
+# Names of modules, built-ins and variables in the code
+_USED_NAMES = {
+    'Error', 'Errors', 'ValueError', 'bool', 'cap', 'collections', 'count',
+    'datetime', 'dict', 'enumerate', 'err', 'errors', 'exception', 'float',
+    'graph', 'id', 'instance', 'instance_value', 'int', 'isinstance', 'iter',
+    'len', 'list', 'message', 'ordered', 'pathlib', 'pytz', 're', 'ref',
+    'registry_value', 'repr', 'self', 'str', 'target', 'type', 'typing',
+    'value'
+}
+
+# Numbered variables in the code
+_NUMBERED_NAME_RE = re.compile(
+    r'^(i|item|key|target|target_item|target_value|value)_[0-9]+\Z')
+
 
 class _Attribute:
     """Represent a Python attribute of a composite."""
@@ -272,6 +287,74 @@ def _validate_variables(graph: mapry.Graph
     return errs
 
 
+def _names_of_composites(graph: mapry.Graph) -> Set[str]:
+    """
+    Collect the names of the functions and variables derived from composites.
+
+    :param graph: mapry definition of the object graph
+    :return: names in the Python code
+    """
+    names = set()  # type: Set[str]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+        names.update(
+            [
+                '{}_from'.format(variable), 'placeholder_{}'.format(variable),
+                'serialize_{}'.format(variable)
+            ])
+
+    for cls in graph.classes.values():
+        variable = mapry.py.naming.as_variable(identifier=cls.name)
+        plural = mapry.py.naming.as_variable(identifier=cls.plural)
+        names.update(
+            [
+                '{}_instance'.format(variable), 'target_{}'.format(variable),
+                '{}_registry'.format(plural), 'target_{}'.format(plural)
+            ])
+
+    return names
+
+
+def _validate_module_name(module_name: str, ref: str, graph: mapry.Graph
+                          ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the module can be imported and accessed in the code.
+
+    :param module_name: fully qualified base module name of the generated code
+    :param ref: reference to the module name in the schema
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    parts = module_name.split('.')
+    for part in parts:
+        if part in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the module name is "
+                        "a keyword in Python").format(part),
+                    ref=ref))
+
+    # The code accesses the modules by the first part.
+    if (parts[0] in _USED_NAMES or _NUMBERED_NAME_RE.match(parts[0])
+            or parts[0] in _names_of_composites(graph=graph)):
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The module {!r} conflicts with a name "
+                    "in the Python code").format(parts[0]),
+                ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -283,6 +366,13 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.py is not None:
+        errs.extend(
+            _validate_module_name(
+                module_name=schema.py.module_name,
+                ref="{}/py/module_name".format(schema.graph.ref),
+                graph=schema.graph))
+
     graph_name = mapry.py.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From 9d36a27702a81e0ed25a328270b5c7abeefc82d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 33/38] fix: represent the whole bounds of floats as finite
 floating-point numbers

Large whole bounds did not compile in C++, and infinite bounds gave names
which are not defined.
---
 mapry/parse.py      | 2 +-
 mapry/validation.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 3cd27b3..57c214b 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -122,7 +122,7 @@ def _float_bound_from_mapping(mapping: Mapping[str, Any],
     if abs(bound) < 2**53 and bound == int(bound):
         return int(bound)
 
-    return bound
+    return float(bound)
 
 
 def _recurse_type_from_mapping(
diff --git a/mapry/validation.py b/mapry/validation.py
index 937f7ad..ddbe978 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -3,6 +3,7 @@
 
 import collections
 import re
+import sys
 from typing import Any, Dict, List, Mapping, Optional, Set, Tuple
 
 import jsonschema  # type: ignore
@@ -195,6 +196,13 @@ def _validate_float(mapping: Mapping[str, Any],
     :param ref: reference to the type definition
     :return: error, if any
     """
+    for key in ['minimum', 'maximum']:
+        if key in mapping and not abs(mapping[key]) <= sys.float_info.max:
+            return SchemaError(
+                message="{} (== {}) is not a finite floating-point number".
+                format(key, mapping[key]),
+                ref='{}/{}'.format(ref, key))
+
     if 'minimum' in mapping and 'maximum' in mapping:
         minimum = mapping['minimum']
         maximum = mapping['maximum']
-- 
2.43.0


From 5d8f3f27422975eefb3649fb4c66b7d958701e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 34/38] fix: compile the lowest bound of 64-bit integers in C++

There is no literal for it: the constant became unsigned.
---
 mapry/cpp/generate/__init__.py     | 22 ++++++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  4 ++--
 mapry/cpp/jinja2_env.py            |  1 +
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index ff916d2..23a06d0 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -159,6 +159,28 @@ def escaped_str(text: str) -> str:
     return '"{}"'.format(result)
 
 
+def int_literal(value: int) -> str:
+    """
+    Convert the 64-bit integer to a C++ expression.
+
+    There is no literal for the lowest integer in C++.
+
+    :param value: to be converted
+    :return: C++ expression
+
+    >>> int_literal(value=-3)
+    '-3'
+
+    >>> int_literal(value=-2**63)
+    '(-9223372036854775807 - 1)'
+
+    """
+    if value == -2**63:
+        return '({} - 1)'.format(value + 1)
+
+    return str(value)
+
+
 def raw_str(text: str) -> str:
     r"""
     Convert the ``text`` into a C++ raw string literal.
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index d8e91dd..a96a974 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -579,7 +579,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.minimum is not none %}
 
     {% set op = ">" if a_type.exclusive_minimum else ">="  %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum|int_literal }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.minimum)|escaped_str }}
@@ -597,7 +597,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.maximum is not none %}
 
     {% set op = "<" if a_type.exclusive_maximum else "<=" %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum|int_literal }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.maximum)|escaped_str }}
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index a506199..9904a89 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -22,6 +22,7 @@ ENV.filters.update({
     'comment': mapry.cpp.generate.comment,
     'escaped_str': mapry.cpp.generate.escaped_str,
     'raw_str': mapry.cpp.generate.raw_str,
+    'int_literal': mapry.cpp.generate.int_literal,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
-- 
2.43.0


From f151e88ccc09db48d9be3f2e3ce8c2b5e4734557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 35/38] fix: report integer bounds and sizes beyond 64 bits in
 C++ and Go

The generated code did not compile or compared with a truncated constant.
---
 mapry/cpp/validation.py | 39 ++++++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 39 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 1b13097..7e78a2b 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Set)
+    Dict, List, Mapping, MutableMapping, Optional, Set, Tuple)
 
 import mapry
 import mapry.cpp
@@ -224,6 +224,40 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_bounds(graph: mapry.Graph
+                     ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the bounds of integers and sizes can be represented in C++.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        bounds = []  # type: List[Tuple[str, Optional[int]]]
+        if isinstance(a_type, mapry.Integer):
+            bounds = [('minimum', a_type.minimum), ('maximum', a_type.maximum)]
+
+        elif isinstance(a_type, mapry.Array):
+            bounds = [('minimum_size', a_type.minimum_size),
+                      ('maximum_size', a_type.maximum_size)]
+
+        else:
+            pass
+
+        for key, bound in bounds:
+            if bound is not None and not -2**63 <= bound < 2**63:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The {} (== {}) does not fit "
+                            "into a 64-bit integer in C++").format(key, bound),
+                        ref=ref))
+
+    return errs
+
+
 def _validate_nesting(graph: mapry.Graph
                       ) -> List[mapry.validation.SchemaError]:
     """
@@ -425,4 +459,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check that the embeddable structures are finite
     errs.extend(_validate_nesting(graph=schema.graph))
 
+    # Check that the bounds can be represented
+    errs.extend(_validate_bounds(graph=schema.graph))
+
     return errs
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index dd68936..aa581f5 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Set)
+    Dict, List, Mapping, MutableMapping, Optional, Set, Tuple)
 
 import mapry
 import mapry.go.timeformat
@@ -277,6 +277,40 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_bounds(graph: mapry.Graph
+                     ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the bounds of integers and sizes can be represented in Go.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        bounds = []  # type: List[Tuple[str, Optional[int]]]
+        if isinstance(a_type, mapry.Integer):
+            bounds = [('minimum', a_type.minimum), ('maximum', a_type.maximum)]
+
+        elif isinstance(a_type, mapry.Array):
+            bounds = [('minimum_size', a_type.minimum_size),
+                      ('maximum_size', a_type.maximum_size)]
+
+        else:
+            pass
+
+        for key, bound in bounds:
+            if bound is not None and not -2**63 <= bound < 2**63:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The {} (== {}) does not fit "
+                            "into a 64-bit integer in Go").format(key, bound),
+                        ref=ref))
+
+    return errs
+
+
 def _validate_nesting(graph: mapry.Graph
                       ) -> List[mapry.validation.SchemaError]:
     """
@@ -407,6 +441,9 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check that the embeddable structures are finite
     errs.extend(_validate_nesting(graph=schema.graph))
 
+    # Check that the bounds can be represented
+    errs.extend(_validate_bounds(graph=schema.graph))
+
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
     return errs
-- 
2.43.0


From d0f5d12fe963ab19b40052e8b64858291e17e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 36/38] fix: indent all the Python modules as specified in the
 settings

The setting was applied only to the types. The empty indention, which
gives Python code that does not load, is now reported.
---
 mapry/py/generate/fromjsonable.py | 4 +++-
 mapry/py/generate/parse.py        | 4 +++-
 mapry/py/generate/tojsonable.py   | 4 +++-
 mapry/py/validation.py            | 6 ++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index fc62dfd..d4891ba 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -6,6 +6,7 @@ from typing import (  # pylint: disable=unused-import
 from icontract import ensure
 
 import mapry
+import mapry.indention
 import mapry.py.generate
 import mapry.py.jinja2_env
 import mapry.py.naming
@@ -1787,4 +1788,5 @@ def generate(graph: mapry.Graph, py: mapry.Py) -> str:
 
     blocks.append(_parse_graph(graph=graph, py=py))
 
-    return '\n\n\n'.join(blocks) + '\n'
+    return mapry.indention.reindent(
+        text='\n\n\n'.join(blocks) + '\n', indention=py.indention)
diff --git a/mapry/py/generate/parse.py b/mapry/py/generate/parse.py
index 7594ac4..2565f26 100644
--- a/mapry/py/generate/parse.py
+++ b/mapry/py/generate/parse.py
@@ -3,6 +3,7 @@
 from icontract import ensure
 
 import mapry
+import mapry.indention
 import mapry.py.generate
 import mapry.py.jinja2_env
 import mapry.py.naming
@@ -240,4 +241,5 @@ def generate(graph: mapry.Graph, py: mapry.Py) -> str:
 
     blocks.append(_graph_placeholder_function(graph=graph, py=py))
 
-    return '\n\n\n'.join(blocks) + '\n'
+    return mapry.indention.reindent(
+        text='\n\n\n'.join(blocks) + '\n', indention=py.indention)
diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index bf87884..8a92d58 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -6,6 +6,7 @@ from typing import List, Optional, Union  # pylint: disable=unused-import
 from icontract import ensure
 
 import mapry
+import mapry.indention
 import mapry.py.generate
 import mapry.py.jinja2_env
 import mapry.py.naming
@@ -713,4 +714,5 @@ def generate(graph: mapry.Graph, py: mapry.Py) -> str:
 
     blocks.append(mapry.py.generate.WARNING)
 
-    return '\n\n\n'.join(blocks) + '\n'
+    return mapry.indention.reindent(
+        text='\n\n\n'.join(blocks) + '\n', indention=py.indention)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index ff86a50..db335a1 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -373,6 +373,12 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                 ref="{}/py/module_name".format(schema.graph.ref),
                 graph=schema.graph))
 
+        if not schema.py.indention:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message="Python code can not do without an indention",
+                    ref="{}/py/indention".format(schema.graph.ref)))
+
     graph_name = mapry.py.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From e74f26cac31d2c1d0fb3b83df39863679c46b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:31 +0000
Subject: [PATCH 37/38] fix: report the patterns which Go and C++ can not
 express

Constructs of regular expressions such as look-aheads in Go and named
groups in C++ gave code that panics or throws when it starts, or which
reads the pattern differently.
---
 mapry/cpp/validation.py |  36 +++++++
 mapry/go/validation.py  |  36 +++++++
 mapry/pattern.py        | 218 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 290 insertions(+)
 create mode 100644 mapry/pattern.py

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 7e78a2b..6d637b4 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -5,6 +5,7 @@ from typing import (  # pylint: disable=unused-import
 import mapry
 import mapry.cpp
 import mapry.cpp.naming
+import mapry.pattern
 import mapry.validation
 
 _KEYWORDS = {
@@ -258,6 +259,39 @@ def _validate_bounds(graph: mapry.Graph
     return errs
 
 
+def _validate_patterns(graph: mapry.Graph
+                       ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the patterns mean the same in C++ as in the schema.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, if any
+    """
+    patterns = []  # type: List[Tuple[str, str]]
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if (isinstance(a_type, (mapry.String, mapry.Path))
+                and a_type.pattern is not None):
+            patterns.append((a_type.pattern.pattern, ref))
+
+    for cls in graph.classes.values():
+        if cls.id_pattern is not None:
+            patterns.append((cls.id_pattern.pattern,
+                             "{}/id_pattern".format(cls.ref)))
+
+    errs = []  # type: List[mapry.validation.SchemaError]
+    for pattern, ref in patterns:
+        unsupported = mapry.pattern.unsupported_in_cpp(pattern=pattern)
+        if unsupported is not None:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The pattern {!r} can not be used in C++ "
+                        "because of {!r}").format(pattern, unsupported),
+                    ref=ref))
+
+    return errs
+
+
 def _validate_nesting(graph: mapry.Graph
                       ) -> List[mapry.validation.SchemaError]:
     """
@@ -462,4 +496,6 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check that the bounds can be represented
     errs.extend(_validate_bounds(graph=schema.graph))
 
+    errs.extend(_validate_patterns(graph=schema.graph))
+
     return errs
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index aa581f5..26f1d8c 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -5,6 +5,7 @@ from typing import (  # pylint: disable=unused-import
 import mapry
 import mapry.go.timeformat
 import mapry.naming
+import mapry.pattern
 import mapry.validation
 
 _KEYWORDS = {
@@ -311,6 +312,39 @@ def _validate_bounds(graph: mapry.Graph
     return errs
 
 
+def _validate_patterns(graph: mapry.Graph
+                       ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the patterns mean the same in Go as in the schema.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, if any
+    """
+    patterns = []  # type: List[Tuple[str, str]]
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if (isinstance(a_type, (mapry.String, mapry.Path))
+                and a_type.pattern is not None):
+            patterns.append((a_type.pattern.pattern, ref))
+
+    for cls in graph.classes.values():
+        if cls.id_pattern is not None:
+            patterns.append((cls.id_pattern.pattern,
+                             "{}/id_pattern".format(cls.ref)))
+
+    errs = []  # type: List[mapry.validation.SchemaError]
+    for pattern, ref in patterns:
+        unsupported = mapry.pattern.unsupported_in_go(pattern=pattern)
+        if unsupported is not None:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The pattern {!r} can not be used in Go "
+                        "because of {!r}").format(pattern, unsupported),
+                    ref=ref))
+
+    return errs
+
+
 def _validate_nesting(graph: mapry.Graph
                       ) -> List[mapry.validation.SchemaError]:
     """
@@ -444,6 +478,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check that the bounds can be represented
     errs.extend(_validate_bounds(graph=schema.graph))
 
+    errs.extend(_validate_patterns(graph=schema.graph))
+
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
     return errs
diff --git a/mapry/pattern.py b/mapry/pattern.py
new file mode 100644
index 0000000..0beb86f
--- /dev/null
+++ b/mapry/pattern.py
@@ -0,0 +1,218 @@
+"""Break regular expressions into tokens to see what the languages support."""
+import re
+from typing import (  # pylint: disable=unused-import
+    Iterable, Iterator, List, Optional, Tuple)
+
+_TOKEN_RE = re.compile(
+    r'(?P<escape>\\(?:N\{[^}]*\}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}'
+    r'|U[0-9a-fA-F]{8}|0[0-7]{0,2}|[0-3][0-7]{2}|[1-9][0-9]?|.))'
+    r'|(?P<group>\((?:\?(?:P<\w+>|P=\w+\)|\#[^)]*\)|\(\w+\)|[a-zA-Z-]+[:)]'
+    r'|<?[=!]|[:>]))?)'
+    r'|(?P<close>\))'
+    r'|(?P<class>\[\^?(?P<bracket>\]?))'
+    r'|(?P<quantifier>(?:[*+?]|\{(?:[0-9]+(?:,[0-9]*)?|,[0-9]*)\})[+?]?)'
+    r'|(?P<character>.)', re.DOTALL)
+
+_CLASS_TOKEN_RE = re.compile(
+    r'(?P<escape>\\(?:N\{[^}]*\}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}'
+    r'|U[0-9a-fA-F]{8}|[0-7]{1,3}|.))'
+    r'|(?P<collating>\[[:.=])'
+    r'|(?P<end>\])'
+    r'|(?P<character>.)', re.DOTALL)
+
+
+class Token:
+    """Represent a token of a regular expression."""
+
+    def __init__(self, kind: str, text: str, in_class: bool) -> None:
+        """
+        Initialize with the given values.
+
+        :param kind: name of the group in the regular expressions above
+        :param text: of the token
+        :param in_class: set if the token is a part of a character class
+        """
+        self.kind = kind
+        self.text = text
+        self.in_class = in_class
+
+
+def tokenize(pattern: str) -> List[Token]:
+    r"""
+    Break the pattern, assumed to be valid in Python, into tokens.
+
+    :param pattern: of a regular expression
+    :return: tokens in the order of the pattern
+
+    >>> [token.text for token in tokenize(r'^(?:a|\.b)[^]\d]{2,}?$')]
+    ['^', '(?:', 'a', '|', '\\.', 'b', ')', '[^]', '\\d', ']', '{2,}?', '$']
+
+    >>> [token.kind for token in tokenize('a{,3}')]
+    ['character', 'quantifier']
+    """
+    result = []  # type: List[Token]
+
+    in_class = False
+    position = 0
+    while position < len(pattern):
+        token_re = _CLASS_TOKEN_RE if in_class else _TOKEN_RE
+        mtch = token_re.match(pattern, position)
+        assert mtch is not None, "Unexpected text in the pattern {!r}: {}".format(
+            pattern, pattern[position:])
+
+        kind = next(
+            name for name, value in mtch.groupdict().items()
+            if value is not None and name != 'bracket')
+        result.append(Token(kind=kind, text=mtch.group(), in_class=in_class))
+
+        if kind == 'class':
+            in_class = True
+        elif kind == 'end':
+            in_class = False
+
+        position = mtch.end()
+
+    return result
+
+
+def repetitions(tokens: Iterable[Token]) -> int:
+    """
+    Compute how often a part of the pattern is repeated due to the counts.
+
+    :param tokens: of the pattern
+    :return: the largest product of the nested counts
+
+    >>> repetitions(tokenize('(a{3}b){2}c{4}'))
+    6
+    """
+    # Largest product in each of the open groups
+    stack = [1]
+    last = 1
+    for token in tokens:
+        if token.kind == 'group' and not token.text.endswith(')'):
+            stack.append(1)
+        elif token.kind == 'close':
+            last = stack.pop()
+            stack[-1] = max(stack[-1], last)
+        elif token.kind == 'quantifier':
+            counts = [int(count) for count in re.findall('[0-9]+', token.text)]
+            last *= max(counts + [1])
+            stack[-1] = max(stack[-1], last)
+        elif token.kind not in ['class', 'end'] and not token.in_class:
+            last = 1
+        elif token.kind == 'end':
+            last = 1
+        else:
+            # Proceed to the end of the character class.
+            pass
+
+    return stack[0]
+
+
+_GO_GROUP_RE = re.compile(r'^\((\?(:|P<[a-zA-Z0-9_]+>|-?[ims]+(-[ims]+)?[:)]))?\Z')
+
+
+def unsupported_in_go(pattern: str) -> Optional[str]:
+    r"""
+    Find the first part of the pattern which can not be used in Go.
+
+    :param pattern: of a regular expression
+    :return: part of the pattern, or None if the pattern means the same in Go
+
+    >>> unsupported_in_go(r'^(?P<x>[a-z]+)\.\d{2}$')
+    >>> unsupported_in_go('^(?!x)[a-z]+$')
+    '(?!'
+    """
+    tokens = tokenize(pattern=pattern)
+    for token in tokens:
+        if token.kind == 'escape':
+            if (token.text[1] in 'uUNZ' or ord(token.text[1]) >= 0x80
+                    or re.match(r'^\\[1-9][0-9]?\Z', token.text)):
+                return token.text
+
+            if token.in_class and token.text == r'\b':
+                return token.text
+
+        elif token.kind == 'group':
+            if not _GO_GROUP_RE.match(token.text):
+                return token.text
+
+        elif token.kind == 'quantifier':
+            if token.text.startswith('{,') or (len(token.text) > 1
+                                               and token.text[-1] == '+'):
+                return token.text
+
+        elif token.kind == 'collating':
+            if token.text == '[:':
+                return token.text
+
+        else:
+            # The remaining tokens mean the same.
+            pass
+
+    # The limit is given in the package regexp/syntax.
+    if repetitions(tokens=tokens) > 1000:
+        return pattern
+
+    return None
+
+
+def unsupported_in_cpp(pattern: str) -> Optional[str]:
+    r"""
+    Find the first part of the pattern which can not be used in C++.
+
+    C++ matches the bytes of the texts so that characters which consist of
+    multiple bytes must neither be repeated nor be a part of a character class.
+
+    :param pattern: of a regular expression
+    :return: part of the pattern, or None if the pattern means the same in C++
+
+    >>> unsupported_in_cpp(r'^(?!x)([a-z]+)\.\d{2}$')
+    >>> unsupported_in_cpp(r'^(?P<x>[a-z]+)$')
+    '(?P<x>'
+    """
+    tokens = tokenize(pattern=pattern)
+    for i, token in enumerate(tokens):
+        if token.kind == 'escape':
+            if token.text[1] in 'UNAZa':
+                return token.text
+
+            if re.match(r'^\\(0[0-7]+|[0-7]{3})\Z', token.text) or (
+                    token.in_class and re.match(r'^\\[1-7]', token.text)):
+                return token.text
+
+            if (token.text[1] in 'xu' and len(token.text) > 2
+                    and int(token.text[2:], 16) >= 0x80):
+                return token.text
+
+        elif token.kind == 'group':
+            if token.text not in ['(', '(?:', '(?=', '(?!']:
+                return token.text
+
+        elif token.kind == 'quantifier':
+            if token.text.startswith('{,') or (len(token.text) > 1
+                                               and token.text[-1] == '+'):
+                return token.text
+
+            if ord(tokens[i - 1].text[-1]) >= 0x80:
+                return tokens[i - 1].text + token.text
+
+        elif token.kind == 'class':
+            if token.text.endswith(']'):
+                return token.text
+
+        elif token.kind == 'collating':
+            return token.text
+
+        elif token.kind == 'character':
+            if token.text == '{' and not token.in_class:
+                return token.text
+
+        else:
+            # The remaining tokens mean the same.
+            pass
+
+        if token.in_class and ord(token.text[-1]) >= 0x80:
+            return token.text
+
+    return None
-- 
2.43.0


From 7b638d92c4f1b8af09b73c65adb7dee09b92bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:50 +0000
Subject: [PATCH 38/38] fix: import datetime where containers of time zones are
 annotated

With timezone_as pytz.timezone, arrays and maps of time zones are annotated
as containers of datetime.tzinfo in fromjsonable.py, but datetime was not
imported, so mypy rejected the module.
---
 mapry/py/generate/fromjsonable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index d4891ba..eb70ad4 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -44,6 +44,14 @@ def _imports(graph: mapry.Graph, py: mapry.Py) -> str:
             third_party_block.update(
                 ('import pytz', 'import pytz.exceptions  # type: ignore'))
 
+            # Arrays and maps of time zones are annotated as containers of
+            # ``datetime.tzinfo``.
+            for a_type, _ in mapry.iterate_over_types(graph=graph):
+                if (isinstance(a_type, (mapry.Array, mapry.Map))
+                        and isinstance(a_type.values, mapry.TimeZone)):
+                    stdlib_block.add('import datetime')
+                    break
+
         else:
             raise NotImplementedError(
                 'Unhandled timezone_as: {}'.format(py.timezone_as))
-- 
2.43.0

