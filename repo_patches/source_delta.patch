From 37c12b3502bd1a14e0cabe5248387938bacbee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 01/24] fix: generate ints when the declared bound lies beyond
 the default range

---
 d42/generation/_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..62ea244 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -70,6 +70,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        if schema.props.max is Nil:
+            max_value = max(max_value, min_value)
+        elif schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
-- 
2.43.0


From 54cf2c0ff5e620a104a0311aec1f017811b135ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 02/24] fix: generate floats when the declared bound lies
 beyond the default range

---
 d42/generation/_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 62ea244..451cf40 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -82,6 +82,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        if schema.props.max is Nil:
+            max_value = max(max_value, min_value)
+        elif schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
-- 
2.43.0


From 3e973f8be44a3502d74d7e76e4162e68dd69fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 03/24] fix: generate strings when the minimum length exceeds
 the default maximum

---
 d42/generation/_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 451cf40..73d7e75 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -105,6 +105,8 @@ class Generator(SchemaVisitor[Any]):
         else:
             min_length = schema.props.min_len if (schema.props.min_len is not Nil) else STR_LEN_MIN
             max_length = schema.props.max_len if (schema.props.max_len is not Nil) else STR_LEN_MAX
+            if schema.props.max_len is Nil:
+                max_length = max(max_length, min_length)
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
-- 
2.43.0


From 60692e6e5241ef677c092f4aca5d0e4408d47b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 04/24] fix: generate lists when the minimum length exceeds the
 default maximum

---
 d42/generation/_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 73d7e75..e851158 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -147,6 +147,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
+            else:
+                max_length = max(max_length, min_length)
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.type is not Nil:
-- 
2.43.0


From a9ae442cbc2b577fd2f89692f44e990fa22a7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 05/24] fix: generate an empty string from an empty alphabet

---
 d42/generation/_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index e851158..094139b 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -100,6 +100,9 @@ class Generator(SchemaVisitor[Any]):
         if schema.props.pattern is not Nil:
             return self._regex_generator.generate(schema.props.pattern)
 
+        if schema.props.alphabet == "":
+            return ""
+
         if schema.props.len is not Nil:
             length = schema.props.len
         else:
-- 
2.43.0


From 4e04bfda393e6833c762460948b61567a271e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 06/24] fix: generate the elements `...` stands for when a list
 length is declared

---
 d42/generation/_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 094139b..d808393 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -135,6 +135,13 @@ class Generator(SchemaVisitor[Any]):
                 if is_ellipsis(elem):
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
+
+            min_length = schema.props.len if (schema.props.len is not Nil) else schema.props.min_len
+            if (min_length is not Nil) and (len(elements) < min_length):
+                padding: List[Any] = [[] for _ in range(min_length - len(elements))]
+                if is_ellipsis(schema.props.elements[-1]):
+                    return elements + padding
+                return padding + elements
             return elements
 
         is_length_specified = False
-- 
2.43.0


From 871f185d6aa0ac90eba28d60ee635ee0bf6002fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 07/24] fix: keep random floats within infinite, huge or tiny
 ranges

---
 d42/generation/_random.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..d6a9362 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,6 @@
 import random
+import sys
+from math import isinf
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -21,7 +23,15 @@ class Random:
             raise ValueError("random_float: start must be <= end")
 
         if precision is Nil:
-            return random.uniform(start, end)
+            if start == end:
+                return start
+            start = max(start, -sys.float_info.max)
+            end = min(end, sys.float_info.max)
+            if isinf(end - start):
+                number = random.uniform(start / 2, end / 2) * 2
+            else:
+                number = random.uniform(start, end)
+            return min(max(number, start), end)
 
         scale_factor = 10 ** precision
         left_number = int(start * scale_factor)
-- 
2.43.0


From 0b1b35f770f351595ddea677f2978d6ecf7b28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 08/24] fix: keep floats generated with a precision within the
 declared bounds

---
 d42/generation/_random.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index d6a9362..1c2a758 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,6 +1,7 @@
 import random
 import sys
-from math import isinf
+from fractions import Fraction
+from math import ceil, floor, isinf
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -34,8 +35,12 @@ class Random:
             return min(max(number, start), end)
 
         scale_factor = 10 ** precision
-        left_number = int(start * scale_factor)
-        right_number = int(end * scale_factor)
+        left_bound = max(start, -sys.float_info.max)
+        right_bound = min(end, sys.float_info.max)
+        left_number = ceil(Fraction(left_bound) * scale_factor)
+        right_number = floor(Fraction(right_bound) * scale_factor)
+        if left_number > right_number:
+            return self.random_float(start, end)
 
         result = cast(float, self.random_int(left_number, right_number) / scale_factor)
         return round(result, precision)
-- 
2.43.0


From 484fafbfcb56ddad50197378ff0d76816eb25a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 09/24] fix: validate floats with a precision when scaling them
 overflows

---
 d42/validation/_validator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..c1f4a68 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isfinite
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -170,9 +170,12 @@ class Validator(SchemaVisitor[ValidationResult]):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
             else:
                 scale_factor = 10 ** schema.props.precision
-                scaled_actual = round(value * scale_factor)
-                scaled_expected = round(schema.props.value * scale_factor)
-                if not isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0):
+                actual, expected = value * scale_factor, schema.props.value * scale_factor
+                if isfinite(actual) and isfinite(expected):
+                    is_equal = round(actual) == round(expected)
+                else:
+                    is_equal = value == schema.props.value
+                if not is_equal:
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-- 
2.43.0


From 36af9a392fdcf9793bb586e906cfdc41fd4174ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 10/24] fix: keep {m,44} bounded: 44 is also the number of the
 MAX_REPEAT opcode

---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From 6618f15b174a0e84cab0edf1e41b99f926ca0ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 11/24] fix: make negated classes independent of the hash seed

---
 d42/generation/_regex_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..f7acd5e 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,7 +104,9 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
-        return self._random.random_choice(letters)
+        # the order of a set depends on the hash seed, the drawn position does not
+        position = letters.index(self._random.random_choice(letters))
+        return sorted(letters)[position]
 
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
-- 
2.43.0


From 08cc203f6e6862df33144ad5d214c13442370169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 12/24] fix: generate from negated classes that exclude the
 whole alphabet

---
 d42/generation/_regex_generator.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index f7acd5e..d3da455 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,10 +104,25 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
+        if letters == "":
+            return self._generate_outside(value, exclude_letters)
         # the order of a set depends on the hash seed, the drawn position does not
         position = letters.index(self._random.random_choice(letters))
         return sorted(letters)[position]
 
+    def _generate_outside(self, value: List[Any], exclude_letters: str) -> str:
+        categories = [val for opcode, val in value if opcode == CATEGORY]
+        excluded = set(exclude_letters)
+        for letter in map(chr, range(sys.maxunicode + 1)):
+            if letter in excluded:
+                continue
+            if (CATEGORY_DIGIT in categories) and letter.isdecimal():
+                continue
+            if (CATEGORY_WORD in categories) and (letter.isalnum() or letter == "_"):
+                continue
+            return letter
+        raise ValueError("Negated class excludes every character")
+
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
 
-- 
2.43.0


From ce3fd754cb9fcdaebd21365263ed02376bebd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 13/24] fix: refuse to substitute a value no alternative of any
 can take

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..312484a 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -204,6 +204,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+            if len(types) == 0:
+                raise SubstitutionError("Can't substitute into any of the types")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From cb7d668aced0fcc5433be42b13c8fe01d0164f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 14/24] fix: substitute into the window of [..., x, ...] the
 value conforms to

---
 d42/substitution/_substitutor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 312484a..039986f 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -34,6 +34,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                  formatter: Optional[Formatter] = None) -> None:
         self._validator = validator or SubstitutorValidator()
         self._formatter = formatter or Formatter()
+        self._value_validator = Validator()
 
     @property
     def validator(self) -> Validator:
@@ -49,6 +50,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         except ValueError:
             raise SubstitutionError(f"Can't convert {value!r} to schema")
 
+    def _accepts(self, schema: GenericSchema, value: Any) -> bool:
+        return not schema.__accept__(self._value_validator, value=value).has_errors()
+
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
             return cast(GenericSchema, substitute_method(self, value=value, **kwargs))
@@ -137,13 +141,20 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         # body
         if (len(elements) > 2) and is_ellipsis(elements[0]) and is_ellipsis(elements[-1]):
+            candidates: List[ListSchema] = []
             for index, val in enumerate(value):
                 try:
                     substituted = self._substitute_elements(value, elements[1:-1], index, **kwargs)
                 except SubstitutionError:
                     pass
                 else:
-                    return schema.__class__(schema.props.update(elements=substituted))
+                    candidate = schema.__class__(schema.props.update(elements=substituted))
+                    if self._accepts(candidate, value):
+                        return candidate
+                    candidates.append(candidate)
+            if len(candidates) == 0:
+                raise SubstitutionError("Can't find the declared elements in the list")
+            return candidates[0]
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From de1b59b61142ac09a604ed2be80fd13e0fee97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 15/24] fix: keep any from dropping the type the substituted
 value conforms to

---
 d42/substitution/_substitutor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 039986f..ba1dd56 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -210,14 +210,17 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         else:
             for sch_type in schema.props.types:
                 try:
-                    substituted = sch_type.__accept__(self, value=value, **kwargs)
+                    type_schema = sch_type.__accept__(self, value=value, **kwargs)
                 except SubstitutionError:
                     pass
                 else:
-                    types.append(substituted)
+                    types.append(type_schema)
             if len(types) == 0:
                 raise SubstitutionError("Can't substitute into any of the types")
-        return schema.__class__(schema.props.update(types=tuple(types)))
+        substituted = schema.__class__(schema.props.update(types=tuple(types)))
+        if self._accepts(schema, value) and not self._accepts(substituted, value):
+            raise SubstitutionError("Can't substitute into the type the value conforms to")
+        return substituted
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
         result = schema.__accept__(self._validator, value=value)
-- 
2.43.0


From 38407226604d1691031237ae30a3299f74b29c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 16/24] fix: generate floats with a precision when a bound is
 infinite on the far side or nan

---
 d42/generation/_random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index 1c2a758..46ff402 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -37,6 +37,8 @@ class Random:
         scale_factor = 10 ** precision
         left_bound = max(start, -sys.float_info.max)
         right_bound = min(end, sys.float_info.max)
+        if not (left_bound <= right_bound):
+            return self.random_float(start, end)
         left_number = ceil(Fraction(left_bound) * scale_factor)
         right_number = floor(Fraction(right_bound) * scale_factor)
         if left_number > right_number:
-- 
2.43.0


From 7693fa13d865d860b1a61a4e03a2c68c62d54bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 17/24] fix: let a float schema fixed to nan accept nan

---
 d42/validation/_validator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index c1f4a68..98c7ad5 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose, isfinite
+from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -165,9 +165,10 @@ class Validator(SchemaVisitor[ValidationResult]):
             return result.add_error(error)
 
         if schema.props.value is not Nil:
-            if schema.props.precision is Nil:
-                if not isclose(value, schema.props.value):
-                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            if isnan(schema.props.value):
+                is_equal = isnan(value)
+            elif schema.props.precision is Nil:
+                is_equal = isclose(value, schema.props.value)
             else:
                 scale_factor = 10 ** schema.props.precision
                 actual, expected = value * scale_factor, schema.props.value * scale_factor
@@ -175,8 +176,8 @@ class Validator(SchemaVisitor[ValidationResult]):
                     is_equal = round(actual) == round(expected)
                 else:
                     is_equal = value == schema.props.value
-                if not is_equal:
-                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            if not is_equal:
+                return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
             if value < schema.props.min:
-- 
2.43.0


From ecdfd35d8dea3b65c8cc185c8336e94c6a92c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 18/24] fix: copy the elements passed to schema.list

---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..c13761b 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=list(elements_or_type)))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From 1debeaef248a86bf25c405cb564aa3cfa16053aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 19/24] fix: do not write dotted keys into the caller's nested
 dicts in rollout

---
 d42/utils/_rollout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d42/utils/_rollout.py b/d42/utils/_rollout.py
index e441b74..f989212 100644
--- a/d42/utils/_rollout.py
+++ b/d42/utils/_rollout.py
@@ -29,7 +29,8 @@ def rollout(keys: KeysType, *, separator: str = ".") -> KeysType:
         parts = comp_key.split(separator)
         key = parts[0]
         if len(parts) == 1:
-            updated[optional(key) if is_optional else key] = val
+            new_key = optional(key) if is_optional else key
+            updated[new_key] = dict(val) if isinstance(val, dict) else val
         else:
             if key not in updated:
                 updated[key] = {}
-- 
2.43.0


From 23afcdda77c56f6b477aea9dbd01c5a0fc9d068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 20/24] fix: exclude a whole category from negated classes
 whatever the alphabet

---
 d42/generation/_regex_generator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index d3da455..c25ad07 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -69,6 +69,11 @@ class RegexGenerator:
         else:
             raise ValueError(f"Unknown category {value}")
 
+    def _is_in_category(self, letter: str, value: Any) -> bool:
+        if value == CATEGORY_DIGIT:
+            return letter.isdecimal()
+        return letter.isalnum() or letter == "_"
+
     def _generate_any(self, value: None) -> str:
         return self._random.random_choice(self._alphabet["letters"])
 
@@ -100,6 +105,8 @@ class RegexGenerator:
                                                                                     max_ord + 1))
             elif opcode == CATEGORY:
                 exclude_letters += self._get_category_alphabet(val)
+                exclude_letters += "".join(x for x in self._alphabet["letters"]
+                                           if self._is_in_category(x, val))
             else:
                 exclude_letters += self._generate(opcode, val)
 
@@ -116,9 +123,7 @@ class RegexGenerator:
         for letter in map(chr, range(sys.maxunicode + 1)):
             if letter in excluded:
                 continue
-            if (CATEGORY_DIGIT in categories) and letter.isdecimal():
-                continue
-            if (CATEGORY_WORD in categories) and (letter.isalnum() or letter == "_"):
+            if any(self._is_in_category(letter, val) for val in categories):
                 continue
             return letter
         raise ValueError("Negated class excludes every character")
-- 
2.43.0


From 42b1e0b590b9e67b9391230e10d5da503dbf2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 21/24] fix: reject regex after a declared max_len

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..2cf70f6 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -179,7 +179,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From b7dc588cf9682d85b7260f444e76ec1250731ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 22/24] fix: rewrite only the import statement, not the whole
 lines it stands on

---
 d42/migration/migrate_v1_to_v2.py | 35 ++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..3b76291 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -1,8 +1,9 @@
 #!/usr/bin/env python3
 import ast
 import os
+import re
 from collections import defaultdict
-from typing import Dict, Tuple, Union
+from typing import Dict, List, Tuple, Union
 
 __all__ = ("migrate_v1_to_v2",)
 
@@ -135,8 +136,18 @@ mapping = {
 MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
+def _split_lines(source_code: str) -> List[str]:
+    # only these end a line of Python code (str.splitlines knows more separators)
+    return re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", source_code)
+
+
+def _get_offset(lines: List[str], line: int, column: int) -> int:
+    prefix = lines[line].encode("utf-8")[:column].decode("utf-8")  # ast counts columns in bytes
+    return sum(len(x) for x in lines[:line]) + len(prefix)
+
+
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
+    lines = _split_lines(source_code)
     tree = ast.parse(source_code)
     replacements = []
 
@@ -164,24 +175,24 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             replacement_lines = []
             for new_module, names in new_imports.items():
                 names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
+                replacement_lines.append(f'from {new_module} import {names_str}')
             if unmapped_names:
                 names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
+                replacement_lines.append(f'from {module} import {names_str}')
 
-            # Get line numbers
-            start_line = node.lineno - 1  # Convert to 0-based index
-            end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+            # Get offsets of the statement (there may be others on the same lines)
+            start = _get_offset(lines, node.lineno - 1, node.col_offset)
+            end = _get_offset(lines, node.end_lineno - 1, node.end_col_offset)  # type: ignore
+            replacements.append((start, end, "\n".join(replacement_lines)))
 
     if len(replacements) == 0:
         return None
 
-    # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    # Apply replacements in reverse order to maintain offsets
+    for start, end, replacement in reversed(replacements):
+        source_code = source_code[:start] + replacement + source_code[end:]
 
-    return ''.join(lines)
+    return source_code
 
 
 def process_file(filepath: str, mapping: MappingType) -> None:
-- 
2.43.0


From 653e1b43eb137c74d7155e61deb1223e069affc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:31 +0000
Subject: [PATCH 23/24] fix: refuse to substitute a value the [..., x, ...]
 window it conforms to can't take

---
 d42/substitution/_substitutor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index ba1dd56..4d5e9b4 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -152,7 +152,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     if self._accepts(candidate, value):
                         return candidate
                     candidates.append(candidate)
-            if len(candidates) == 0:
+            if (len(candidates) == 0) or self._accepts(schema, value):
                 raise SubstitutionError("Can't find the declared elements in the list")
             return candidates[0]
 
-- 
2.43.0


From 0900ec2f7483d2abd7a20f8056977fcf5aaf3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 24/24] fix: a schema that holds nan is equal to itself

Props compared its values with != alone, so schema.float(nan) was unequal to
itself and orders of the same refinements on it gave unequal schemas. As in the
built-in containers, an object now equals itself.
---
 d42/declaration/_props.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..735cb43 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -34,12 +34,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if (val is not other_val) and (val != other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if (other_val is not val) and (other_val != val):
                 return False
 
         return True
-- 
2.43.0

