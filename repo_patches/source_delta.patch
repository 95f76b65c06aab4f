From 840960b36561d723f0af737c1c57b8abafdd9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 01/33] fix: accept actions without precondition or effect

---
 pddl/_validation.py   | 6 ++++--
 pddl/parser/domain.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..cb0aaf2 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -305,8 +305,10 @@ class TypeChecker:
     def _(self, action: Action) -> None:
         """Check types annotations of a PDDL term."""
         self.check_type(action.parameters)
-        self.check_type(action.precondition)
-        self.check_type(action.effect)
+        if action.precondition is not None:
+            self.check_type(action.precondition)
+        if action.effect is not None:
+            self.check_type(action.effect)
 
 
 class Functions:
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..138e75e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -160,7 +160,9 @@ class DomainTransformer(Transformer[Any, Domain]):
         # process action body
         _children = args[5].children
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         return Action(action_name, variables, **action_body)
 
-- 
2.43.0


From 2c131ba04ad02f99f4fc29ef4c292d8c4f65e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 02/33] fix: parse empty precondition and effect as the empty
 conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 138e75e..17aa13f 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -231,7 +231,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -336,7 +336,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From f500411b906c599087469912dc198221657c1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 03/33] fix: print typed variables and parameters as parseable
 typed lists in a fixed order

---
 pddl/formatter.py     |  7 ++-----
 pddl/helpers/base.py  | 27 ++++++++++++++++++---------
 pddl/logic/base.py    | 11 ++---------
 pddl/logic/effects.py |  4 ++--
 4 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..ee7ea7e 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _type_tags_to_string
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -113,11 +114,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
     else:
         result += f"({function.name}"
         for t in function.terms:
-            result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                if t.type_tags
-                else f" ?{t.name}"
-            )
+            result += f" ?{t.name}{_type_tags_to_string(t.type_tags)}"
         result += ")"
     return result
 
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..07dcdaf 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -124,17 +124,26 @@ def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
     return next((i for i, x in enumerate(seq) if condition(x)), -1)
 
 
+def _type_tags_to_string(type_tags: Collection) -> str:
+    """Return the type annotation, either ' - type' or ' - (either type_1 ... type_n)'."""
+    tags = sorted(map(str, type_tags))
+    if len(tags) == 0:
+        return ""
+    if len(tags) == 1:
+        return f" - {tags[0]}"
+    return f" - (either {' '.join(tags)})"
+
+
 def _typed_parameters(parameters) -> str:
     """Return a list of parameters along with types if available."""
-    result = ""
-    for i, p in enumerate(parameters):
-        if i > 0:
-            result += " "
-        if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
-        else:
-            result += str(p)
-    return result.strip()
+    return " ".join(f"{p}{_type_tags_to_string(p.type_tags)}" for p in parameters)
+
+
+def _typed_variables(variables: Collection) -> str:
+    """Return a set of variables along with types; the untyped variables must come last."""
+    return _typed_parameters(
+        sorted(variables, key=lambda v: (len(v.type_tags) == 0, v))
+    )
 
 
 class RegexConstrainedString(str):
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..8368046 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -216,14 +216,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
-        return f"({self.SYMBOL} ({var_block}) {self.condition})"
+        return f"({self.SYMBOL} ({_typed_variables(self.variables)}) {self.condition})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..fae672d 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -15,7 +15,7 @@
 import functools
 from typing import AbstractSet, Collection, Optional, Union
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
@@ -98,7 +98,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_variables(self.variables)}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From be6edc259dc868b5fbdd154bae19d495eea6d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 04/33] fix: keep repeated operands of arithmetic expressions
 and do not flatten subtraction, division and comparison

---
 pddl/logic/base.py      | 2 +-
 pddl/logic/functions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 8368046..27d0160 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -298,7 +298,7 @@ def _simplify_monotone_op_operands(cls, *operands, idempotency: bool = False):
     while len(stack) > 0:
         element = stack.pop()
         if not isinstance(element, cls):
-            if element not in seen:
+            if not idempotency or element not in seen:
                 seen.add(element)
                 new_operands.append(element)
             continue
diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..779950c 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -249,7 +249,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -349,7 +349,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -391,7 +391,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 2001498f9f18524a1719d1d65ed0baf7ea0b17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 05/33] fix: accept binary minus in numeric and metric
 expressions

---
 pddl/parser/grammar.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..eb314e0 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -68,7 +68,6 @@ constant: NAME
             | LESSER_EQUAL_OP
 
 ?binary_op: multi_op
-          | MINUS
           | DIVIDE
 
 ?multi_op: TIMES
@@ -80,6 +79,7 @@ f_exp:      num_literal
       |     LPAR binary_op f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
       |     LPAR MINUS f_exp RPAR
+      |     LPAR MINUS f_exp f_exp RPAR
       |     f_head
 
 f_head:     NAME
@@ -133,6 +133,7 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
+            | LPAR MINUS metric_f_exp metric_f_exp RPAR
             | basic_function_term
             | NUMBER
 
-- 
2.43.0


From 78d4725fafa592d879809612c807a5d762179a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 06/33] fix: print numbers without exponent

---
 pddl/logic/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 779950c..ea588c6 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,6 +146,9 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
+        if isinstance(self._value, float):
+            # PDDL numbers have no exponent
+            return format(Decimal(repr(self._value)), "f")
         return str(self._value)
 
 
-- 
2.43.0


From d0dc929e8a2162ad4bd6ae1d71840619aac9cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 07/33] fix: parse numbers in metrics as numbers

---
 pddl/parser/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..26a3913 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -188,7 +188,7 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """Process the 'metric_f_exp' rule."""
         if len(args) == 1:
             if not isinstance(args[0], NumericFunction):
-                return NumericValue(args[0])
+                return NumericValue(self.num_literal(args))
             return args[0]
         op = None
         if args[1] == Symbols.MINUS.value:
-- 
2.43.0


From 25a8b1f5ec99e986b4a1cf7703f2aba00ef6109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 08/33] fix: print only declared types, and no supertype when
 there is no hierarchy

---
 pddl/formatter.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index ee7ea7e..ee9f6ff 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -134,22 +134,17 @@ def print_typed_lists(
             str(k) if k is not None else None: v for k, v in names_by_obj.items()
         }
 
-        # first print those types that have no parents
-        subtypes = set()
-        for subs in super_to_subs.values():
-            subtypes |= set(subs)
-
-        no_parents = set(super_to_subs.keys()) - subtypes
-        no_parents |= set(super_to_subs.get(None, []))
+        # first print those declared types that have no parents
+        no_parents = set(super_to_subs.get(None, []))
         no_parents |= set(super_to_subs.get("object", []))
-        no_parents.discard(None)
         no_parents.discard("object")
 
-        result += (
-            "\n    "
-            + " ".join(sorted(to_string(n) for n in no_parents))
-            + " - object\n"
-        )
+        result += "\n"
+        if no_parents:
+            result += "    " + " ".join(sorted(to_string(n) for n in no_parents))
+            # a supertype can only be written if there is a type hierarchy
+            has_hierarchy = any(parent is not None for parent in super_to_subs)
+            result += " - object\n" if has_hierarchy else "\n"
 
         # sort the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
         remaining = sorted(str(k) for k in super_to_subs if k not in ("object", None))
-- 
2.43.0


From 039bd508e4b61c0770de503f748b3cc6b20fb869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 09/33] fix: accept type hierarchies when typing is implied by
 another requirement

---
 pddl/_validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index cb0aaf2..8d24f3a 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -158,7 +158,10 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        if (
+            len(supertypes) > 0
+            and Requirements.TYPING not in _extend_domain_requirements(requirements)
+        ):
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From fca2400375e608f3a9e13581dca5ca8b6ca1ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 10/33] fix: treat an explicit root type as no supertype, as
 the parser does

---
 pddl/_validation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 8d24f3a..c49ce7b 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -100,6 +100,14 @@ class Types:
         if not skip_checks:
             self._check_types_dictionary(self._types, ensure_set(requirements))
 
+        # the root type is implicit: it is not declared, and it is not an explicit parent
+        object_name = name_type(Symbols.OBJECT.value)
+        self._types = {
+            type_: None if parent == object_name else parent
+            for type_, parent in self._types.items()
+            if type_ != object_name
+        }
+
     @property
     def raw(self) -> Dict[name_type, Optional[name_type]]:
         """Get the raw types dictionary."""
-- 
2.43.0


From 4b4d6da1dd4c405d5b88530919a3d5504839c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 11/33] fix: accept the root type object as type of a term

---
 pddl/_validation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index c49ce7b..a558fbb 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -60,6 +60,9 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
+            if type_tag == Symbols.OBJECT.value:
+                # the root type is always available
+                continue
             if type_tag is not None and type_tag not in all_types:
                 return term, type_tag
     return None
@@ -225,7 +228,10 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        # the root type is always available
+        if not self._types.all_types.issuperset(
+            set(type_tags) - {Symbols.OBJECT.value}
+        ):
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From 02915d1e2377c428df19c49815a05ff3a1adcd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 12/33] fix: walk the whole type hierarchy when checking
 derived predicates

---
 pddl/parser/domain.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 17aa13f..c96e423 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -78,9 +78,8 @@ class DomainTransformer(Transformer[Any, Domain]):
     @property
     def types_hierarchy(self) -> Mapping[name, Optional[name]]:
         """Return the read-only types hierarchy."""
-        if self._types is None:
-            raise RuntimeError("Types hierarchy is not available yet.")
-        return self._types
+        # the 'types' section is optional
+        return self._types if self._types is not None else {}
 
     def start(self, args):
         """Entry point."""
@@ -535,16 +534,20 @@ class DomainTransformer(Transformer[Any, Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
+            visited: Set[name] = set()
             parent_type: Optional[name] = left_type
             while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
+                # cycles in the hierarchy are reported when the domain is built
+                visited.add(parent_type)
+                parent_type = self.types_hierarchy.get(parent_type, None)
+                if parent_type in visited:
+                    parent_type = None
 
             if parent_type is None:
                 raise PDDLParsingError(
-- 
2.43.0


From 1912fd439febad2b6d6e5a362297ecf8d670066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 13/33] fix: compare type tags only between occurrences of the
 same variable

---
 pddl/logic/predicates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..3d86909 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -27,10 +27,12 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables with the same name must have the same type tags.
     """
     seen: Dict[name, Set[name]] = {}
     for term in terms:
+        if not isinstance(term, Variable):
+            continue
         if term.name not in seen:
             seen[term.name] = set(term.type_tags)
         else:
-- 
2.43.0


From 3b5163723dddefd4fd25ad1ea8b5fa4501426f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 14/33] fix: reset the parser state before parsing a text

---
 pddl/parser/base.py    | 2 ++
 pddl/parser/domain.py  | 3 +++
 pddl/parser/plan.py    | 3 +++
 pddl/parser/problem.py | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..a288a68 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -43,6 +43,8 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        # the transformer is stateful: the outcome must not depend on previously parsed texts
+        self._transformer.reset()  # type: ignore
         return self._call_parser(text, self._parser)
 
     @classmethod
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index c96e423..a1344b0 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -66,7 +66,10 @@ class DomainTransformer(Transformer[Any, Domain]):
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Forget everything about previously parsed texts."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/plan.py b/pddl/parser/plan.py
index 2da1d83..26e5c0d 100644
--- a/pddl/parser/plan.py
+++ b/pddl/parser/plan.py
@@ -28,6 +28,9 @@ class PlanTransformer(Transformer[Any, Plan]):
         """Initialize the plan transformer."""
         super().__init__()
 
+    def reset(self) -> None:
+        """Forget everything about previously parsed texts."""
+
     def ground_action(self, args):
         """Process the 'ground_action' rule."""
         action_name = args[1]
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index 26a3913..513c44f 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -46,6 +46,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         super().__init__()
 
         self._domain_transformer = DomainTransformer()
+        self.reset()
+
+    def reset(self) -> None:
+        """Forget everything about previously parsed texts."""
+        self._domain_transformer.reset()
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
-- 
2.43.0


From bed6204d1e8072996caf4d9c845313c15bed6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 15/33] fix: restore the traceback limit after parsing

---
 pddl/parser/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a288a68..df2cd63 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -60,12 +60,14 @@ class BaseParser(Transformer[Any, T], ABC):
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
+        has_tracebacklimit = hasattr(sys, "tracebacklimit")
         old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
             sys.tracebacklimit = 0  # noqa
             result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
         finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
+            if has_tracebacklimit:
+                sys.tracebacklimit = old_tracebacklimit  # type: ignore
+            else:
+                del sys.tracebacklimit
         return result
-- 
2.43.0


From d498219202ab5c734dd3ac98a573e5ae0043d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 16/33] fix: keep action parameters out of the derived
 predicates that follow

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index a1344b0..4a2ae91 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -166,6 +166,8 @@ class DomainTransformer(Transformer[Any, Domain]):
             for i in range(0, len(_children), 2)
             if _children[i] is not None
         }
+        # the parameters are not visible outside of the action
+        self._current_parameters_by_name = {}
         return Action(action_name, variables, **action_body)
 
     def derived_predicates(self, args):
-- 
2.43.0


From 820a7d2e27df2251577130705129d882e4516d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:15 +0000
Subject: [PATCH 17/33] fix: give quantified variables the types of their
 innermost quantifier

---
 pddl/parser/_update_type_tags.py | 276 +++++++++++++++++--------------
 pddl/parser/domain.py            |  12 +-
 2 files changed, 159 insertions(+), 129 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index ea422f5..05c20a8 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,127 +1,149 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when(
+    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return When(
+        _update_type_tags(effect.condition, var_to_types),
+        _update_type_tags(effect.effect, var_to_types),
+    )
+
+
+@_update_type_tags.register
+def _update_type_tags_forall(
+    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in effect.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(effect.effect, new_var_to_types)
+    return Forall(new_effect, list(effect.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 4a2ae91..db6a6ba 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -293,7 +293,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         ):
             raise PDDLMissingRequirementError(req)
         variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-        condition = args[5]
+        condition = update_type_tags(args[5], self._types_by_name(variables))
         return cond_class(cond=condition, variables=variables)
 
     def gd_comparison(self, args):
@@ -358,7 +358,8 @@ class DomainTransformer(Transformer[Any, Domain]):
             return args[0]
         if args[1] == Symbols.FORALL.value:
             variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-            return Forall(effect=args[-2], variables=variables)
+            effect = update_type_tags(args[-2], self._types_by_name(variables))
+            return Forall(effect=effect, variables=variables)
         if args[1] == Symbols.WHEN.value:
             return When(args[2], args[3])
         if args[1] == Symbols.ONEOF.value:
@@ -397,6 +398,13 @@ class DomainTransformer(Transformer[Any, Domain]):
         else:
             raise PDDLParsingError(f"Unrecognized assign operator: {args[1]}")
 
+    @staticmethod
+    def _types_by_name(
+        variables: Sequence[Variable],
+    ) -> Dict[str, Optional[FrozenSet[str]]]:
+        """Get the type tags to be given to the occurrences of the variables bound by a quantifier."""
+        return {var.name: frozenset(var.type_tags) for var in variables}
+
     def _constant_or_variable(self, t):
         """Get the constant or variable with the given name."""
         # Case where the term is a free variable (bug) or comes from a parent quantifier
-- 
2.43.0


From f585a372ef2fe8108ac70d1a176c4924fe211251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:15 +0000
Subject: [PATCH 18/33] fix: do not replace the variables bound by a quantifier
 on instantiation

---
 pddl/logic/base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 27d0160..150997a 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -212,7 +212,10 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        return type(self)(
+            self.condition.instantiate(_free_mapping(mapping, self.variables)),
+            self.variables,
+        )
 
     def __str__(self) -> str:
         """Get the string representation."""
@@ -253,6 +256,18 @@ class ExistsCondition(QuantifiedCondition):
     SYMBOL = Symbols.EXISTS.value
 
 
+def _free_mapping(
+    mapping: Mapping[Variable, Term], bound_variables: AbstractSet[Variable]
+) -> Mapping[Variable, Term]:
+    """Restrict a mapping to the variables that are not bound by a quantifier."""
+    bound_names = {variable.name for variable in bound_variables}
+    return {
+        variable: term
+        for variable, term in mapping.items()
+        if variable.name not in bound_names
+    }
+
+
 def ensure_formula(f: Optional[Formula], is_none_true: bool) -> Formula:
     """
     Ensure the argument is a formula.
-- 
2.43.0


From 31b08d5ca8d9e75e323c9df22ae4085c45478b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:15 +0000
Subject: [PATCH 19/33] fix: instantiate conditional and universal effects

---
 pddl/logic/effects.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index fae672d..d2242d1 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,13 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
-from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.base import And, Atomic, Formula, Not, OneOf, _free_mapping
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +48,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +103,13 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return Forall(
+            self.effect.instantiate(_free_mapping(mapping, self.variables)),
+            self.variables,
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.FORALL.value} ({_typed_variables(self.variables)}) {self.effect})"
-- 
2.43.0


From 99f91798943fa8d3e0b6f627604c63d54f523fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 20/33] fix: accept every condition in problem goals

---
 pddl/parser/problem.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index 513c44f..681784f 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -51,6 +51,8 @@ class ProblemTransformer(Transformer[Any, Problem]):
     def reset(self) -> None:
         """Forget everything about previously parsed texts."""
         self._domain_transformer.reset()
+        # the constructs allowed in the goal depend on the domain, which is not known here
+        self._domain_transformer._extended_requirements = set(Requirements)
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
@@ -102,6 +104,14 @@ class ProblemTransformer(Transformer[Any, Problem]):
         assert_(len(names) == 1)
         return str(names[0])
 
+    def typed_list_variable(self, args):
+        """Process the 'typed_list_variable' rule."""
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
+
     def init(self, args):
         """Process the 'init' rule."""
         flat_args = [
-- 
2.43.0


From c6ba0eff168e6eccc765785cc7cc4be818bc4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 21/33] fix: leave the problem unchanged when attaching a
 domain fails

---
 pddl/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..9e6aa12 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -319,9 +319,14 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
+        previous = self._domain_name, self._domain
         self._domain_name = domain.name
         self._domain = domain
-        self._check_consistency()
+        try:
+            self._check_consistency()
+        except Exception:
+            self._domain_name, self._domain = previous
+            raise
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0


From c5dc5bede6b5c24de3874c8e030af718fb9c4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:38 +0000
Subject: [PATCH 22/33] fix: do not share the collections of the caller in
 domains and plans

---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index a558fbb..fde0b30 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -338,7 +338,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index 9e6aa12..f063796 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -406,7 +406,9 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: list[Tuple[namelike, List["Constant"]]] = [
+            (action_name, list(parameters)) for action_name, parameters in actions
+        ]
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From 353887274bddcfc6cd78dce0fdecb0078fa23802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 23/33] fix: check the types of functions and derived predicate
 conditions

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index f063796..4d463a4 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -94,6 +94,8 @@ class Domain:
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._functions.raw.keys())
+        type_checker.check_type(self._derived_predicates)
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From a8e53ae6e7513f725e339d34a17472634db742b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 24/33] fix: make the order of requirements strict

---
 pddl/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From 3e09e5e9e5f662247cce625e8f84766b8e76f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 25/33] fix: compare the conditions of derived predicates

---
 pddl/logic/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index 3d86909..a6ab6f6 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -227,7 +227,7 @@ class DerivedPredicate(Atomic):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
-            return (self.predicate, self._predicate) < (
+            return (self.predicate, self.condition) < (
                 other.predicate,
                 other.condition,
             )
-- 
2.43.0


From c7cda1fc9f6f4bbd17cacf95b5d97d9e75d6cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 26/33] fix: validate the action names of plans

---
 pddl/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 4d463a4..5b50fd2 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -409,7 +409,8 @@ class Plan:
         :param actions: the actions of the plan.
         """
         self._actions: list[Tuple[namelike, List["Constant"]]] = [
-            (action_name, list(parameters)) for action_name, parameters in actions
+            (parse_name(action_name), list(parameters))
+            for action_name, parameters in actions
         ]
 
     @property
-- 
2.43.0


From d218e8cf900eb332265ad7d20a5c0e8fd1c0d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 27/33] fix: report duplicate functions as a parsing error

---
 pddl/parser/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index db6a6ba..8e2537d 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -519,7 +519,7 @@ class DomainTransformer(Transformer[Any, Domain]):
 
     def _raise_typed_list_parsing_error(self, args, exception) -> PDDLParsingError:
         string_list = [
-            str(arg) if isinstance(arg, str) else list(map(str, arg)) for arg in args
+            list(map(str, arg)) if isinstance(arg, list) else str(arg) for arg in args
         ]
         return PDDLParsingError(
             f"error while parsing tokens {string_list}: {str(exception)}"
-- 
2.43.0


From a6ae89f5b12caaaa4cdeb3416f348de67a302fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 28/33] fix: keep the decimal point of large numbers when
 printing

---
 pddl/logic/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index ea588c6..683f52b 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -148,7 +148,8 @@ class NumericValue(FunctionExpression):
         """Get the string representation."""
         if isinstance(self._value, float):
             # PDDL numbers have no exponent
-            return format(Decimal(repr(self._value)), "f")
+            result = format(Decimal(repr(self._value)), "f")
+            return result if "." in result else f"{result}.0"
         return str(self._value)
 
 
-- 
2.43.0


From 4a1a89b7b66db2fc0d053778b947709915753fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 29/33] fix: restore the traceback limit when texts are parsed
 in several threads

---
 pddl/parser/base.py | 50 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index df2cd63..5e63d6e 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -13,6 +13,7 @@
 """Base classes for PDDL parsers."""
 
 import sys
+import threading
 from abc import ABC
 from typing import Any, Type, TypeVar, cast
 
@@ -23,6 +24,42 @@ from pddl.parser import GRAMMAR_FILE, PARSERS_DIRECTORY
 T = TypeVar("T")
 
 
+class _NoTraceback:
+    """
+    Set sys.tracebacklimit to 0 while any thread is parsing.
+
+    The first thread to enter stores the value of the interpreter, the last to leave restores it.
+    """
+
+    def __init__(self) -> None:
+        """Initialize the context manager."""
+        self._lock = threading.Lock()
+        self._users = 0
+        self._old: Any = None
+
+    def __enter__(self) -> None:
+        """Suppress the traceback."""
+        with self._lock:
+            if self._users == 0:
+                self._old = vars(sys).get("tracebacklimit", self)
+                sys.tracebacklimit = 0
+            self._users += 1
+
+    def __exit__(self, *_: Any) -> None:
+        """Restore the value of the interpreter."""
+        with self._lock:
+            self._users -= 1
+            if self._users > 0:
+                return
+            if self._old is self:
+                vars(sys).pop("tracebacklimit", None)
+            else:
+                sys.tracebacklimit = self._old
+
+
+_no_traceback = _NoTraceback()
+
+
 class BaseParser(Transformer[Any, T], ABC):
     """Base class for PDDL parsers."""
 
@@ -60,14 +97,5 @@ class BaseParser(Transformer[Any, T], ABC):
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
-        has_tracebacklimit = hasattr(sys, "tracebacklimit")
-        old_tracebacklimit = getattr(sys, "tracebacklimit", None)
-        try:
-            sys.tracebacklimit = 0  # noqa
-            result = cast(T, parser.parse(text))
-        finally:
-            if has_tracebacklimit:
-                sys.tracebacklimit = old_tracebacklimit  # type: ignore
-            else:
-                del sys.tracebacklimit
-        return result
+        with _no_traceback:
+            return cast(T, parser.parse(text))
-- 
2.43.0


From 59307cda8f8e434e9a659686790e803ae3fd6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 30/33] fix: copying a value no longer changes the original,
 which another thread may be hashing

---
 pddl/helpers/cache_hash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/cache_hash.py b/pddl/helpers/cache_hash.py
index d62c9d3..5bd2a78 100644
--- a/pddl/helpers/cache_hash.py
+++ b/pddl/helpers/cache_hash.py
@@ -56,7 +56,8 @@ def _getstate(fn):
         d = fn(self)
         if d is None:
             return None
-        # assuming d is a dictionary
+        # assuming d is a dictionary; it might be the one of the object, which must stay as it is
+        d = dict(d)
         d.pop("__hash", None)
         return d
 
-- 
2.43.0


From 4b3107d1bb667e870b236906cc29e7c20b95f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 31/33] fix: print equal numbers alike

---
 pddl/logic/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 683f52b..a12e6ab 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -147,9 +147,11 @@ class NumericValue(FunctionExpression):
     def __str__(self) -> str:
         """Get the string representation."""
         if isinstance(self._value, float):
+            # equal numbers are printed alike
+            if self._value.is_integer():
+                return str(int(self._value))
             # PDDL numbers have no exponent
-            result = format(Decimal(repr(self._value)), "f")
-            return result if "." in result else f"{result}.0"
+            return format(Decimal(repr(self._value)), "f")
         return str(self._value)
 
 
-- 
2.43.0


From 82a2af3ca8c673cbcdded14eee96b93cd75c9bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:04 +0000
Subject: [PATCH 32/33] fix: keep the line ends of _update_type_tags.py as they
 were

---
 pddl/parser/_update_type_tags.py | 298 +++++++++++++++----------------
 1 file changed, 149 insertions(+), 149 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index 05c20a8..e4c7f82 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,149 +1,149 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.effects import Forall, When
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_when(
-    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return When(
-        _update_type_tags(effect.condition, var_to_types),
-        _update_type_tags(effect.effect, var_to_types),
-    )
-
-
-@_update_type_tags.register
-def _update_type_tags_forall(
-    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in effect.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_effect = _update_type_tags(effect.effect, new_var_to_types)
-    return Forall(new_effect, list(effect.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when(
+    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return When(
+        _update_type_tags(effect.condition, var_to_types),
+        _update_type_tags(effect.effect, var_to_types),
+    )
+
+
+@_update_type_tags.register
+def _update_type_tags_forall(
+    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in effect.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(effect.effect, new_var_to_types)
+    return Forall(new_effect, list(effect.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
-- 
2.43.0


From 4de839be2029db1d7703da1ad81d101a0a4405c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:14 +0000
Subject: [PATCH 33/33] fix: refuse numbers out of the range of floats, which
 were read and printed as Infinity

---
 pddl/parser/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 8e2537d..4227ae1 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -335,7 +335,10 @@ class DomainTransformer(Transformer[Any, Domain]):
     def num_literal(self, args):
         """Process the 'num_literal' rule."""
         n = args[0]
-        return float(n) if "." in n else int(n)
+        value = float(n) if "." in n else int(n)
+        if value == float("inf"):
+            raise PDDLParsingError("number out of range")
+        return value
 
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
-- 
2.43.0

