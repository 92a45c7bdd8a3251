From 6eb8d1d94cf3212da23f918fe590a09ac9d2abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 001/108] fix: parse quantified comparisons with subqueries (=
 ANY, < ALL) instead of failing on the operator name

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..d8d981d 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1131,11 +1131,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
-- 
2.43.0


From 28b60998ae6d44fbb7701c8582d885681fb7eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 002/108] fix: emit the brackets that nested arithmetic and
 nested predicates require

---
 postbound/qal/_qal.py | 56 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..99116a1 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -648,10 +648,17 @@ class MathExpression(SqlExpression):
     ) -> VisitorResult:
         return visitor.visit_math_expr(self, *args, **kwargs)
 
-    def _requires_brackets(self, child: SqlExpression) -> bool:
+    def _requires_brackets(
+        self, child: SqlExpression, *, is_right: bool = False
+    ) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
+        if isinstance(child, AbstractPredicate):
+            return True
         if not isinstance(child, MathExpression):
             return False
+        if is_right or child.second_arg is None:
+            # all operators are left-associative, i.e. a - (b - c) is different from a - b - c
+            return True
         if child.operator == self.operator:
             return False
         if (
@@ -660,6 +667,10 @@ class MathExpression(SqlExpression):
         ):
             return True
 
+        additive_ops = {MathOperator.Add, MathOperator.Subtract}
+        if child.operator in additive_ops and self.operator not in additive_ops:
+            return True
+
         lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
         eager_ops = {MathOperator.Subtract, MathOperator.Divide}
 
@@ -683,7 +694,14 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+            needs_brackets = isinstance(
+                self.first_arg, (MathExpression, AbstractPredicate)
+            ) or str(self.first_arg).startswith("-")
+            return (
+                f"{operator_str}({self.first_arg})"
+                if needs_brackets
+                else f"{operator_str}{self.first_arg}"
+            )
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
@@ -696,7 +714,7 @@ class MathExpression(SqlExpression):
         assert isinstance(self.second_arg, SqlExpression)
         second_str = (
             f"({self.second_arg})"
-            if self._requires_brackets(self.second_arg)
+            if self._requires_brackets(self.second_arg, is_right=True)
             else str(self.second_arg)
         )
         return f"{first_str} {operator_str} {second_str}"
@@ -2458,6 +2476,16 @@ class AbstractPredicate(SqlExpression, abc.ABC):
         raise NotImplementedError
 
 
+def _stringify_operand(expression: SqlExpression) -> str:
+    """Formats an expression that is used as an operand of some predicate.
+
+    If the operand is itself a predicate, we need to wrap it in brackets to ensure the correct evaluation order.
+    """
+    if isinstance(expression, AbstractPredicate):
+        return f"({expression})"
+    return str(expression)
+
+
 class BasePredicate(AbstractPredicate, abc.ABC):
     """A base predicate is a predicate that is not composed of any additional child predicates, such as a binary predicate.
 
@@ -2626,7 +2654,9 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        first_str = _stringify_operand(self.first_argument)
+        second_str = _stringify_operand(self.second_argument)
+        return f"{first_str} {self.operation.value} {second_str}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2789,7 +2819,9 @@ class BetweenPredicate(BasePredicate):
 
     def __str__(self) -> str:
         interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        interval_start = _stringify_operand(interval_start)
+        interval_end = _stringify_operand(interval_end)
+        return f"{_stringify_operand(self.column)} BETWEEN {interval_start} AND {interval_end}"
 
 
 class InPredicate(BasePredicate):
@@ -2965,7 +2997,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3349,9 +3381,15 @@ class CompoundPredicate(AbstractPredicate):
                 raise ValueError(f"Unknown operation: '{self.operation}'")
 
     def _stringify_not(self) -> str:
-        if not isinstance(self.children, InPredicate):
-            return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        if isinstance(self.children, InPredicate):
+            column_str = _stringify_operand(self.children.column)
+            return f"{column_str} NOT IN {self.children._stringify_values()}"
+        if (
+            isinstance(self.children, CompoundPredicate)
+            and self.children.operation == CompoundOperator.And
+        ):
+            return f"NOT ({self.children})"
+        return f"NOT {self.children}"
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From bcd7f9b100d3bc556d33535023d810e81ab192bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 003/108] fix: do not wrap quantified subqueries in a second
 pair of brackets

---
 postbound/qal/_qal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 99116a1..a2acb1d 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1692,6 +1692,9 @@ class QuantifierExpression(SqlExpression):
         )
 
     def __str__(self) -> str:
+        if isinstance(self.expression, SubqueryExpression):
+            # subqueries already supply their own brackets. Adding another pair would turn them into an array expression
+            return f"{self.quantifier.value} {self.expression}"
         return f"{self.quantifier.value} ({self.expression})"
 
 
-- 
2.43.0


From 8224e6e7490c230be202137dbef645f1737915cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 004/108] fix: an aliased table must not capture references to
 another table with its base name

---
 postbound/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index d8d981d..89eb4ae 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -381,8 +381,9 @@ class QueryNamespace:
         self._invalidate_column_cache()
         self._current_ctx.append(table)
         if table.alias:
+            # the alias hides the actual name of the table
             self._table_sources[table.alias] = table
-        if table.full_name:
+        elif table.full_name:
             self._table_sources[table.full_name] = table
 
     def provides_column(self, name: str) -> bool:
-- 
2.43.0


From 2fe430ec5349983e19f30026b7a0434511c6d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 005/108] fix: separate the clauses of set queries when
 printing them

---
 postbound/qal/_qal.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index a2acb1d..2d9fef7 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -10004,9 +10004,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From 72f369af74a63d0259bb107c187a804f6ab305a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 006/108] fix: do not mistake comment markers inside of string
 literals for hint blocks

---
 postbound/parser.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 89eb4ae..2820842 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -30,6 +30,7 @@ References
 from __future__ import annotations
 
 import json
+import re
 import warnings
 from collections.abc import Iterable
 from pathlib import Path
@@ -2134,6 +2135,21 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
     return prep_stmts, pglast_data[i:]
 
 
+_SkippedTokens = re.compile(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|--[^\n]*|/\*")
+"""Tokens that can contain arbitrary characters, including those that would normally start a comment."""
+
+
+def _find_block_comment(raw_query: str) -> int:
+    """Provides the position of the first block comment that is not part of a string, identifier or line comment.
+
+    If there is no such comment, the result is -1.
+    """
+    for token in _SkippedTokens.finditer(raw_query):
+        if token.group() == "/*":
+            return token.start()
+    return -1
+
+
 def _parse_hint_block(
     raw_query: str, *, set_cmds: list[str], _current_hint_text: list[str] | None = None
 ) -> Optional[Hint]:
@@ -2158,7 +2174,8 @@ def _parse_hint_block(
     _current_hint_text = _current_hint_text or []
 
     raw_query = raw_query.lstrip()
-    block_hint = "/*" in raw_query
+    block_start = _find_block_comment(raw_query)
+    block_hint = block_start >= 0
     line_hint = raw_query.startswith("--")
     if not block_hint and not line_hint:
         prep_stms = "\n".join(set_cmds)
@@ -2180,8 +2197,7 @@ def _parse_hint_block(
         )
 
     # must be block hint
-    block_start = raw_query.find("/*")
-    block_end = raw_query.find("*/")
+    block_end = raw_query.find("*/", block_start)
     if block_end == -1:
         # should never be raised b/c parsing should have failed already at this point
         raise ParserError(f"Unterminated block comment: {raw_query}")
-- 
2.43.0


From 198a70206ec1b76dabee9a8e3cd977bb66bf7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 007/108] fix: wrap inputs of set operations in brackets where
 required

---
 postbound/qal/_qal.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2d9fef7..8daa6d5 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7821,8 +7821,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_setop_input(self._lhs)
+        rhs_str = _stringify_setop_input(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7900,8 +7900,8 @@ class ExceptClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_setop_input(self._lhs)
+        rhs_str = _stringify_setop_input(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -7995,8 +7995,8 @@ class IntersectClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_setop_input(self._lhs)
+        rhs_str = _stringify_setop_input(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -8076,6 +8076,22 @@ class ClauseVisitor(abc.ABC, Generic[VisitorResult]):
         raise NotImplementedError
 
 
+def _stringify_setop_input(query: SelectStatement) -> str:
+    """Handler method to format one of the input queries of a set operation.
+
+    Input queries that contain another set operation, a CTE, or some ordering/limit have to be wrapped in brackets. Otherwise,
+    these clauses would apply to the entire set query.
+    """
+    query_str = query.stringify(trailing_delimiter=False)
+    requires_brackets = (
+        isinstance(query, SetQuery)
+        or query.cte_clause
+        or query.orderby_clause
+        or query.limit_clause
+    )
+    return f"({query_str})" if requires_brackets else query_str
+
+
 def _stringify_clause(clause: BaseClause) -> str:
     """Handler method to provide a refined string for a specific given clause, to be used by the `SqlQuery` ``__str__`` method.
 
-- 
2.43.0


From 91c31b4665a23aefb8cd84655ae28cb00df624b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 008/108] fix: print brackets around nested joins on the
 right-hand side of a join

---
 postbound/qal/_qal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 8daa6d5..6b8fb27 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6956,9 +6956,15 @@ class JoinTableSource(TableSource):
         return str(self)
 
     def __str__(self) -> str:
+        # joins are left-associative, so nested joins on the right-hand side require brackets
+        joined_str = (
+            f"({self.joined_table})"
+            if isinstance(self.joined_table, JoinTableSource)
+            else str(self.joined_table)
+        )
         if self.join_type in AutoJoins:
-            return f"{self.source} {self.join_type} {self.joined_table}"
-        return f"{self.source} {self.join_type} {self.joined_table} ON {self.join_condition}"
+            return f"{self.source} {self.join_type} {joined_str}"
+        return f"{self.source} {self.join_type} {joined_str} ON {self.join_condition}"
 
 
 TableType = TypeVar("TableType", bound=TableSource)
-- 
2.43.0


From caa22916f613232cbc505084de4d2194346e452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 009/108] fix: put negative constants into brackets in
 Postgres-style casts

---
 postbound/qal/_formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..39f5a64 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -1025,6 +1025,8 @@ class _PostgresCastExpression(CastExpression):
             if isinstance(
                 self.casted_expression, (ColumnExpression, StaticValueExpression)
             )
+            # the cast binds stronger than the sign of negative numbers
+            and not str(self.casted_expression).startswith("-")
             else f"({self.casted_expression})"
         )
         return f"{casted_str}::{type_str}"
-- 
2.43.0


From 6201634edb01f51ef53bf90b59b00a88eaf32ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 010/108] fix: keep brackets around nested right-hand side
 joins when formatting queries

---
 postbound/qal/_formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 39f5a64..b449527 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -418,7 +418,10 @@ def _quick_format_tablesource(
             elems: list[str] = []
             elems += _quick_format_tablesource(table_source.left, flavor=flavor)
             elems.append(f"{table_source.join_type}")
-            elems += _quick_format_tablesource(table_source.right, flavor=flavor)
+            right_elems = _quick_format_tablesource(table_source.right, flavor=flavor)
+            if isinstance(table_source.right, JoinTableSource):
+                right_elems = ["("] + right_elems + [")"]
+            elems += right_elems
             if table_source.join_condition:
                 elems[-1] += f" ON {table_source.join_condition}"
             elems = [((" " * DefaultIndent) + str(child)) for child in elems]
-- 
2.43.0


From e7bf27477e3e49328151a2596981b76f9defe37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 011/108] fix: keep LIMIT 0 and OFFSET 0, accept LIMIT ALL

---
 postbound/parser.py         | 45 ++++++++++++++++++++++++++-----------
 postbound/qal/_formatter.py | 12 +++++-----
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 2820842..3a87bea 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1840,6 +1840,31 @@ def _pglast_parse_orderby(
     return OrderBy(orderings)
 
 
+def _pglast_parse_rowcount(pglast_data: Optional[dict]) -> Optional[int]:
+    """Handler method to parse the number of rows of a *LIMIT* or an *OFFSET*.
+
+    Parameters
+    ----------
+    pglast_data : Optional[dict]
+        JSON encoding of the row count. This data is extracted from the pglast data structure. Can be *None* if the clause is
+        not present.
+
+    Returns
+    -------
+    Optional[int]
+        The number of rows, or *None* if the clause does not restrict the result (e.g. *LIMIT ALL*).
+    """
+    if pglast_data is None:
+        return None
+    constant: dict = pglast_data.get("A_Const", {})
+    if "isnull" in constant:
+        return None
+    if "ival" not in constant:
+        raise ParserError(f"LIMIT and OFFSET must be integer constants: {pglast_data}")
+    # pglast does not store default values. This means that an empty value denotes a zero.
+    return constant["ival"].get("ival", 0)
+
+
 def _pglast_parse_limit(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> Optional[Limit]:
@@ -1868,16 +1893,11 @@ def _pglast_parse_limit(
     if raw_limit is None and raw_offset is None:
         return None
 
-    if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
-    else:
-        nrows = None
-    if raw_offset is not None:
-        offset: int = raw_offset["A_Const"]["ival"].get("ival", 0)
-    else:
-        offset = None
+    nrows = _pglast_parse_rowcount(raw_limit)
+    offset = _pglast_parse_rowcount(raw_offset)
+    if nrows is None and offset is None:
+        # LIMIT ALL / LIMIT NULL without an offset
+        return None
 
     normalized_query = query_txt.lower()
     contains_standard_limit = (
@@ -2094,9 +2114,8 @@ def _pglast_parse_query(
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
         )
-        if limit_clause is None:
-            raise ParserError(f"Malformed LIMIT/OFFSET clause for query {query_txt}")
-        clauses.append(limit_clause)
+        if limit_clause is not None:
+            clauses.append(limit_clause)
 
     return build_query(clauses)
 
diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index b449527..7e1767c 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -591,24 +591,24 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From 8d23f30783435bb0c4c068fe77992fbabf3b0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 012/108] fix: parse numeric constants without loss of
 precision

---
 postbound/parser.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 3a87bea..c720a35 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -29,7 +29,9 @@ References
 
 from __future__ import annotations
 
+import decimal
 import json
+import math
 import re
 import warnings
 from collections.abc import Iterable
@@ -643,6 +645,20 @@ def _pglast_parse_star(
     raise ParserError("Unknown star reference format: " + str(pglast_data))
 
 
+def _parse_number(text: str) -> int | float | decimal.Decimal:
+    """Parses a numeric constant without any loss of precision.
+
+    Ordinary decimals are represented as floats. We only resort to `Decimal` if a float could not hold the value.
+    """
+    if text.isdecimal():
+        return int(text)
+    exact = decimal.Decimal(text)
+    approximate = float(text)
+    if math.isfinite(approximate) and decimal.Decimal(repr(approximate)) == exact:
+        return approximate
+    return exact
+
+
 def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
     """Handler method to parse constant values in the query.
 
@@ -665,8 +681,7 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             val = pglast_data["ival"]["ival"] if "ival" in pglast_data["ival"] else 0
             return StaticValueExpression(val)
         case "fval":
-            val = pglast_data["fval"]["fval"]
-            return StaticValueExpression(float(val))
+            return StaticValueExpression(_parse_number(pglast_data["fval"]["fval"]))
         case "sval":
             return StaticValueExpression(pglast_data["sval"]["sval"])
         case "boolval":
-- 
2.43.0


From 85fb05c5a13235969014d285022a5d06cac98e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 013/108] fix: escape quotes inside of quoted identifiers

---
 postbound/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..155fa00 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -600,7 +600,10 @@ def quote(identifier: str) -> str:
         _IdentifierPattern.fullmatch(identifier)
         and identifier.upper() not in SqlKeywords
     )
-    return identifier if valid_identifier else f'"{identifier}"'
+    if valid_identifier:
+        return identifier
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def normalize(identifier: str) -> str:
-- 
2.43.0


From b0ec6bf85ca15037e88e0892fcd0a37ee0d3a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 014/108] fix: reject query features that cannot be represented
 instead of silently dropping them

---
 postbound/parser.py | 80 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index c720a35..c8fddb5 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -117,6 +117,27 @@ class ParserError(RuntimeError):
         super().__init__(msg)
 
 
+def _reject_unsupported(
+    pglast_data: dict, *features: str, context: str
+) -> None:
+    """Raises an error if a query part uses a feature that cannot be represented by our query abstraction.
+
+    Simply ignoring such a feature would change the meaning of the query.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the query part.
+    features : str
+        The names of the attributes that cannot be represented.
+    context : str
+        Human-readable description of the query part. Used for the error message.
+    """
+    for feature in features:
+        if pglast_data.get(feature):
+            raise ParserError(f"Unsupported feature of {context}: {feature}")
+
+
 class SchemaCache:
     """A simple cache that stores the columns that belong to tables in our database schema.
 
@@ -741,6 +762,9 @@ def _pglast_parse_operator(pglast_data: list[dict]) -> SqlOperator:
     return _PglastOperatorMap[sval]
 
 
+_PglastDefaultWindowFrame = 1058
+"""Internal Postgres encoding of the default frame (*RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW*)."""
+
 _PglastTypeMap: dict[str, str] = {
     "bpchar": "char",
     "serial8": "bigserial",
@@ -773,6 +797,9 @@ def _pglast_parse_type(pglast_data: dict) -> str:
     if len(names) > 2:
         raise ParserError("Unknown type format: " + str(pglast_data))
     raw_type = names[-1]["String"]["sval"]
+    if raw_type == "interval":
+        # the type modifiers of intervals are bitmasks in the Postgres parser
+        _reject_unsupported(pglast_data, "typmods", context="interval type")
 
     # for user-defined types we use get with the same type as argument
     return _PglastTypeMap.get(raw_type, raw_type)
@@ -1023,6 +1050,13 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
+            _reject_unsupported(
+                expression,
+                "agg_order",
+                "agg_within_group",
+                "func_variadic",
+                context="function call",
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1052,6 +1086,13 @@ def _pglast_parse_expression(
 
         case "FuncCall" if "over" in pglast_data["FuncCall"]:  # window functions
             expression: dict = pglast_data["FuncCall"]
+            _reject_unsupported(
+                expression,
+                "agg_order",
+                "agg_distinct",
+                "func_variadic",
+                context="window function",
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1060,9 +1101,16 @@ def _pglast_parse_expression(
                 _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
                 for arg in expression.get("args", [])
             ]
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
             fn = FunctionExpression(funcname, args)
 
             window_spec: dict = expression["over"]
+            _reject_unsupported(
+                window_spec, "name", "refname", context="window definition"
+            )
+            if window_spec.get("frameOptions") != _PglastDefaultWindowFrame:
+                raise ParserError(f"Unsupported window frame in query '{query_txt}'")
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1274,6 +1322,9 @@ def _pglast_parse_ctes(
     parsed_ctes: list[WithQuery] = []
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
+        _reject_unsupported(
+            current_cte, "search_clause", "cycle_clause", context="CTE"
+        )
         target_name = current_cte["ctename"]
         target_table = TableReference.create_virtual(target_name)
 
@@ -1299,6 +1350,7 @@ def _pglast_parse_ctes(
                 materialized=force_materialization,
             )
         else:
+            _reject_unsupported(current_cte, "aliascolnames", context="CTE")
             cte_query = _pglast_parse_query(
                 current_cte["ctequery"]["SelectStmt"],
                 namespace=child_nsp,
@@ -1424,6 +1476,9 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
     """
     name = rangevar["relname"]
     alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
+    _reject_unsupported(rangevar.get("alias", {}), "colnames", context="table alias")
+    if not rangevar.get("inh", False):
+        raise ParserError(f"Unsupported feature of table {name}: ONLY")
     schema = rangevar.get("schemaname", "")
     return TableReference(name, alias, schema=schema)
 
@@ -1490,6 +1545,9 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            _reject_unsupported(
+                join_expr, "isNatural", "usingClause", "alias", context="JOIN"
+            )
             match join_expr["jointype"]:
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
@@ -1534,6 +1592,9 @@ def _pglast_parse_from_entry(
 
         case "RangeSubselect":
             raw_subquery: dict = pglast_data["RangeSubselect"]
+            _reject_unsupported(
+                raw_subquery.get("alias", {}), "colnames", context="subquery alias"
+            )
             is_lateral = raw_subquery.get("lateral", False)
 
             if "alias" in raw_subquery:
@@ -1555,6 +1616,16 @@ def _pglast_parse_from_entry(
 
         case "RangeFunction":
             raw_function: dict = pglast_data["RangeFunction"]
+            _reject_unsupported(
+                raw_function,
+                "ordinality",
+                "is_rowsfrom",
+                "coldeflist",
+                context="table function",
+            )
+            _reject_unsupported(
+                raw_function.get("alias", {}), "colnames", context="function alias"
+            )
 
             if "alias" in raw_function:
                 alias: str = raw_function["alias"]["aliasname"]
@@ -1594,6 +1665,7 @@ def _pglast_parse_values(
         The parsed *VALUES* list.
     """
 
+    _reject_unsupported(pglast_data, "lateral", context="VALUES list")
     raw_alias: dict = pglast_data.get("alias", {})
     alias = raw_alias.get("aliasname", "")
     child_nsp = parent_namespace.open_nested(alias=alias, source="values")
@@ -1984,8 +2056,10 @@ def _pglast_parse_setop(
                 else SetOperator.Union
             )
         case "SETOP_INTERSECT":
+            _reject_unsupported(pglast_data, "all", context="INTERSECT")
             operator = SetOperator.Intersect
         case "SETOP_EXCEPT":
+            _reject_unsupported(pglast_data, "all", context="EXCEPT")
             operator = SetOperator.Except
         case _:
             raise ParserError("Unknown set operation: " + pglast_data["op"])
@@ -2078,6 +2152,12 @@ def _pglast_parse_query(
     SelectStatement
         The parsed query
     """
+    _reject_unsupported(
+        stmt, "intoClause", "windowClause", context="query"
+    )
+    if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("Unsupported feature of query: WITH TIES")
+
     if stmt["op"] != "SETOP_NONE":
         return _pglast_parse_setop(
             stmt, parent_namespace=namespace, query_txt=query_txt
-- 
2.43.0


From c9201506531348e00b2ecb10c3b8c7b4254ad6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 015/108] fix: preserve SET LOCAL, multi-valued SET commands
 and EXPLAIN (ANALYZE false)

---
 postbound/parser.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index c8fddb5..cce041e 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2089,6 +2089,16 @@ def _pglast_parse_setop(
     )
 
 
+def _pglast_parse_bool_option(definition: dict) -> bool:
+    """Handler method to parse the value of a boolean option, e.g. *ANALYZE* as part of an *EXPLAIN* statement."""
+    if "arg" not in definition:
+        return True
+    arg: dict = definition["arg"]
+    if "Integer" in arg:
+        return bool(arg["Integer"].get("ival", 0))
+    return arg["String"]["sval"].lower() in {"true", "on"}
+
+
 def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
     """Handler method to extract the *EXPLAIN* clause from a query.
 
@@ -2116,7 +2126,7 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
         definition: dict = option["DefElem"]
         match definition["defname"]:
             case "analyze":
-                use_analyze = True
+                use_analyze = _pglast_parse_bool_option(definition)
             case "format":
                 output_format = definition["arg"]["String"]["sval"]
             case _:
@@ -2241,9 +2251,12 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         if var_set_stmt["kind"] != "VAR_SET_VALUE":
             raise ParserError(f"Unknown variable set option: {var_set_stmt}")
         var_name = var_set_stmt["name"]
-        var_value = var_set_stmt["args"][0]["A_Const"]["sval"]["sval"]
+        var_values = ", ".join(
+            str(_pglast_parse_const(arg["A_Const"])) for arg in var_set_stmt["args"]
+        )
+        scope = "LOCAL " if var_set_stmt.get("is_local", False) else ""
 
-        parsed_stmt = f"SET {var_name} TO '{var_value}';"
+        parsed_stmt = f"SET {scope}{var_name} TO {var_values};"
         prep_stmts.append(parsed_stmt)
 
     return prep_stmts, pglast_data[i:]
-- 
2.43.0


From fa92ee5c55b8d4552b285239f6e74b19e82cffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 016/108] fix: keep array types of casts when formatting
 queries

---
 postbound/qal/_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 7e1767c..9a4b552 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -712,7 +712,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
-- 
2.43.0


From e3e8e0031494421b76642c99b7d834eb9d360436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 017/108] fix: equality of LIMIT, EXCEPT and INTERSECT clauses

---
 postbound/qal/_qal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 6b8fb27..c3d17e5 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7686,6 +7686,7 @@ class Limit(BaseClause):
             isinstance(other, type(self))
             and self.limit == other.limit
             and self.offset == other.offset
+            and self.fetch_direction == other.fetch_direction
         )
 
     def __str__(self) -> str:
@@ -7902,7 +7903,8 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
@@ -7997,7 +7999,8 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From bc7fbb8534910755c479904380949001de8400c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 018/108] fix: quote the remaining reserved keywords when they
 are used as identifiers

---
 postbound/_core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postbound/_core.py b/postbound/_core.py
index 155fa00..b6f36ba 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -482,6 +482,8 @@ References
 SqlKeywords = frozenset(
     {
         "ALL",
+        "ANALYSE",
+        "ANALYZE",
         "AND",
         "ANY",
         "ARRAY",
@@ -489,13 +491,16 @@ SqlKeywords = frozenset(
         "ASC",
         "ASYMMETRIC",
         "AT",
+        "AUTHORIZATION",
         "BINARY",
         "BOTH",
         "CASE",
         "CAST",
         "CHECK",
         "COLLATE",
+        "COLLATION",
         "COLUMN",
+        "CONCURRENTLY",
         "CONSTRAINT",
         "CREATE",
         "CROSS",
@@ -518,6 +523,7 @@ SqlKeywords = frozenset(
         "FETCH",
         "FOR",
         "FOREIGN",
+        "FREEZE",
         "FROM",
         "FULL",
         "GRANT",
@@ -530,6 +536,7 @@ SqlKeywords = frozenset(
         "INTERSECT",
         "INTO",
         "IS",
+        "ISNULL",
         "JOIN",
         "LATERAL",
         "LEADING",
@@ -540,6 +547,7 @@ SqlKeywords = frozenset(
         "LOCALTIMESTAMP",
         "NATURAL",
         "NOT",
+        "NOTNULL",
         "NULL",
         "OFFSET",
         "ON",
@@ -558,7 +566,9 @@ SqlKeywords = frozenset(
         "SIMILAR",
         "SOME",
         "SYMMETRIC",
+        "SYSTEM_USER",
         "TABLE",
+        "TABLESAMPLE",
         "THEN",
         "TO",
         "TRAILING",
-- 
2.43.0


From a45e71916d2c0dd48619ea006a41ae7af72c2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 019/108] fix: quantified comparisons with set queries

---
 postbound/qal/_qal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c3d17e5..30aeafc 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1624,7 +1624,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ANY expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.Any)
@@ -1634,7 +1634,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ALL expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.All)
-- 
2.43.0


From e61ad9bfcf0a68c8d0b94d776767dcc85bc829aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 020/108] fix: complete and correct query introspection
 (CASE/window/FILTER children, explicit joins, CTEs, set queries, correlated
 columns)

---
 postbound/parser.py   |  18 +++++-
 postbound/qal/_qal.py | 137 ++++++++++++++++++++++++------------------
 2 files changed, 96 insertions(+), 59 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index cce041e..e09e6ce 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -373,6 +373,7 @@ class QueryNamespace:
                             )
                             continue
 
+                        defining_nsp = None
                         if table.alias:
                             defining_nsp = self._lookup_namespace(table.alias)
                         if not defining_nsp and table.full_name:
@@ -457,9 +458,24 @@ class QueryNamespace:
                 matching_table = table
                 break
 
-        if not matching_table:
+            # CTEs that are accessed via an alias, e.g. FROM some_cte AS c
+            aliased_nsp = (
+                self._lookup_namespace(table.full_name)
+                if table.virtual and table.alias and table.full_name
+                else None
+            )
+            if aliased_nsp and aliased_nsp.provides_column(key):
+                matching_table = table
+                break
+
+        if not matching_table and self._setop_children and self.provides_column(key):
+            # output columns of a set operation do not belong to any specific table
             return None
 
+        if not matching_table:
+            # correlated column from an outer query
+            return self._parent.lookup_column(key) if self._parent else None
+
         self._column_cache[key] = matching_table
         return matching_table
 
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 30aeafc..a0fdaf2 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
@@ -1015,7 +1015,8 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        filter_children = [self._filter_expr] if self._filter_expr else []
+        return list(self.arguments) + filter_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1417,22 +1418,14 @@ class WindowExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
         ordering_children = self.ordering.iterexpressions() if self.ordering else []
-        filter_children = (
-            self.filter_condition.iterexpressions() if self.filter_condition else []
-        )
-        return util.flatten(
-            [
-                function_children,
-                partitioning_children,
-                ordering_children,
-                filter_children,
-            ]
-        )
+        filter_children = [self.filter_condition] if self.filter_condition else []
+        return [
+            self.window_function,
+            *filter_children,
+            *self.partitioning,
+            *ordering_children,
+        ]
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1556,19 +1549,10 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
-        expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
-        )
-        return case_children + expression_children + else_children
+        case_children = util.flatten(self.cases)
+        expression_children = [self.simple_expression] if self.simple_expression else []
+        else_children = [self.else_expression] if self.else_expression else []
+        return expression_children + case_children + else_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -3359,7 +3343,10 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        self._assert_join_predicate()
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
@@ -4996,6 +4983,15 @@ class QueryPredicates:
         return str(self._root)
 
 
+def _collect_nested_predicates(query: SelectStatement) -> QueryPredicates:
+    """Provides the predicates of a (sub-) query, merging the predicates of both input queries for set operations."""
+    if not isinstance(query, SetQuery):
+        return query.predicates()
+    left_predicates = _collect_nested_predicates(query.left_query)
+    right_predicates = _collect_nested_predicates(query.right_query)
+    return left_predicates.and_(right_predicates)
+
+
 class BaseClause(abc.ABC):
     """Basic interface shared by all supported clauses.
 
@@ -5590,7 +5586,7 @@ class ValuesWithQuery(WithQuery):
     def columns(self) -> set[ColumnReference]:
         if not self._columns:
             return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self._columns)
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5610,7 +5606,7 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        return list(self._columns)
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -6436,7 +6432,8 @@ class SubqueryTableSource(TableSource):
         ]
 
     def tables(self) -> set[TableReference]:
-        return self._subquery_expression.tables() | {self.target_table}
+        target_tables = {self.target_table} if self.target_name else set()
+        return self._subquery_expression.tables() | target_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._subquery_expression.columns()
@@ -6448,7 +6445,7 @@ class SubqueryTableSource(TableSource):
         return self._subquery_expression.itercolumns()
 
     def predicates(self) -> QueryPredicates | None:
-        return self._subquery_expression.query.predicates()
+        return _collect_nested_predicates(self._subquery_expression.query)
 
     def __hash__(self) -> int:
         return self._hash_val
@@ -6562,7 +6559,7 @@ class ValuesTableSource(TableSource):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return {self._table}
+        return {self._table} if self._table else set()
 
     def columns(self) -> set[ColumnReference]:
         return set(self._columns)
@@ -6677,7 +6674,8 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        alias_tables = {self._alias} if self._alias else set()
+        return self._function.tables() | alias_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
@@ -6898,7 +6896,10 @@ class JoinTableSource(TableSource):
                 raise TypeError("Unknown table source type: " + str(type(self._left)))
 
     def tables(self) -> set[TableReference]:
-        return self._left.tables() | self._right.tables()
+        condition_tables = (
+            self._join_condition.tables() if self._join_condition else set()
+        )
+        return self._left.tables() | self._right.tables() | condition_tables
 
     def columns(self) -> set[ColumnReference]:
         condition_columns = (
@@ -8171,9 +8172,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
         source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
+        nested_subqueries = _collect_subqueries_in_table_source(
+            table_source.joined_table
         )
         condition_subqueries = (
             util.set_union(
@@ -8184,6 +8184,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
             else set()
         )
         return source_subqueries | nested_subqueries | condition_subqueries
+    elif isinstance(table_source, FunctionTableSource):
+        return collect_subqueries_in_expression(table_source.function)
     else:
         return set()
 
@@ -8289,14 +8291,26 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        return table_source.query.bound_tables()
     elif isinstance(table_source, JoinTableSource):
         direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        nested_tables = _collect_bound_tables_from_source(table_source.joined_table)
         return direct_tables | nested_tables
+    else:
+        # VALUES lists and functions do not access any tables
+        return set()
+
+
+def _collect_source_tables(table_source: TableSource) -> set[TableReference]:
+    """Provides the (base or virtual) tables that a table source makes available to the rest of its query."""
+    match table_source:
+        case JoinTableSource():
+            left_tables = _collect_source_tables(table_source.left)
+            return left_tables | _collect_source_tables(table_source.right)
+        case SubqueryTableSource() | FunctionTableSource():
+            return {table_source.target_table} if table_source.target_table else set()
+        case _:
+            return table_source.tables()
 
 
 def _collect_bound_tables(from_clause: From) -> set[TableReference]:
@@ -8885,13 +8899,13 @@ class SqlQuery:
         if self.cte_clause:
             for with_query in self.cte_clause.queries:
                 current_predicate = current_predicate.and_(
-                    with_query.query.predicates()
+                    _collect_nested_predicates(with_query.query)
                 )
 
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
@@ -9036,7 +9050,9 @@ class SqlQuery:
             subquery.bound_tables() for subquery in self.subqueries()
         )
         cte_produced_tables = self.cte_clause.tables() if self.cte_clause else set()
-        own_produced_tables = _collect_bound_tables(self.from_clause)
+        own_produced_tables = (
+            _collect_bound_tables(self.from_clause) if self.from_clause else set()
+        )
         return own_produced_tables | subquery_produced_tables | cte_produced_tables
 
     def unbound_tables(self) -> set[TableReference]:
@@ -9148,10 +9164,12 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        from_tables = util.set_union(
+            _collect_source_tables(src) for src in self._from_clause.items
+        )
+        join_graph = nx.Graph(self.predicates().join_graph().subgraph(from_tables))
+        join_graph.add_nodes_from(from_tables)
+        return nx.number_connected_components(join_graph) > 1
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
@@ -9757,7 +9775,8 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        cte_tables = self._cte.referenced_tables() if self._cte else set()
+        return self._lhs.tables() | self._rhs.tables() | cte_tables
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
@@ -9771,7 +9790,7 @@ class SetQuery:
         set[ColumnReference]
             All columns that are referenced in the query.
         """
-        return self._lhs.columns() | self._rhs.columns()
+        return util.set_union(clause.columns() for clause in self.clauses())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this query.
@@ -9897,7 +9916,8 @@ class SetQuery:
         set[TableReference]
             All tables that are bound (i.e. listed in any *FROM* clause or a CTE) of the query.
         """
-        return self._lhs.bound_tables() | self._rhs.bound_tables()
+        cte_tables = self._cte.tables() if self._cte else set()
+        return self._lhs.bound_tables() | self._rhs.bound_tables() | cte_tables
 
     def unbound_tables(self) -> set[TableReference]:
         """Provides all tables that are referenced in this query but not bound.
@@ -9911,7 +9931,8 @@ class SetQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        return self._lhs.unbound_tables() | self._rhs.unbound_tables()
+        input_tables = self._lhs.unbound_tables() | self._rhs.unbound_tables()
+        return input_tables - self._cte.tables() if self._cte else input_tables
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
-- 
2.43.0


From 879777b58593af01463b8b1a4107759bb5fbfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 021/108] fix: static values that denote different SQL literals
 are not equal

---
 postbound/qal/_qal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index a0fdaf2..31cf93f 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -283,7 +283,12 @@ class StaticValueExpression(SqlExpression, Generic[T]):
     __hash__ = SqlExpression.__hash__
 
     def __eq__(self, other) -> bool:
-        return isinstance(other, type(self)) and self.value == other.value
+        # comparing the values alone is not sufficient, since e.g. 1 == 1.0 == True holds in Python, but not in SQL
+        return (
+            isinstance(other, type(self))
+            and self.value == other.value
+            and str(self.value) == str(other.value)
+        )
 
     def __str__(self) -> str:
         if self.value is None:
-- 
2.43.0


From 9a1d3dda0271f50280e5965189cf286983189b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 022/108] fix: cardinality comparison with infinity, hashing,
 floor division and negation

---
 postbound/_core.py | 98 ++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 60 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index b6f36ba..8d45c53 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -133,8 +133,7 @@ class Cardinality(Number):
         return NotImplemented
 
     def __neg__(self) -> Cardinality:
-        # What's a negative cardinality supposed to be?
-        return NotImplemented
+        raise TypeError("Cardinalities cannot be negated")
 
     def __sub__(self, other: object) -> Cardinality:
         if isinstance(other, Cardinality):
@@ -232,11 +231,17 @@ class Cardinality(Number):
             own_value = self.value
         return divmod(float(other), own_value)
 
-    def __floordiv__(self, other: object) -> int:
-        return math.floor(self / other)
+    def __floordiv__(self, other: object) -> Cardinality:
+        if not isinstance(other, (Cardinality, int, float)):
+            return NotImplemented
+        # we must not use Cardinality division here, since it rounds to the closest integer
+        dividend, divisor = self.get(), float(other)
+        if math.isfinite(dividend) and math.isfinite(divisor):
+            return Cardinality(dividend // divisor)
+        return Cardinality(dividend / divisor)
 
-    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> int:
-        return math.floor(other / self)
+    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> Cardinality:
+        return Cardinality(float(other)) // self if math.isinf(float(other)) else Cardinality(float(other) // self.get())
 
     def __mod__(self, other: object) -> Cardinality:
         if not self._valid:
@@ -273,71 +278,39 @@ class Cardinality(Number):
         return Cardinality(float(other) % self.value)
 
     def __lt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
+        # comparisons with NaN are always False, infinite cardinalities are larger than all valid ones
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value < otherval
-
+            case Cardinality():
+                return self._comparable() < other._comparable()
             case int() | float():
-                return self.value < other
-
+                return self._comparable() < other
         return NotImplemented
 
     def __le__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
+        # comparisons with NaN are always False, infinite cardinalities are larger than all valid ones
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value <= otherval
-
+            case Cardinality():
+                return self._comparable() <= other._comparable()
             case int() | float():
-                return self.value <= other
-
+                return self._comparable() <= other
         return NotImplemented
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
+        # comparisons with NaN are always False, infinite cardinalities are larger than all valid ones
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value > otherval
-
+            case Cardinality():
+                return self._comparable() > other._comparable()
             case int() | float():
-                return self.value > other
-
+                return self._comparable() > other
         return NotImplemented
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
+        # comparisons with NaN are always False, infinite cardinalities are larger than all valid ones
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value >= otherval
-
+            case Cardinality():
+                return self._comparable() >= other._comparable()
             case int() | float():
-                return self.value >= other
-
+                return self._comparable() >= other
         return NotImplemented
 
     def __float__(self) -> float:
@@ -364,11 +337,11 @@ class Cardinality(Number):
     def __eq__(self, other: object) -> bool:
         match other:
             case Cardinality():
-                if self._nan and other._nan:
-                    return True
-                if self._inf and other._inf:
-                    return True
-                return self.value == other.value
+                return (
+                    self._nan == other._nan
+                    and self._inf == other._inf
+                    and self._value == other._value
+                )
 
             case int():
                 return self._valid and self.value == other
@@ -384,7 +357,12 @@ class Cardinality(Number):
 
     def __hash__(self) -> int:
         # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # equal numbers must have equal hashes. This cannot be achieved for NaN, since each NaN has its own hash.
+        return hash("NaN") if self._nan else hash(self._comparable())
+
+    def _comparable(self) -> int | float:
+        """Provides the value for comparisons. In contrast to `get`, this does not lose precision for large values."""
+        return self._value if self._valid else self.get()
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From e931f1f0c35d5930909c3d74b5c58f5322ef94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 023/108] fix: queues, dictionaries, graph traversals,
 dependency graphs and bounded numbers of the utility library

---
 postbound/util/_df.py         |  3 ++
 postbound/util/collections.py | 22 +++++--------
 postbound/util/dicts.py       | 52 ++++++++++++++++--------------
 postbound/util/misc.py        | 60 +++++++++++++----------------------
 postbound/util/num.py         | 33 ++++++++++++++-----
 postbound/util/nx.py          | 28 ++++++++--------
 postbound/util/proc.py        |  9 ++++--
 postbound/util/stats.py       |  2 +-
 8 files changed, 109 insertions(+), 100 deletions(-)

diff --git a/postbound/util/_df.py b/postbound/util/_df.py
index 4e303cf..5635bf9 100644
--- a/postbound/util/_df.py
+++ b/postbound/util/_df.py
@@ -49,6 +49,7 @@ def write_df(
     path = Path(path)
     path.parent.mkdir(parents=True, exist_ok=True)
 
+    df = df.copy()
     for col in df.columns:
         if df[col].dtype != "object":
             continue
@@ -64,6 +65,8 @@ def write_df(
         case ".xlsx" | ".xls":
             df.to_excel(path, index=index, **kwargs)
         case ".json":
+            if not index:
+                kwargs.setdefault("orient", "records")
             df.to_json(path, index=index, **kwargs)
         case ".hdf" | ".h5" | ".hdf5":
             df.to_hdf(path, **kwargs)
diff --git a/postbound/util/collections.py b/postbound/util/collections.py
index 8725046..19ac19d 100644
--- a/postbound/util/collections.py
+++ b/postbound/util/collections.py
@@ -293,11 +293,7 @@ def pairs(lst: Iterable[T]) -> Generator[tuple[T, T], None, None]:
     Generator[tuple[T, T], None, None]
         The element pairs.
     """
-    for a_idx, a in enumerate(lst):
-        for b_idx, b in enumerate(lst):
-            if b_idx <= a_idx:
-                continue
-            yield a, b
+    yield from itertools.combinations(lst, 2)
 
 
 def set_union(sets: Iterable[Iterable[T]]) -> set[T]:
@@ -441,10 +437,7 @@ class Queue(Iterable[T], Sized, Container[T]):
         Optional[T]
             The first element if it exists, or ``None`` if the queue is empty.
         """
-        item = self.head()
-        if item:
-            self.data.pop(0)
-        return item
+        return self.data.pop(0) if self.data else None
 
     def __len__(self) -> int:
         return len(self.data)
@@ -486,8 +479,10 @@ class SizedQueue(Collection[T]):
     """
 
     def __init__(self, capacity: int, data: Optional[Iterable[T]] = None) -> None:
-        self.data = list(data) if data else []
+        self.data: list[T] = []
         self.capacity = capacity
+        if data:
+            self.extend(data)
 
     def append(self, value: T) -> None:
         """Adds a new item to the end of the queue, popping any excess items.
@@ -497,9 +492,7 @@ class SizedQueue(Collection[T]):
         value : T
             The value to add
         """
-        if len(self.data) >= self.capacity:
-            self.data.pop(0)
-        self.data.append(value)
+        self.extend([value])
 
     def extend(self, values: Iterable[T]) -> None:
         """Adds all the items to the end of the queue, popping any excess items.
@@ -509,7 +502,8 @@ class SizedQueue(Collection[T]):
         values : Iterable[T]
             The values to add
         """
-        self.data = (self.data + list(values))[: self.capacity]
+        data = self.data + list(values)
+        self.data = data[max(len(data) - self.capacity, 0) :]
 
     def head(self) -> Optional[T]:
         """Provides the current first item of the queue without removing it.
diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 5a684a9..ccfc41d 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -138,20 +138,25 @@ def explode(dictionary: dict[K, list[V]]) -> list[tuple[K, V]]:
 
 def hash_dict(dictionary: dict[K, V]) -> int:
     """Calculates a hash value based on the current dict contents (keys and values)."""
-    keys = list(dictionary.keys())
-    values = []
-    for val in dictionary.values():
-        if isinstance(val, collections.abc.Hashable):
-            values.append(hash(val))
-        elif isinstance(val, list) or isinstance(val, set):
-            values.append(hash(tuple(val)))
-        elif isinstance(val, dict):
-            values.append(hash_dict(val))
-        else:
-            warnings.warn(f"Unhashable type, skipping: {type(val)}", stacklevel=2)
-    keys_hash = hash(tuple(keys))
-    values_hash = hash(tuple(values))
-    return hash((keys_hash, values_hash))
+    return hash(frozenset((k, _hash_value(v)) for k, v in dictionary.items()))
+
+
+def _hash_value(value: object) -> int:
+    """Calculates a hash value for a (potentially unhashable) dictionary value."""
+    try:
+        return hash(value)
+    except TypeError:
+        pass
+
+    if isinstance(value, (list, tuple)):
+        return hash(tuple(_hash_value(elem) for elem in value))
+    elif isinstance(value, set):
+        return hash(frozenset(value))
+    elif isinstance(value, collections.abc.Mapping):
+        return hash_dict(value)
+
+    warnings.warn(f"Unhashable type, skipping: {type(value)}", stacklevel=3)
+    return 0
 
 
 def generate_multi(entries: Iterable[tuple[K, V]]) -> dict[K, list[V]]:
@@ -178,15 +183,11 @@ def invert_multi(mapping: dict[K, list[V]]) -> dict[V, list[K]]:
     Supppose a multi-dict has the following contents: `{'a': [1, 2], 'b': [2, 3]}`.
     Calling `invert` transforms this mapping to `{1: ['a'], 2: ['a', 'b'], 3: ['b']}`.
     """
-    level1 = {tuple(vs): k for k, vs in mapping.items()}
-    level2: dict[V, list[K]] = {}
-    for vs, k in level1.items():
+    inverted: dict[V, list[K]] = {}
+    for k, vs in mapping.items():
         for v in vs:
-            if v not in level2:
-                level2[v] = [k]
-            else:
-                level2[v].append(k)
-    return level2
+            inverted.setdefault(v, []).append(k)
+    return inverted
 
 
 def aggregate(dictionaries: Iterable[dict[K, V]]) -> dict[K, Sequence[V]]:
@@ -321,9 +322,14 @@ class frozendict(collections.UserDict[K, V]):
         self.clear = None
         self.pop = None
         self.popitem = None
-        self.update
         self._frozen = True
 
+    def copy(self) -> frozendict[K, V]:
+        return self.__class__(self.data)
+
+    def __ior__(self, other: object) -> frozendict[K, V]:
+        return self | other
+
     def __setitem__(self, key: K, item: V) -> None:
         if self._frozen:
             raise TypeError("Cannot set frozendict entries after creation")
diff --git a/postbound/util/misc.py b/postbound/util/misc.py
index 188138d..ecfc07f 100644
--- a/postbound/util/misc.py
+++ b/postbound/util/misc.py
@@ -105,6 +105,9 @@ class Version:
         except ValueError:
             return False
 
+    def __hash__(self) -> int:
+        return hash(tuple(self._version))
+
     def __ge__(self, other: object) -> bool:
         other = Version.wrap(other)
         if other is None:
@@ -157,9 +160,7 @@ class DependencyGraph(Generic[T]):
     """A simple dependency graph abstraction. Entries are added via `add_task` and iteration yields the source nodes first."""
 
     def __init__(self) -> None:
-        self._source_nodes: set[int] = set()
-        self._dependencies: dict[int, list[int]] = collections.defaultdict(list)
-        self._nodes: dict[int, T] = {}
+        self._dependencies: dict[T, list[T]] = {}
 
     def add_task(self, node: T, *, depends_on: Optional[Iterable[T]] = None) -> None:
         """Queues a new task/entry/whatever.
@@ -172,46 +173,29 @@ class DependencyGraph(Generic[T]):
             Optional other tasks that have to be completed before this one. If those task have not been added yet, this will
             be done automatically.
         """
-        node_id = hash(node)
-        self._nodes[node_id] = node
-
-        if not depends_on:
-            self._source_nodes.add(node_id)
-            return
-
-        if node_id in self._source_nodes:
-            self._source_nodes.remove(node_id)
-
-        for dep in depends_on:
-            dep_id = hash(dep)
-            self._dependencies[dep_id].append(node_id)
-
-            if dep_id not in self._nodes:
-                self._source_nodes.add(dep_id)
-                self._nodes[dep_id] = dep
+        node_deps = self._dependencies.setdefault(node, [])
+        for dep in depends_on or []:
+            self._dependencies.setdefault(dep, [])
+            node_deps.append(dep)
 
     def __iter__(self) -> Generator[T, Any, None]:
-        provided_nodes: set[int] = set()
-        for node_id in self._source_nodes:
-            yield self._nodes[node_id]
-
-            provided_nodes.add(node_id)
-            dependency_stack = list(self._dependencies[node_id])
-
-            while dependency_stack:
-                dep_id = dependency_stack.pop()
-                if dep_id in provided_nodes:
-                    continue
-
-                yield self._nodes[dep_id]
-
-                provided_nodes.add(dep_id)
-                dependency_stack.extend(self._dependencies[dep_id])
-        provided_nodes = set()
+        provided_nodes: set[T] = set()
+        while len(provided_nodes) < len(self._dependencies):
+            available_nodes = [
+                node
+                for node, deps in self._dependencies.items()
+                if node not in provided_nodes
+                and all(dep in provided_nodes for dep in deps)
+            ]
+            if not available_nodes:
+                raise ValueError(f"Cyclic dependencies in {self}")
+            for node in available_nodes:
+                yield node
+                provided_nodes.add(node)
 
     def __repr__(self) -> str:
         return str(self)
 
     def __str__(self) -> str:
-        nodes_str = ", ".join(str(node) for node in self._nodes.values())
+        nodes_str = ", ".join(str(node) for node in self._dependencies)
         return f"DependencyGraph({nodes_str})"
diff --git a/postbound/util/num.py b/postbound/util/num.py
index 49ac513..f504220 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -129,16 +129,18 @@ class AtomicInt(numbers.Integral):
 
     def __pos__(self) -> Any:
         with self._lock:
-            return +self.value
+            return +self._value
 
-    def __pow__(self, exponent: Any, modulus: Any | None = ...) -> AtomicInt:
+    def __pow__(self, exponent: Any, modulus: Any | None = None) -> AtomicInt:
+        exponent = self._unwrap_atomic(exponent)
+        modulus = self._unwrap_atomic(modulus)
         with self._lock:
-            res = self._value**exponent
+            res = pow(self._value, exponent, modulus)
             if res != int(res):
                 raise ValueError(
                     f"Power not supported for type AtomicInt with argument {exponent}"
                 )
-            return AtomicInt(res)
+            return AtomicInt(int(res))
 
     def __radd__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
@@ -148,7 +150,7 @@ class AtomicInt(numbers.Integral):
     def __rand__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
         with self._lock:
-            return other + self._value
+            return other & self._value
 
     def __rfloordiv__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
@@ -356,14 +358,18 @@ class BoundedInt(numbers.Integral):
     def __pos__(self) -> Any:
         return +self._value
 
-    def __pow__(self, exponent: Any, modulus: Union[Any, None] = ...) -> BoundedInt:
-        res = self._value**exponent
+    def __pow__(
+        self, exponent: Any, modulus: Union[Any, None] = None
+    ) -> BoundedInt:
+        exponent = self._unwrap_atomic(exponent)
+        modulus = self._unwrap_atomic(modulus)
+        res = pow(self._value, exponent, modulus)
         if res != int(res):
             raise ValueError(
                 f"Power not support for type BoundedInt with argument {exponent}"
             )
         return BoundedInt(
-            res, allowed_min=self._allowed_min, allowed_max=self._allowed_max
+            int(res), allowed_min=self._allowed_min, allowed_max=self._allowed_max
         )
 
     def __radd__(self, other: Any) -> Any:
@@ -409,6 +415,9 @@ class BoundedInt(numbers.Integral):
         other_value = self._unwrap_atomic(other)
         return self._value >> other_value
 
+    def __rsub__(self, other: Any) -> Any:
+        return self._unwrap_atomic(other) - self._value
+
     def __rtruediv__(self, other: Any) -> Any:
         other_value = self._unwrap_atomic(other)
         return other_value / self._value
@@ -417,6 +426,14 @@ class BoundedInt(numbers.Integral):
         other_value = self._unwrap_atomic(other)
         return other_value ^ self._value
 
+    def __sub__(self, other: int | BoundedInt) -> BoundedInt:
+        other_value = self._unwrap_atomic(other)
+        return BoundedInt(
+            self._value - other_value,
+            allowed_min=self._allowed_min,
+            allowed_max=self._allowed_max,
+        )
+
     def __truediv__(self, other: Any) -> Any:
         other_value = self._unwrap_atomic(other)
         return self._value / other_value
diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..bfba8f5 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -167,23 +167,25 @@ def nx_bfs_tree(
     .. NetworkX documentation on usage and definition of edge data:
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
-    shell_nodes = Queue([(node, edge) for node, edge in graph.adj[start_node].items()])
+    def neighbors(parent: NodeType) -> list[tuple[NodeType, dict]]:
+        nodes = [
+            (node, edge)
+            for node, edge in graph.adj[parent].items()
+            if node not in visited_nodes
+        ]
+        if node_order:
+            nodes.sort(key=lambda neighbor: node_order(neighbor[0], neighbor[1]))
+        return nodes
+
     visited_nodes = {start_node}
+    shell_nodes = Queue(neighbors(start_node))
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
-        visited_nodes.add(current_node)
+        if current_node in visited_nodes:
+            continue
         if condition(current_node, current_edge):
-            neighbor_nodes = [
-                (node, edge)
-                for node, edge in graph.adj[current_node].items()
-                if node not in visited_nodes
-            ]
-            if node_order:
-                sorted(
-                    neighbor_nodes,
-                    key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
-                )
-            shell_nodes.extend(neighbor_nodes)
+            visited_nodes.add(current_node)
+            shell_nodes.extend(neighbors(current_node))
             yield current_node, current_edge
 
 
diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index d88e560..45ecbc3 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -97,11 +97,14 @@ def run_cmd(
     current_dir = os.getcwd()
 
     if isinstance(cmd, Iterable) and not isinstance(cmd, str):
-        cmd, args = str(cmd[0]), cmd[1:] + list(args)
+        cmd, *cmd_args = [str(part) for part in cmd]
+        args = cmd_args + list(args)
     invocation = [cmd] + [str(arg) for arg in args]
 
     os.chdir(work_dir)
-    res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
-    os.chdir(current_dir)
+    try:
+        res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
+    finally:
+        os.chdir(current_dir)
 
     return ProcResult(res.stdout, res.stderr, res.returncode)
diff --git a/postbound/util/stats.py b/postbound/util/stats.py
index 96671ec..07dc73b 100644
--- a/postbound/util/stats.py
+++ b/postbound/util/stats.py
@@ -12,7 +12,7 @@ import numpy as np
 
 def catalan_number(n: int) -> int:
     """Computes the n-th catalan number. See https://en.wikipedia.org/wiki/Catalan_number."""
-    return round(math.comb(2 * n, n) / (n + 1))
+    return math.comb(2 * n, n) // (n + 1)
 
 
 def jaccard(a: set | frozenset, b: set | frozenset) -> float:
-- 
2.43.0


From 788f34ce97fb18dbcf4392bbd1aa14d238a4fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 024/108] fix: atomic and bounded numbers support > and >=

---
 postbound/util/num.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index f504220..565a3b3 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -84,6 +84,16 @@ class AtomicInt(numbers.Integral):
         with self._lock:
             return AtomicInt(self._value // other)
 
+    def __ge__(self, other: Any) -> bool:
+        other = self._unwrap_atomic(other)
+        with self._lock:
+            return self._value >= other
+
+    def __gt__(self, other: Any) -> bool:
+        other = self._unwrap_atomic(other)
+        with self._lock:
+            return self._value > other
+
     def __int__(self) -> int:
         with self._lock:
             return int(self._value)
@@ -316,6 +326,14 @@ class BoundedInt(numbers.Integral):
         other_value = self._unwrap_atomic(other)
         return self._value // other_value
 
+    def __ge__(self, other: Any) -> bool:
+        other_value = self._unwrap_atomic(other)
+        return self._value >= other_value
+
+    def __gt__(self, other: Any) -> bool:
+        other_value = self._unwrap_atomic(other)
+        return self._value > other_value
+
     def __int__(self) -> int:
         return self._value
 
-- 
2.43.0


From 3f288297e9fc66209c493867a075c725d83617b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 025/108] fix: index state and primary/foreign key detection of
 the join graph, fragments of negated predicates

---
 postbound/opt/_joingraph.py | 94 +++++++++++++++++++++++++------------
 postbound/transform.py      | 13 +++--
 2 files changed, 74 insertions(+), 33 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..a2a186e 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -15,8 +15,12 @@ from .._core import ColumnReference, TableReference
 from ..db import DatabasePool, DatabaseSchema
 from ..qal import (
     AbstractPredicate,
+    BinaryPredicate,
+    ColumnExpression,
+    CompoundOperator,
     CompoundPredicate,
     ImplicitSqlQuery,
+    LogicalOperator,
     determine_join_equivalence_classes,
     generate_predicates_for_equivalence_classes,
 )
@@ -430,7 +434,7 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             )
             join_predicates = set(join_predicates) | equivalence_class_predicates
         for join_predicate in join_predicates:
-            if len(join_predicate.columns()) != 2:
+            if len(join_predicate.columns()) != 2 or len(join_predicate.tables()) != 2:
                 continue
             first_col, second_col = join_predicate.columns()
             predicate_map[frozenset([first_col.table, second_col.table])].append(
@@ -490,16 +494,11 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         bool
             Whether there are still n:m joins with at least one free table.
         """
-        is_first_join = self.initial()
-        for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
-            if not self.is_available_join(first_tab, second_tab) and not is_first_join:
-                continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
-        return False
+        return any(
+            self.is_available_join(first_tab, second_tab)
+            and self.is_n_m_join(first_tab, second_tab)
+            for first_tab, second_tab in self._graph.edges
+        )
 
     def count_consumed_tables(self) -> int:
         """Determines the number of tables that have been joined already.
@@ -779,9 +778,7 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         predicate: AbstractPredicate = self._graph.edges[fk_table, pk_table][
             "predicate"
         ]
-        for base_predicate in predicate.base_predicates():
-            fk_col = util.simplify(base_predicate.columns_of(fk_table))
-            pk_col = util.simplify(base_predicate.columns_of(pk_table))
+        for fk_col, pk_col in self._equi_joined_columns(predicate, fk_table, pk_table):
             if (
                 self._index_structures[fk_col].is_indexed()
                 and self._index_structures[pk_col].is_primary()
@@ -1010,20 +1007,25 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                     (col1, col2) if col1.table == table else (col2, col1)
                 )
                 if pk_fk_join:
-                    self._index_structures[partner_col].invalidate()
+                    self._invalidate_index(partner_col)
                 elif fk_pk_join:
-                    self._index_structures[joined_col].invalidate()
+                    self._invalidate_index(joined_col)
                 else:
-                    self._index_structures[partner_col].invalidate()
-                    self._index_structures[joined_col].invalidate()
+                    self._invalidate_index(partner_col)
+                    self._invalidate_index(joined_col)
+
+            joined_tables = self.joined_tables()
+
+            if not fk_pk_join:
+                # The tuples of the intermediate are multiplied by the join, their keys are no longer unique
+                for joined_table in joined_tables - {table}:
+                    self._invalidate_primary_keys_on(joined_table)
 
             if pk_fk_join:
                 continue
 
-            for table, is_free in self._graph.nodes.data("free"):
-                if is_free or table == partner_table:
-                    continue
-                self._invalidate_indexes_on(table)
+            for joined_table in joined_tables - {partner_table}:
+                self._invalidate_indexes_on(joined_table)
 
     def clone(self) -> JoinGraph:
         """Provides a deep copy of the current join graph.
@@ -1070,13 +1072,47 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             Whether the `pk_table` actually acts as the primary key in the given join edge.
         """
         join_predicate: AbstractPredicate = edge_data["predicate"]
-        for base_predicate in join_predicate.base_predicates():
-            fk_table = util.simplify(
-                {column.table for column in base_predicate.join_partners_of(pk_table)}
-            )
-            if self.is_pk_fk_join(fk_table, pk_table):
-                return True
-        return False
+        fk_table = util.simplify(join_predicate.tables() - {pk_table})
+        return self.is_pk_fk_join(fk_table, pk_table)
+
+    def _equi_joined_columns(
+        self,
+        predicate: AbstractPredicate,
+        first_table: TableReference,
+        second_table: TableReference,
+    ) -> Iterable[tuple[ColumnReference, ColumnReference]]:
+        """Provides all pairs of columns that are required to be equal by a (conjunctive) join predicate."""
+        conjuncts = (
+            predicate.children
+            if isinstance(predicate, CompoundPredicate)
+            and predicate.operation == CompoundOperator.And
+            else [predicate]
+        )
+        column_pairs = []
+        for conjunct in conjuncts:
+            if (
+                not isinstance(conjunct, BinaryPredicate)
+                or conjunct.operation != LogicalOperator.Equal
+            ):
+                continue
+            match conjunct.first_argument, conjunct.second_argument:
+                case ColumnExpression(first_col), ColumnExpression(second_col):
+                    if first_col.table == second_table:
+                        first_col, second_col = second_col, first_col
+                    column_pairs.append((first_col, second_col))
+        return column_pairs
+
+    def _invalidate_index(self, column: ColumnReference) -> None:
+        """Invalidates the index on the given column. Does nothing if the column is not part of the join graph."""
+        index = self._index_structures.get(column)
+        if index:
+            index.invalidate()
+
+    def _invalidate_primary_keys_on(self, table: TableReference) -> None:
+        """Invalidates all primary key indexes on columns that belong to the given table."""
+        for column, index in self._index_structures.items():
+            if column.table == table and index.is_primary():
+                index.invalidate()
 
     def _invalidate_indexes_on(self, table: TableReference) -> None:
         """Invalidates all indexes on all columns that belong to the given table.
diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..8cc73c5 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -276,6 +276,14 @@ def _get_predicate_fragment(
         return predicate if predicate.tables().issubset(referenced_tables) else None
 
     compound_predicate: CompoundPredicate = predicate
+    if compound_predicate.operation == CompoundOperator.Not:
+        negated_fragment = _get_predicate_fragment(
+            compound_predicate.children, referenced_tables
+        )
+        return (
+            CompoundPredicate.create_not(negated_fragment) if negated_fragment else None
+        )
+
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
         for child in compound_predicate.children
@@ -283,10 +291,7 @@ def _get_predicate_fragment(
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
         return None
-    elif (
-        len(child_fragments) == 1
-        and compound_predicate.operation != CompoundOperator.Not
-    ):
+    elif len(child_fragments) == 1:
         return child_fragments[0]
     else:
         return CompoundPredicate(compound_predicate.operation, child_fragments)
-- 
2.43.0


From 858d6f1a7240983ab6af9960636818ed73adbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 026/108] fix: shape predicates, search, membership and derived
 nodes of query plans

---
 postbound/_qep.py | 85 ++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..b0f32b1 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -109,7 +109,7 @@ class SortKey:
             raise ValueError("Sort key must contain at least one column")
         self._ascending = ascending
 
-    __match_args___ = ("equivalence_class", "ascending")
+    __match_args__ = ("equivalence_class", "ascending")
 
     @property
     def column(self) -> SqlExpression:
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
@@ -1281,22 +1281,18 @@ class QueryPlan:
 
         As a special case, scan nodes are considered to be linear as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        return not self.is_bushy()
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return any(
+            node.outer_child._contains_join() and node.inner_child._contains_join()
+            for node in self.iternodes()
+            if node.is_join()
+        )
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1304,10 +1300,11 @@ class QueryPlan:
         Left deep order means that the plan is linear and all joins are performed with the base table as the inner relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        return not any(
+            node.inner_child._contains_join()
+            for node in self.iternodes()
+            if node.is_join()
+        )
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1315,10 +1312,11 @@ class QueryPlan:
         Right deep order means that the plan is linear and all joins are performed with the base table as the outer relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        return not any(
+            node.outer_child._contains_join()
+            for node in self.iternodes()
+            if node.is_join()
+        )
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
@@ -1331,6 +1329,10 @@ class QueryPlan:
             return True
         return self.is_linear() and not self.is_left_deep() and not self.is_right_deep()
 
+    def _contains_join(self) -> bool:
+        """Checks, whether there is at least one join node in the plan. Subplans are not considered."""
+        return any(node.is_join() for node in self.iternodes())
+
     def is_scan_branch(self) -> bool:
         """Checks, whether the current node directly leads to a scan node.
 
@@ -1341,7 +1343,9 @@ class QueryPlan:
 
         If a plan is a scan branch, `fetch_base_table()` can be used to directly retrieve the base table that is being scanned.
         """
-        return self.is_scan() or (self.input_node and self.input_node.is_scan_branch())
+        return self.is_scan() or (
+            self.input_node is not None and self.input_node.is_scan_branch()
+        )
 
     def is_base_join(self) -> bool:
         """Checks, whether the current node is a join node that joins two base tables.
@@ -1483,30 +1487,15 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
-
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
+        candidates = (
+            self.children if direction == "outer" else tuple(reversed(self.children))
+        )
+        for candidate in candidates:
+            match = candidate.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+            if match is not None:
+                return match
 
         return (
             self._subplan.root.find_first_node(
@@ -1636,7 +1625,9 @@ class QueryPlan:
         """
         cardinality = self.estimated_cardinality if cardinality is None else cardinality
         cost = self.estimated_cost if cost is None else cost
-        updated_estimates = PlanEstimates(cardinality=cardinality, cost=cost)
+        updated_estimates = PlanEstimates(
+            cardinality=cardinality, cost=cost, **self._estimates.additional_estimates
+        )
         updated_measures = self._measures if keep_measures else None
         return QueryPlan(
             self.node_type,
@@ -1761,6 +1752,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
@@ -1927,13 +1920,13 @@ class QueryPlan:
     ) -> bool:
         if isinstance(key, TableReference):
             return key in self.tables()
-        elif isinstance(key, Iterable):
+        elif isinstance(key, Iterable) and not isinstance(key, str):
             return set(key).issubset(self.tables())
 
         return (
             key in self._plan_params
             or key in self._estimates
-            or (self._measures and key in self._measures)
+            or (bool(self._measures) and key in self._measures)
         )
 
     def __getitem__(self, key: str) -> Any:
-- 
2.43.0


From 33ddf878d318aab130c9f3ce46c412610e6a3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 027/108] fix: JSON decoding retains table schemas and virtual
 tables and supports table-free predicates

---
 postbound/parser.py | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index e09e6ce..67c3cb3 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2556,7 +2556,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", None),
     )
 
 
@@ -2589,6 +2589,21 @@ def load_column_json(json_data):
     )
 
 
+def _parse_emulated_query(
+    query: str, tables: Iterable[TableReference]
+) -> tuple[dict, QueryNamespace]:
+    """Parses a query that solely exists to re-create one of its expressions or predicates.
+
+    The namespace resolves references to all of the given tables exactly as they are supplied. Therefore, virtual tables and
+    tables from specific schemas are retained.
+    """
+    pglast_data = json.loads(pglast.parser.parse_sql_json(query))
+    namespace = QueryNamespace.empty(None, top_level=True)
+    for table in tables:
+        namespace.register_table(table)
+    return pglast_data["stmts"][0]["stmt"]["SelectStmt"], namespace
+
+
 @overload
 def load_expression_json(json_data: Literal[None] | Literal[""]) -> None: ...
 
@@ -2616,15 +2631,13 @@ def load_expression_json(json_data):
     json_data = json_data if isinstance(json_data, dict) else json.loads(json_data)
 
     tables = [load_table_json(table_data) for table_data in json_data.get("tables", [])]
-    expression_str = json_data["expression"]
-    if not tables:
-        emulated_query = f"SELECT {expression_str}"
-    else:
-        from_clause_str = ", ".join(str(tab) for tab in tables)
-        emulated_query = f"SELECT {expression_str} FROM {from_clause_str}"
-
-    parsed_query = parse_query(emulated_query)
-    return parsed_query.select_clause.targets[0].expression
+    emulated_query = f"SELECT {json_data['expression']}"
+    fragment, namespace = _parse_emulated_query(emulated_query, tables)
+    return _pglast_parse_expression(
+        fragment["targetList"][0]["ResTarget"]["val"],
+        namespace=namespace,
+        query_txt=emulated_query,
+    )
 
 
 @overload
@@ -2651,8 +2664,6 @@ def load_predicate_json(json_data):
 
     Raises
     ------
-    KeyError
-        If the encoding does not specify the tables that are referenced in the predicate
     KeyError
         If the encoding does not contain the actual predicate
     """
@@ -2661,12 +2672,10 @@ def load_predicate_json(json_data):
     json_data = json_data if isinstance(json_data, dict) else json.loads(json_data)
 
     tables = [load_table_json(table_data) for table_data in json_data.get("tables", [])]
-    if not tables:
-        raise KeyError("Predicate needs at least one table!")
-    from_clause_str = ", ".join(str(tab) for tab in tables)
-    predicate_str = json_data["predicate"]
-    emulated_query = f"SELECT * FROM {from_clause_str} WHERE {predicate_str}"
-    parsed_query = parse_query(emulated_query)
-    if not parsed_query.where_clause:
-        raise ParserError(f"No predicate found. Inferred query was '{parsed_query}'.")
-    return parsed_query.where_clause.predicate
+    emulated_query = f"SELECT * WHERE {json_data['predicate']}"
+    fragment, namespace = _parse_emulated_query(emulated_query, tables)
+    if "whereClause" not in fragment:
+        raise ParserError(f"No predicate found. Inferred query was '{emulated_query}'.")
+    return _pglast_parse_predicate(
+        fragment["whereClause"], namespace=namespace, query_txt=emulated_query
+    )
-- 
2.43.0


From 61945c505905e07b112b83d06934730b365ade42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 028/108] fix: building, updating and (de)serializing query
 plans from join trees, operators and parameters

---
 postbound/opt/_helpers.py    | 158 ++++++++++++++++++++++-------------
 postbound/opt/enumeration.py |   4 +-
 postbound/opt/randomized.py  |   4 +-
 3 files changed, 106 insertions(+), 60 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..d173b80 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -7,6 +7,7 @@ from typing import Literal, Optional, Union
 
 from .. import parser
 from .._core import (
+    Cardinality,
     IntermediateOperator,
     JoinOperator,
     PhysicalOperator,
@@ -119,15 +120,28 @@ def read_operator_assignment_json(json_data: dict | str) -> PhysicalOperatorAssi
     for hint in json_data.get("scan_operators", []):
         parsed_table = parser.load_table_json(hint["table"])
         assignment.scan_operators[parsed_table] = ScanOperatorAssignment(
-            ScanOperator(hint["operator"]), parsed_table
+            ScanOperator(hint["operator"]),
+            parsed_table,
+            hint.get("parallel_workers", math.nan),
         )
 
     for hint in json_data.get("join_operators", []):
+        operator = JoinOperator(hint["operator"])
+        workers = hint.get("parallel_workers", math.nan)
+        if "inner" in hint and "outer" in hint:
+            inner = [parser.load_table_json(tab) for tab in hint["inner"]]
+            outer = [parser.load_table_json(tab) for tab in hint["outer"]]
+            assignment.set_join_operator(
+                DirectionalJoinOperatorAssignment(
+                    operator, inner, outer, parallel_workers=workers
+                )
+            )
+            continue
         parsed_tables = frozenset(
             parser.load_table_json(tab) for tab in hint["intermediate"]
         )
-        assignment.join_operators[parsed_tables] = JoinOperatorAssignment(
-            JoinOperator(hint["operator"]), parsed_tables
+        assignment.set_join_operator(
+            JoinOperatorAssignment(operator, parsed_tables, parallel_workers=workers)
         )
 
     for hint in json_data.get("intermediate_operators", []):
@@ -156,14 +170,14 @@ def read_plan_params_json(json_data: dict | str) -> PlanParameterization:
     """
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
     params = PlanParameterization()
-    params.cardinalities = {
-        frozenset(parser.load_table_json(tab)): card
-        for tab, card in json_data.get("cardinality_hints", {}).items()
-    }
-    params.parallel_workers = {
-        frozenset(parser.load_table_json(tab)): workers
-        for tab, workers in json_data.get("parallel_worker_hints", {}).items()
-    }
+    for hint in json_data.get("cardinality_hints", []):
+        intermediate = [parser.load_table_json(tab) for tab in hint["intermediate"]]
+        params.add_cardinality(intermediate, hint["cardinality"])
+    for hint in json_data.get("parallel_worker_hints", []):
+        intermediate = [parser.load_table_json(tab) for tab in hint["intermediate"]]
+        params.set_workers(intermediate, hint["workers"])
+    params.system_settings = dict(json_data.get("system_settings", {}))
+    params.execution_mode = json_data.get("execution_mode")
     return params
 
 
@@ -212,37 +226,31 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
-    )
-    updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
-        if params
-        else query_plan.estimated_cardinality
-    )
-    updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
-        if params
-        else query_plan.params.parallel_workers
-    )
+    intermediate = frozenset(query_plan.tables())
+    node_type, updated_operator = query_plan.node_type, query_plan.operator
+    if operators and not query_plan.is_auxiliary():
+        assignment = operators.get(intermediate)
+        if assignment and assignment.operator != query_plan.operator:
+            node_type = updated_operator = assignment.operator
+    updated_card_est = query_plan.estimated_cardinality
+    updated_workers = query_plan.params.parallel_workers
+    if params:
+        updated_card_est = params.cardinalities.get(intermediate, updated_card_est)
+        updated_workers = params.parallel_workers.get(intermediate, updated_workers)
 
     updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
+        **(dict(query_plan.params.items()) | {"parallel_workers": updated_workers})
     )
     updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
+        **(dict(query_plan.estimates.items()) | {"cardinality": updated_card_est})
     )
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=False)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
@@ -300,8 +308,7 @@ def parse_nested_table_sequence(sequence: list[dict | list]) -> NestedTableSeque
     if isinstance(sequence, list):
         return [parse_nested_table_sequence(item) for item in sequence]
     elif isinstance(sequence, dict):
-        table_name, alias = sequence["full_name"], sequence.get("alias", "")
-        return TableReference(table_name, alias)
+        return parser.load_table_json(sequence)
     else:
         raise TypeError(f"Unknown list element: {sequence}")
 
@@ -319,9 +326,9 @@ def _make_simple_plan(
     (Estimated) cardinalities can still be customized accroding to the plan parameters. However, parallel workers are ignored.
     """
     tables = frozenset(join_tree.tables())
-    if plan_params and plan_params.cardinalities.get(tables, None):
+    if plan_params and tables in plan_params.cardinalities:
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None:
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
@@ -347,8 +354,14 @@ def _make_simple_plan(
         operator = scan_op
         children = []
 
+    base_table = None if join_tree.is_join() else join_tree.base_table
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=base_table,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
     filter_condition = (
@@ -361,8 +374,9 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=base_table,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_condition,
     )
 
 
@@ -384,9 +398,9 @@ def _make_custom_plan(
     parameters. As a fallback, cardinalities from the join tree annotations are used.
     """
     tables = frozenset(join_tree.tables())
-    if plan_params and plan_params.cardinalities.get(tables, None):
+    if plan_params and tables in plan_params.cardinalities:
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None:
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
@@ -395,22 +409,32 @@ def _make_custom_plan(
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
-    if not operator and len(tables) == 1:
-        operator = fallback_scan_op
-    elif not operator and len(tables) > 1:
+    assignment = physical_ops.get(tables)
+    if assignment:
+        operator = assignment.operator
+    elif join_tree.is_join():
         operator = fallback_join_op
+    else:
+        operator = fallback_scan_op
     if not operator:
         raise ValueError("No operator assignment found for join: " + str(tables))
+    if par_workers is None and assignment:
+        assigned_workers = assignment.parallel_workers
+        par_workers = None if math.isnan(assigned_workers) else assigned_workers
 
+    base_table = None if join_tree.is_join() else join_tree.base_table
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
-        )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        children = tuple(
+            _make_custom_plan(
+                child,
+                physical_ops=physical_ops,
+                query=query,
+                plan_params=plan_params,
+                fallback_scan_op=fallback_scan_op,
+                fallback_join_op=fallback_join_op,
+            )
+            for child in join_tree.children
         )
-        children = (outer_plan, inner_plan)
     else:
         children = []
 
@@ -418,6 +442,7 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
@@ -433,12 +458,13 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_condition,
             parallel_workers=par_workers,
         )
 
-    intermediate_op = physical_ops.intermediate_operators.get(frozenset(plan.tables()))
+    intermediate_op = physical_ops.intermediate_operators.get(tables)
     if not intermediate_op:
         return plan
     if intermediate_op in {IntermediateOperator.Sort, IntermediateOperator.Memoize}:
@@ -561,19 +587,28 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
             for col in sort_key_json.get("equivalence_class", [])
         ]
         ascending = sort_key_json["ascending"]
-        sort_keys.append(SortKey.of(sort_column, ascending))
+        sort_keys.append(
+            SortKey.for_equivalence_class(sort_column, ascending=ascending)
+        )
+
+    lookup_key_json: dict | None = params_json.get("lookup_key")
+    lookup_key = (
+        parser.load_expression_json(lookup_key_json) if lookup_key_json else None
+    )
 
     index = params_json.get("index", "")
     additional_params = {
         key: value
         for key, value in params_json.items()
-        if key not in {"base_table", "filter_predicate", "sort_keys", "index"}
+        if key
+        not in {"base_table", "filter_predicate", "sort_keys", "lookup_key", "index"}
     }
 
     plan_params = PlanParams(
         base_table=base_table,
         filter_predicate=filter_predicate,
         sort_keys=sort_keys,
+        lookup_key=lookup_key,
         index=index,
         **additional_params,
     )
@@ -610,7 +645,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
 
     subplan_json: dict = json_data.get("subplan", {})
     if subplan_json:
-        subplan_root = parser.parse_query(subplan_json["root"])
+        subplan_root = read_query_plan_json(subplan_json["root"])
         subplan_target = subplan_json.get("target_name", "")
         subplan = Subplan(root=subplan_root, target_name=subplan_target)
     else:
@@ -655,15 +690,21 @@ def read_jointree_json(json_data: dict | str) -> JoinTree:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
 
     annotation = json_data.get("annotation", None)
+    tree_type = JoinTree
+    if json_data.get("type") == "join_tree_logical":
+        tree_type = LogicalJoinTree
+        annotation = None if annotation is None else Cardinality.of(annotation)
 
     table_json = json_data.get("table", None)
     if table_json:
         base_table = parser.load_table_json(table_json)
-        return JoinTree.scan(base_table, annotation=annotation)
+        return tree_type.scan(base_table, annotation=annotation)
 
+    if not json_data["outer"] or not json_data["inner"]:
+        return tree_type.empty()
     outer_child = read_jointree_json(json_data["outer"])
     inner_child = read_jointree_json(json_data["inner"])
-    return JoinTree.join(outer_child, inner_child, annotation=annotation)
+    return tree_type.join(outer_child, inner_child, annotation=annotation)
 
 
 def explode_query_plan(
@@ -683,8 +724,9 @@ def explode_query_plan(
     tuple[LogicalJoinTree, PhysicalOperatorAssignment, PlanParameterization]
         The different components of the query plan
     """
+    jointree_source = "estimates" if card_source == "estimated" else card_source
     return (
-        jointree_from_plan(query_plan, card_source=card_source),
+        jointree_from_plan(query_plan, card_source=jointree_source),
         operators_from_plan(query_plan),
         parameters_from_plan(query_plan, target_cardinality=card_source),
     )
diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..17f5548 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -430,4 +430,6 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(
+                    join_order, query=query, physical_ops=operator_assignment
+                )
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..5e22998 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -568,7 +568,9 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(
+                join_order, query=query, physical_ops=physical_operators
+            )
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
-- 
2.43.0


From 2bf833bd721735fe885c26f1fbc5f7e1ee363cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 029/108] fix: lookup, comparison, merging and JSON encoding of
 operator assignments, plan parameters and logical join trees

---
 postbound/_hints.py | 111 +++++++++++++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 33 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..9f5190a 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -501,19 +501,32 @@ class PhysicalOperatorAssignment:
         jsonized = {
             "global_settings": [],
             "scan_operators": [
-                {"table": scan.table, "operator": scan.operator}
+                {
+                    "table": scan.table,
+                    "operator": scan.operator,
+                    "parallel_workers": scan.parallel_workers,
+                }
                 for scan in self.scan_operators.values()
             ],
-            "join_operators": [
-                {"intermediate": join.join, "operator": join.operator}
-                for join in self.join_operators.values()
-            ],
+            "join_operators": [],
             "intermediate_operators": [
                 {"intermediate": intermediate, "operator": op}
                 for intermediate, op in self.intermediate_operators.items()
             ],
         }
 
+        join_operators: list[dict] = []
+        for join in self.join_operators.values():
+            encoded_join = {
+                "intermediate": join.join,
+                "operator": join.operator,
+                "parallel_workers": join.parallel_workers,
+            }
+            if isinstance(join, DirectionalJoinOperatorAssignment):
+                encoded_join |= {"inner": join.inner, "outer": join.outer}
+            join_operators.append(encoded_join)
+        jsonized["join_operators"] = join_operators
+
         global_settings: list[dict] = []
         for operator, enabled in self.global_settings.items():
             match operator:
@@ -555,7 +568,7 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
@@ -564,12 +577,10 @@ class PhysicalOperatorAssignment:
         self,
         item: TableReference | Iterable[TableReference] | ScanOperator | JoinOperator,
     ) -> ScanOperatorAssignment | JoinOperatorAssignment | bool | None:
-        if isinstance(item, ScanOperator) or isinstance(item, JoinOperator):
+        if isinstance(item, PhysicalOperator):
             return self.global_settings.get(item, None)
-        elif isinstance(item, TableReference):
-            return self.scan_operators.get(item, None)
-        elif isinstance(item, Iterable):
-            return self.join_operators.get(frozenset(item), None)
+        elif isinstance(item, (TableReference, Iterable)):
+            return self.get(item)
         else:
             return None
 
@@ -579,6 +590,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -588,6 +600,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
@@ -826,6 +839,9 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            other_parameters.execution_mode or self.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
@@ -865,8 +881,16 @@ class PlanParameterization:
 
     def __json__(self) -> jsondict:
         return {
-            "cardinality_hints": self.cardinalities,
-            "parallel_worker_hints": self.parallel_workers,
+            "cardinality_hints": [
+                {"intermediate": tables, "cardinality": cardinality}
+                for tables, cardinality in self.cardinalities.items()
+            ],
+            "parallel_worker_hints": [
+                {"intermediate": tables, "workers": workers}
+                for tables, workers in self.parallel_workers.items()
+            ],
+            "system_settings": self.system_settings,
+            "execution_mode": self.execution_mode,
         }
 
     def __repr__(self) -> str:
@@ -879,6 +903,11 @@ class PlanParameterization:
         )
 
 
+def _workers_key(workers: float | int) -> float | int | None:
+    """Provides a comparable representation of a worker count. Unset workers (*NaN*) compare equal to each other."""
+    return None if math.isnan(workers) else workers
+
+
 class ScanOperatorAssignment:
     """Models the selection of a scan operator for a specific base table.
 
@@ -902,7 +931,9 @@ class ScanOperatorAssignment:
         self._operator = operator
         self._table = table
         self._parallel_workers = parallel_workers
-        self._hash_val = hash((self._operator, self._table, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._table, _workers_key(parallel_workers))
+        )
 
     __match_args__ = ("operator", "table", "parallel_workers")
 
@@ -967,7 +998,8 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and _workers_key(self.parallel_workers)
+            == _workers_key(other.parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1016,7 +1048,9 @@ class JoinOperatorAssignment:
         self._join = frozenset(join)
         self._parallel_workers = parallel_workers
 
-        self._hash_val = hash((self._operator, self._join, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._join, _workers_key(parallel_workers))
+        )
 
     __match_args__ = ("operator", "join", "parallel_workers")
 
@@ -1105,7 +1139,8 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and _workers_key(self._parallel_workers)
+            == _workers_key(other._parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1425,7 +1460,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        if self._outer.is_join() and self._inner.is_join():
+            return False
+        return self._outer.is_linear() and self._inner.is_linear()
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
@@ -1555,12 +1592,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = self.scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return self.join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1596,7 +1633,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return self.scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
@@ -1620,7 +1657,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         return not self.is_empty()
 
     def __contains__(self, x: object) -> bool:
-        return self.lookup(x)
+        if not isinstance(x, (TableReference, Iterable)):
+            return False
+        return self.lookup(x) is not None
 
     def __len__(self) -> int:
         return len(self.tables())
@@ -1708,7 +1747,14 @@ class LogicalJoinTree(JoinTree[Cardinality]):
         return super().lookup(table)
 
     def update_annotation(self, new_annotation: Cardinality) -> LogicalJoinTree:
-        return super().update_annotation(new_annotation)
+        if self.is_empty():
+            raise StateError("Cannot update annotation of an empty join tree.")
+        return LogicalJoinTree(
+            table=self._table,
+            outer=self._outer,
+            inner=self._inner,
+            annotation=new_annotation,
+        )
 
     def join_with(
         self,
@@ -1777,11 +1823,11 @@ def jointree_from_plan(
         else plan.actual_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
@@ -1844,9 +1890,6 @@ def operators_from_plan(
     better handled by the parameterization.
     """
     assignment = PhysicalOperatorAssignment()
-    if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
-
     workers = query_plan.parallel_workers if include_workers else math.nan
     match query_plan.operator:
         case ScanOperator():
@@ -1863,10 +1906,12 @@ def operators_from_plan(
                 parallel_workers=workers,
             )
             assignment.add(operator)
-        case _:
+        case IntermediateOperator():
             assignment.add(query_plan.operator, query_plan.tables())
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(
+            child, include_workers=include_workers
+        )
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From d63e49352009075dfaa2dbb2c7e6d0dd7f92ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 030/108] fix: text representation of operator assignments with
 intermediate operators

---
 postbound/_hints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 9f5190a..27eb030 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -625,11 +625,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (" ⨝ ".join(tab.identifier() for tab in intermediate), operator)
+            for intermediate, operator in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {operator.value}" for key, operator in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From 21c3ec6e6a42cd2b23a590fc0d439c7acccd0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 031/108] fix: JSON decoding of quantified expressions and of
 JSON-encoded operators

---
 postbound/opt/_helpers.py | 2 +-
 postbound/parser.py       | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index d173b80..01591b5 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -57,7 +57,7 @@ def read_operator_json(
         elif json_data in {op.value for op in IntermediateOperator}:
             return IntermediateOperator(json_data)
         else:
-            json_data = json.loads(json_data)
+            return read_operator_json(json.loads(json_data))
 
     parallel_workers = json_data.get("parallel_workers", math.nan)
 
diff --git a/postbound/parser.py b/postbound/parser.py
index 67c3cb3..b1fc23c 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2631,13 +2631,18 @@ def load_expression_json(json_data):
     json_data = json_data if isinstance(json_data, dict) else json.loads(json_data)
 
     tables = [load_table_json(table_data) for table_data in json_data.get("tables", [])]
-    emulated_query = f"SELECT {json_data['expression']}"
+    expression = json_data["expression"]
+
+    # Quantifiers are only valid as the right-hand side of a comparison. We need to provide one and drop it afterwards.
+    quantified = re.match(r"(ANY|ALL)\s*\(", expression) is not None
+    emulated_query = f"SELECT NULL = {expression}" if quantified else f"SELECT {expression}"
     fragment, namespace = _parse_emulated_query(emulated_query, tables)
-    return _pglast_parse_expression(
+    parsed = _pglast_parse_expression(
         fragment["targetList"][0]["ResTarget"]["val"],
         namespace=namespace,
         query_txt=emulated_query,
     )
+    return parsed.second_argument if quantified else parsed
 
 
 @overload
-- 
2.43.0


From 18a58a0839c6fbf59bc244401b8cadfd43739ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 032/108] fix: equality and hashing of predicate views, IN
 predicates, CTEs and lateral subqueries, schema of derived table references,
 cached containers

---
 postbound/_core.py    |  6 +++--
 postbound/qal/_qal.py | 59 ++++++++++++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 8d45c53..35505b7 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -849,7 +849,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -869,7 +871,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 31cf93f..c431c03 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -20,6 +20,20 @@ from ..util._errors import StateError
 from ..util.jsonize import jsondict
 
 
+def _cached_container(method: Callable) -> Callable:
+    """Decorator similar to `functools.cache` for methods that return mutable containers.
+
+    Callers are free to modify the container. Therefore, each call receives its own copy.
+    """
+    cached_method = functools.cache(method)
+
+    @functools.wraps(method)
+    def wrapper(*args, **kwargs):
+        return cached_method(*args, **kwargs).copy()
+
+    return wrapper
+
+
 class MathOperator(enum.Enum):
     """The supported mathematical operators."""
 
@@ -2638,9 +2652,10 @@ class BinaryPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
+        if not isinstance(other, type(self)):
+            return NotImplemented
         return (
-            isinstance(other, type(self))
-            and self.operation == other.operation
+            self.operation == other.operation
             and self.first_argument == other.first_argument
             and self.second_argument == other.second_argument
         )
@@ -2803,9 +2818,10 @@ class BetweenPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
+        if not isinstance(other, type(self)):
+            return NotImplemented
         return (
-            isinstance(other, type(self))
-            and self.column == other.column
+            self.column == other.column
             and self.interval == other.interval
         )
 
@@ -2883,7 +2899,9 @@ class InPredicate(BasePredicate):
             raise ValueError("No empty value allowed")
         self._column = column
         self._values = tuple(values)
-        hash_val = hash((LogicalOperator.In, self._column, self._values))
+        hash_val = hash(
+            (LogicalOperator.In, self._column, frozenset(self._values))
+        )
         super().__init__(LogicalOperator.In, hash_val=hash_val)
 
     __slots__ = ("_column", "_values")
@@ -2981,11 +2999,9 @@ class InPredicate(BasePredicate):
     __hash__ = AbstractPredicate.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return (
-            isinstance(other, type(self))
-            and self.column == other.column
-            and set(self.values) == set(other.values)
-        )
+        if not isinstance(other, type(self)):
+            return NotImplemented
+        return self.column == other.column and set(self.values) == set(other.values)
 
     def __str__(self) -> str:
         vals = self._stringify_values()
@@ -3880,8 +3896,7 @@ class SimpleFilter(AbstractPredicate):
         self._value = value
         self._predicate = predicate
 
-        hash_val = hash((column, operation, value))
-        super().__init__(hash_val)
+        super().__init__(hash(predicate))
 
     __slots__ = ("_column", "_operation", "_value", "_predicate")
     __match_args__ = ("column", "operation", "value")
@@ -4113,8 +4128,7 @@ class SimpleJoin(AbstractPredicate):
         self._rhs = rhs
         self._predicate = predicate
 
-        hash_val = hash((lhs, rhs))
-        super().__init__(hash_val)
+        super().__init__(hash(predicate))
 
     __slots__ = ("_lhs", "_rhs", "_predicate")
     __match_args__ = ("lhs", "rhs")
@@ -4394,7 +4408,7 @@ class QueryPredicates:
         """
         return self._root is None
 
-    @functools.cache
+    @_cached_container
     def filters(self) -> Collection[AbstractPredicate]:
         """Provides all filter predicates that are contained in the predicate hierarchy.
 
@@ -4417,7 +4431,7 @@ class QueryPredicates:
             return []
         return _collect_filter_predicates(self._root)
 
-    @functools.cache
+    @_cached_container
     def joins(self) -> Collection[AbstractPredicate]:
         """Provides all join predicates that are contained in the predicate hierarchy.
 
@@ -4440,7 +4454,7 @@ class QueryPredicates:
             return []
         return _collect_join_predicates(self._root)
 
-    @functools.cache
+    @_cached_container
     def join_graph(self, *, merge_aliases: bool = False) -> nx.Graph:
         """Provides the join graph for the predicates.
 
@@ -4545,7 +4559,7 @@ class QueryPredicates:
             else None
         )
 
-    @functools.cache
+    @_cached_container
     def joins_for(self, table: TableReference) -> Collection[AbstractPredicate]:
         """Provides all join predicates that reference a specific table.
 
@@ -5386,7 +5400,7 @@ class WithQuery:
             target_name if isinstance(target_name, str) else target_name.identifier()
         )
         self._materialized = materialized
-        self._hash_val = hash((query, target_name))
+        self._hash_val = hash((query, self._target_name, self._materialized))
 
     __slots__ = (
         "_query",
@@ -5494,6 +5508,7 @@ class WithQuery:
             isinstance(other, type(self))
             and self._target_name == other._target_name
             and self._query == other._query
+            and self._materialized == other._materialized
         )
 
     def __repr__(self) -> str:
@@ -5534,7 +5549,7 @@ class ValuesWithQuery(WithQuery):
         columns: Optional[Iterable[str | ColumnReference]] = None,
         materialized: Optional[bool] = None,
     ) -> None:
-        self._values = values
+        self._values = tuple(values)
         self._materialized = materialized
 
         if isinstance(target_name, TableReference):
@@ -5619,6 +5634,7 @@ class ValuesWithQuery(WithQuery):
             and self._values == other._values
             and self._columns == other._columns
             and self._table == other._table
+            and self._materialized == other._materialized
         )
 
     __hash__ = WithQuery.__hash__
@@ -6460,6 +6476,7 @@ class SubqueryTableSource(TableSource):
             isinstance(other, type(self))
             and self._subquery_expression == other._subquery_expression
             and self._target_name == other._target_name
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
@@ -8781,7 +8798,7 @@ class SqlQuery:
         """
         return self.explain is not None
 
-    @functools.cache
+    @_cached_container
     def tables(self) -> set[TableReference]:
         """Provides all tables that are referenced at any point in the query.
 
-- 
2.43.0


From 8a9b1052f4d75ab83aa2b3676c80236fdbebba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 033/108] fix: query transformations keep FROM order,
 nested/set queries, non-equi joins, negations and preparatory statements

---
 postbound/qal/_qal.py  |  11 +--
 postbound/transform.py | 184 +++++++++++++++++++++++++----------------
 2 files changed, 117 insertions(+), 78 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c431c03..42a4bd4 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3633,11 +3633,12 @@ def determine_join_equivalence_classes(
 
     equivalence_graph = nx.Graph()
     for predicate in join_predicates:
-        columns = predicate.columns()
-        if not len(columns) == 2:
-            continue
-        col_a, col_b = columns
-        equivalence_graph.add_edge(col_a, col_b)
+        match predicate:
+            case BinaryPredicate(_, ColumnExpression(col_a), ColumnExpression(col_b)):
+                equivalence_graph.add_edge(col_a, col_b)
+            case _:
+                # the columns are modified by other expressions and hence not equivalent
+                continue
 
     equivalence_classes: set[frozenset[ColumnReference]] = set()
     for equivalence_class in nx.connected_components(equivalence_graph):
diff --git a/postbound/transform.py b/postbound/transform.py
index 8cc73c5..dab15b0 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -156,7 +156,10 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
             and child.operation == CompoundOperator.And
         ):
             flattened_child = flatten_and_predicate(child)
-            if isinstance(flattened_child, CompoundPredicate):
+            if (
+                isinstance(flattened_child, CompoundPredicate)
+                and flattened_child.operation == CompoundOperator.And
+            ):
                 flattened_children |= set(flattened_child.children)
             else:
                 flattened_children.add(flattened_child)
@@ -214,6 +217,9 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
                     "Unsupported table source type: " + str(type(current_table_source))
                 )
 
+    # the working set is processed from right to left, but the order of the tables determines the output of a SELECT *
+    complete_from_tables.reverse()
+    additional_predicates.reverse()
     final_from_clause = ImplicitFromClause.create_for(complete_from_tables)
 
     if source_query.where_clause:
@@ -392,10 +398,14 @@ def extract_query_fragment(
         orderby_clause = None
 
     if isinstance(source_query, SetQuery):
-        left_query = extract_query_fragment(source_query.left_query, referenced_tables)
+        left_query = extract_query_fragment(
+            source_query.left_query, referenced_tables, projection=projection
+        )
         right_query = extract_query_fragment(
-            source_query.right_query, referenced_tables
+            source_query.right_query, referenced_tables, projection=projection
         )
+        if left_query is None or right_query is None:
+            return None
         return SetQuery(
             left_query,
             right_query,
@@ -411,7 +421,7 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables) or not target.columns():
                     select_fragment.append(target)
 
             if select_fragment:
@@ -433,12 +443,15 @@ def extract_query_fragment(
             raise ValueError("Invalid projection type: " + str(projection))
 
     if source_query.from_clause:
+        # retain the order of the FROM clause since it determines the output of SELECT * queries
+        from_tables = [
+            tab
+            for tab in source_query.from_clause.itertables()
+            if tab in referenced_tables
+        ]
+        nested_tables = sorted(referenced_tables - set(from_tables))
         from_clause = ImplicitFromClause(
-            [
-                DirectTableSource(tab)
-                for tab in source_query.tables()
-                if tab in referenced_tables
-            ]
+            [DirectTableSource(tab) for tab in from_tables + nested_tables]
         )
     else:
         from_clause = None
@@ -604,7 +617,11 @@ def move_into_subquery(
     if join_predicates:
         subquery_predicates.append(join_predicates)
 
-    subquery_select = Select.create_for(columns_from_subquery_tables)
+    subquery_select = (
+        Select.create_for(columns_from_subquery_tables)
+        if columns_from_subquery_tables
+        else Select.star()
+    )
     subquery_from = ImplicitFromClause.create_for(tables)
     subquery_where = (
         Where(CompoundPredicate.create_and(subquery_predicates))
@@ -620,7 +637,7 @@ def move_into_subquery(
         for table_source in query.from_clause.items
         if not table_source.tables() < tables
     ]
-    update_from_clause = ImplicitFromClause.create_for(
+    update_from_clause = ImplicitFromClause(
         updated_from_sources + [subquery_table_source]
     )
     updated_predicate = query.where_clause.predicate if query.where_clause else None
@@ -668,7 +685,15 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     ec_classes = determine_join_equivalence_classes(predicates.joins())
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
+    # joins that do not establish an equivalence (such as range joins) are not implied by any class
+    other_joins = [
+        join
+        for join in predicates.joins()
+        if not determine_join_equivalence_classes([join])
+    ]
+    all_predicates = (
+        list(ec_predicates) + other_joins + list(predicates.filters())
+    )
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
@@ -742,7 +767,7 @@ def drop_hints(
     """
     new_hints = (
         Hint("", query.hints.query_hints)
-        if preparatory_statements_only and query.hints
+        if preparatory_statements_only and query.hints and query.hints.query_hints
         else None
     )
     query_clauses = [
@@ -1362,7 +1387,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1373,7 +1397,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
@@ -1387,6 +1411,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
@@ -1521,17 +1546,23 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
@@ -1566,7 +1597,7 @@ def rename_columns_in_expression(
     elif isinstance(expression, CaseExpression):
         renamed_cases = [
             (
-                rename_columns_in_predicate(condition, available_renamings),
+                rename_columns_in_expression(condition, available_renamings),
                 rename_columns_in_expression(result, available_renamings),
             )
             for condition, result in expression.cases
@@ -1837,9 +1868,6 @@ def rename_columns_in_clause(
                 )
                 continue
 
-            if not any(col.belongs_to(cte.target_table) for col in available_renamings):
-                continue
-
             renamed_cte = cte
             for current_col, target_col in available_renamings.items():
                 if not current_col.belongs_to(cte.target_table):
@@ -1851,7 +1879,7 @@ def rename_columns_in_clause(
 
                 # if we found a column that should be renamed, we need to replace the whole column specification
                 # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
+                current_col_spec = renamed_cte.cols
                 new_col_spec = [
                     (col if col.name != current_col.name else target_col.name)
                     for col in current_col_spec
@@ -1874,7 +1902,13 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [
+                rename_columns_in_expression(col, available_renamings)
+                for col in distinct
+            ]
+        return Select(renamed_targets, distinct=distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -1969,10 +2003,19 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
-            nested_renamings = cte.query.accept_visitor(self)
-            nested_query = build_query(nested_renamings.values())
             target_table = self._rename_table(cte.target_table)
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        cte.rows,
+                        target_name=target_table,
+                        columns=cte.cols,
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
 
+            nested_query = self._rename_query(cte.query)
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
             )
@@ -1986,28 +2029,24 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [col.accept_visitor(self) for col in distinct]
+        return Select(projections, distinct=distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
-        used_identifieres = set(tab.identifier() for tab in clause.tables())
+        used_identifieres = set(
+            tab.identifier() for tab in clause.tables() if tab not in self._renamings
+        )
         intersect = used_identifieres & self._renaming_targets
         match clause:
             case ImplicitFromClause(tables):
-                renamed_tables = [self._rename_table_source(src) for src in tables]
-                if not intersect:
-                    return ImplicitFromClause(renamed_tables)
-
-                separate_tables = used_identifieres - intersect
-                final_tables: list[DirectTableSource] = []
-                for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
-                        final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
-                        continue
-                    final_tables.append(tab)
-                    intersect.remove(tab.identifier())
-                return ImplicitFromClause(final_tables)
+                # multiple tables might be merged into the same target, which must only appear once
+                renamed_tables = {
+                    renamed.table.identifier(): renamed
+                    for renamed in map(self._rename_table_source, reversed(tables))
+                }
+                return ImplicitFromClause(list(reversed(renamed_tables.values())))
 
             case ExplicitFromClause(join):
                 if intersect:
@@ -2057,28 +2096,28 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
@@ -2195,9 +2234,7 @@ class _TableReferenceRenamer(
     def visit_subquery_expr(
         self, expr: SubqueryExpression, *args, **kwargs
     ) -> SubqueryExpression:
-        subquery_comps = expr.query.accept_visitor(self)
-        renamed_subquery = build_query(subquery_comps.values())
-        return SubqueryExpression(renamed_subquery)
+        return SubqueryExpression(self._rename_query(expr.query))
 
     def visit_star_expr(self, expr: StarExpression, *args, **kwargs) -> StarExpression:
         renamed_table = self._rename_table(expr.from_table) if expr.from_table else None
@@ -2246,7 +2283,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
@@ -2258,7 +2295,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2268,8 +2305,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
@@ -2277,6 +2314,10 @@ class _TableReferenceRenamer(
     ) -> AbstractPredicate:
         return expr.accept_visitor(self)
 
+    def _rename_query[T: SelectStatement](self, query: T) -> T:
+        """Helper method to rename all clauses of a nested query."""
+        return build_query(query.accept_visitor(self).values())
+
     def _rename_table_source[T: TableSource](self, source: T) -> T:
         """Helper method to traverse and rename (the contents of) an arbitrary *FROM* item."""
         match source:
@@ -2285,8 +2326,7 @@ class _TableReferenceRenamer(
                 return DirectTableSource(renamed_table)
 
             case SubqueryTableSource(subquery, target_name, lateral):
-                nested_renamings = subquery.accept_visitor(self)
-                nested_query = build_query(nested_renamings.values())
+                nested_query = self._rename_query(subquery)
                 target_table = self._rename_table(target_name)
                 return SubqueryTableSource(nested_query, target_table, lateral=lateral)
 
@@ -2400,20 +2440,18 @@ def rename_table[T: SelectStatement](
     else:
         renamings = from_table
 
-    tabs_to_rename = set(tab for tab in renamings.keys())
-
     # Despite the convenient _TableReferenceRenamer, we still need to do a little bit of manual gathering/traversal to support
-    # column prefixes.
-    necessary_renamings: dict[ColumnReference, ColumnReference] = {}
-    for column in filter(lambda c: c.table in tabs_to_rename, source_query.columns()):
-        new_column_name = (
-            f"{column.table.identifier()}_{column.name}"
-            if prefix_column_names
-            else column.name
-        )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
-
-    renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
+    # column prefixes. The columns remain bound to their original table for now, the renamer takes care of the rest.
+    renamed_cols = source_query
+    if prefix_column_names:
+        prefixed_columns = {
+            column: ColumnReference(
+                f"{column.table.identifier()}_{column.name}", column.table
+            )
+            for column in source_query.columns()
+            if column.table in renamings
+        }
+        renamed_cols = rename_columns_in_query(source_query, prefixed_columns)
 
     tab_renamer = _TableReferenceRenamer(renamings)
     renamed_clauses = renamed_cols.accept_visitor(tab_renamer)
-- 
2.43.0


From 0c07254e3c820f004f272a0ef49f5abea8635d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 034/108] fix: hint generation for Postgres, DuckDB and MySQL
 keeps or reports every optimizer decision

---
 postbound/duckdb.py   |  32 ++++++---
 postbound/mysql.py    | 103 +++++++++++++++++++++------
 postbound/postgres.py | 162 ++++++++++++++++++++++++++++--------------
 3 files changed, 212 insertions(+), 85 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..ade2528 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -44,6 +44,7 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    HintWarning,
     Histogram,
     HistogramApproximation,
     OptimizerInterface,
@@ -103,8 +104,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
@@ -825,6 +825,10 @@ class DuckDBHintService(HintService):
         if not ops:
             return HintParts.empty()
 
+        assignments = [*ops.scan_operators.values(), *ops.join_operators.values()]
+        if any(assignment.parallel_workers > 1 for assignment in assignments):
+            raise UnsupportedDatabaseFeatureError(self._db, "parallel worker hints")
+
         hints: list[str] = []
         for tab, scan in ops.scan_operators.items():
             match scan.operator:
@@ -883,13 +887,23 @@ class DuckDBHintService(HintService):
 
         hints: list[str] = []
         for intermediate, card in parameters.cardinalities.items():
-            if not card.is_valid():
+            if card.isnan():
                 continue
             intermediate_txt = self._intermediate_to_hint(intermediate)
+            if card.isinf():
+                warnings.warn(
+                    f"Ignoring infinite cardinality for intermediate {intermediate_txt}",
+                    category=HintWarning,
+                )
+                continue
             hints.append(f"Card({intermediate_txt} #{card})")
 
         if parameters.parallel_workers:
             raise UnsupportedDatabaseFeatureError(self._db, "parallel worker hints")
+        if parameters.execution_mode is not None:
+            warnings.warn(
+                "DuckDB does not support execution mode hints", category=HintWarning
+            )
 
         global_settings: list[str] = []
         for param, val in parameters.system_settings.items():
@@ -898,7 +912,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
@@ -906,10 +920,12 @@ class DuckDBHintService(HintService):
         if not hint_parts:
             return query
 
-        local_hints = ["/*=quack_lab="]
-        for local_hint in hint_parts.hints:
-            local_hints.append(f"  {local_hint}")
-        local_hints.append(" */")
+        local_hints: list[str] = []
+        if any(hint_parts.hints):
+            local_hints.append("/*=quack_lab=")
+            for local_hint in hint_parts.hints:
+                local_hints.append(f"  {local_hint}")
+            local_hints.append(" */")
 
         hints = qal.Hint("\n".join(hint_parts.settings), "\n".join(local_hints))
         return transform.add_clause(query, hints)
diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..124abad 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -69,6 +69,7 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    HintWarning,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -476,25 +477,28 @@ class _MysqlStaticValueExpression(StaticValueExpression):
         super().__init__(original_expression.value)
 
     def __str__(self) -> str:
-        return (
-            f"{self.value}"
-            if isinstance(self.value, numbers.Number)
-            else f'"{self.value}"'
-        )
+        if self.value is None:
+            return "NULL"
+        if isinstance(self.value, numbers.Number):
+            return f"{self.value}"
+        escaped = str(self.value).replace("\\", "\\\\").replace('"', '""')
+        return f'"{escaped}"'
 
 
 class _MysqlCastExpression(CastExpression):
-    def __init__(self, original_expression: CastExpression) -> None:
-        if original_expression.array_type:
+    def __init__(
+        self,
+        expression: SqlExpression,
+        target_type: str,
+        *,
+        type_params: Optional[Sequence[SqlExpression]] = None,
+        array_type: bool = False,
+    ) -> None:
+        if array_type:
             warnings.warn(
                 "MySQL does not support array types in CAST expressions. Ignoring array type."
             )
-        super().__init__(
-            original_expression.casted_expression, original_expression.target_type
-        )
-
-    def __str__(self) -> str:
-        return f"CAST({self.casted_expression} AS {self.target_type})"
+        super().__init__(expression, target_type, type_params=type_params)
 
 
 def _replace_static_vals(e: SqlExpression) -> SqlExpression:
@@ -502,14 +506,32 @@ def _replace_static_vals(e: SqlExpression) -> SqlExpression:
 
 
 def _replace_casts(e: SqlExpression) -> SqlExpression:
-    return _MysqlCastExpression(e) if isinstance(e, CastExpression) else e
+    if not isinstance(e, CastExpression):
+        return e
+    return _MysqlCastExpression(
+        e.casted_expression,
+        e.target_type,
+        type_params=e.type_params,
+        array_type=e.array_type,
+    )
 
 
 def _generate_join_order_hint(join_order: Optional[JoinTree]) -> str:
     if not join_order:
         return ""
 
-    join_order_text = ", ".join(table.identifier() for table in join_order.itertables())
+    # JOIN_ORDER lists the tables in the sequence in which they are joined, i.e. starting at the innermost join
+    tables: list[TableReference] = []
+    current_node = join_order
+    while current_node.is_join():
+        outer, inner = current_node.outer_child, current_node.inner_child
+        joined_node, current_node = (
+            (inner, outer) if inner.is_scan() else (outer, inner)
+        )
+        tables.insert(0, joined_node.base_table)
+    tables.insert(0, current_node.base_table)
+
+    join_order_text = ", ".join(table.identifier() for table in tables)
     return f"  JOIN_ORDER({join_order_text})"
 
 
@@ -542,7 +564,18 @@ def _generate_operator_hints(
         hints.append(f"  {operator}({join_key})")
 
     if physical_operators.intermediate_operators:
-        warnings.warn("Cannot generate intermediate operator hints for MySQL.")
+        warnings.warn(
+            "Cannot generate intermediate operator hints for MySQL.",
+            category=HintWarning,
+        )
+    assignments = [
+        *physical_operators.scan_operators.values(),
+        *physical_operators.join_operators.values(),
+    ]
+    if any(assignment.parallel_workers > 1 for assignment in assignments):
+        warnings.warn(
+            "Cannot generate parallel worker hints for MySQL.", category=HintWarning
+        )
 
     return "\n".join(hints)
 
@@ -577,6 +610,19 @@ def _generate_prep_statements(
             statements.append(f"SET @@optimizer_switch='{optimizer_switch}';")
 
     if plan_parameters:
+        if any(not card.isnan() for card in plan_parameters.cardinalities.values()):
+            warnings.warn(
+                "Cannot generate cardinality hints for MySQL.", category=HintWarning
+            )
+        if plan_parameters.parallel_workers:
+            warnings.warn(
+                "Cannot generate parallel worker hints for MySQL.",
+                category=HintWarning,
+            )
+        if plan_parameters.execution_mode is not None:
+            warnings.warn(
+                "Cannot generate execution mode hints for MySQL.", category=HintWarning
+            )
         for setting, value in plan_parameters.system_settings.items():
             statements.append(f"SET {setting}={_escape_setting(value)};")
 
@@ -597,10 +643,13 @@ class MysqlHintService(HintService):
         physical_operators: Optional[PhysicalOperatorAssignment] = None,
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
-        if join_order and not join_order.is_linear():
-            raise UnsupportedDatabaseFeatureError(
-                self._mysql_instance,
-                "Can only enforce join order for linear join trees for now",
+        has_param = any(
+            param is not None
+            for param in (join_order, physical_operators, plan_parameters)
+        )
+        if plan is not None and has_param:
+            raise ValueError(
+                "Can only hint an entire query plan, or individual parts, not both."
             )
 
         if plan is not None:
@@ -608,17 +657,25 @@ class MysqlHintService(HintService):
             physical_operators = operators_from_plan(plan)
             plan_parameters = parameters_from_plan(plan)
 
+        if join_order and not join_order.is_linear():
+            raise UnsupportedDatabaseFeatureError(
+                self._mysql_instance,
+                "Can only enforce join order for linear join trees for now",
+            )
+
         join_order_hint = _generate_join_order_hint(join_order)
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
 
-        if not join_order_hint and not operator_hint:
+        if not join_order_hint and not operator_hint and not prep_statements:
             return query
 
         final_hint_block = (
             "/*+\n"
             + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
             + "\n*/"
+            if join_order_hint or operator_hint
+            else ""
         )
         hint_clause = Hint(prep_statements, final_hint_block)
         return transform.add_clause(query, hint_clause)
@@ -627,7 +684,9 @@ class MysqlHintService(HintService):
         updated_query = query
 
         if updated_query.is_explain():
-            transform.replace_clause(query, _MysqlExplainClause(query.explain))
+            updated_query = transform.replace_clause(
+                query, _MysqlExplainClause(query.explain)
+            )
 
         if "ANSI_QUOTES" not in self._mysql_instance.server_mode():
             updated_query = transform.replace_expressions(
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..4a77ac9 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2074,7 +2074,7 @@ PGHintPlanOptimizerHints: dict[PhysicalOperator, str] = {
     JoinOperator.HashJoin: "HashJoin",
     JoinOperator.SortMergeJoin: "MergeJoin",
     ScanOperator.SequentialScan: "SeqScan",
-    ScanOperator.IndexScan: "IndexOnlyScan",
+    ScanOperator.IndexScan: "IndexScan",
     ScanOperator.IndexOnlyScan: "IndexOnlyScan",
     ScanOperator.BitmapScan: "BitmapScan",
     IntermediateOperator.Memoize: "Memoize",
@@ -2153,11 +2153,12 @@ class PostgresExplainClause(Explain):
         super().__init__(original_clause.analyze, original_clause.target_format)
 
     def __str__(self) -> str:
-        explain_args = "(SETTINGS, "
+        explain_args = ["SETTINGS"]
         if self.analyze:
-            explain_args += "ANALYZE, BUFFERS, "
-        explain_args += f"FORMAT {self.target_format})"
-        return f"EXPLAIN {explain_args}"
+            explain_args += ["ANALYZE", "BUFFERS"]
+        if self.target_format:
+            explain_args.append(f"FORMAT {self.target_format}")
+        return f"EXPLAIN ({', '.join(explain_args)})"
 
 
 class PostgresLimitClause(Limit):
@@ -2180,11 +2181,11 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        if self.limit is not None and self.offset is not None:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif self.limit is not None:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif self.offset is not None:
             return f"OFFSET {self.offset}"
         else:
             return ""
@@ -2207,6 +2208,27 @@ def _walk_join_order(node: JoinTree) -> str:
     return f"({outer} {inner})"
 
 
+def _check_join_directions(
+    phys_ops: PhysicalOperatorAssignment, join_order: Optional[JoinTree]
+) -> None:
+    """Warns if the operators request a join direction that is not already enforced by the join order."""
+    enforced = (
+        {
+            (frozenset(join.outer_child.tables()), frozenset(join.inner_child.tables()))
+            for join in join_order.iterjoins()
+        }
+        if join_order
+        else set()
+    )
+    for join in phys_ops.join_operators.values():
+        if join.is_directional() and (join.outer, join.inner) not in enforced:
+            warnings.warn(
+                f"Join direction of {join} can only be enforced as part of the join order. Ignoring the direction.",
+                category=HintWarning,
+                stacklevel=4,
+            )
+
+
 def _generate_pghintplan_hints(
     query: SqlQuery,
     join_order: Optional[JoinTree],
@@ -2220,7 +2242,7 @@ def _generate_pghintplan_hints(
     used_parallel: bool = False
 
     geqo_thresh: str = pg_instance.config["geqo_threshold"]
-    if len(query.tables()) > int(geqo_thresh):
+    if len(query.tables()) >= int(geqo_thresh):
         warnings.warn(
             "Temporarily disabling GEQO. pg_hint_plan only works with the DP optimizer.",
             category=HintWarning,
@@ -2233,6 +2255,7 @@ def _generate_pghintplan_hints(
         hints.append(f"Leading({join_str})")
 
     if phys_ops:
+        _check_join_directions(phys_ops, join_order)
         for scan in phys_ops.scan_operators.values():
             op = PGHintPlanOptimizerHints[scan.operator]
             tab = scan.table.identifier()
@@ -2240,7 +2263,7 @@ def _generate_pghintplan_hints(
             if scan.parallel_workers > 1 and not used_parallel:
                 hints.append(f"Parallel({tab} {scan.parallel_workers} hard)")
                 used_parallel = True
-            elif used_parallel:
+            elif scan.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2262,7 +2285,8 @@ def _generate_pghintplan_hints(
                     hints.append(
                         f"Parallel({tab.identifier()} {join.parallel_workers} hard)"
                     )
-            elif used_parallel:
+                used_parallel = True
+            elif join.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2298,6 +2322,13 @@ def _generate_pghintplan_hints(
                     stacklevel=3,
                 )
                 continue
+            if len(tabs) < 2:
+                warnings.warn(
+                    f"pg_hint_plan cannot set the cardinality of base table {intermediate}. Ignoring this hint",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+                continue
 
             hints.append(f"Rows({intermediate} #{card.value})")
 
@@ -2312,8 +2343,15 @@ def _generate_pghintplan_hints(
                 )
                 continue
 
-            intermediate = " ".join(tab.identifier() for tab in tabs)
-            hints.append(f"Parallel({intermediate} {workers} hard)")
+            if len(tabs) > 1:
+                warnings.warn(
+                    "Cannot directly set parallel workers on a join with pg_hint_plan. "
+                    "Setting on all base tables instead.",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+            for tab in tabs:
+                hints.append(f"Parallel({tab.identifier()} {workers} hard)")
             used_parallel = True
 
         for setting, val in plan_params.system_settings.items():
@@ -2351,7 +2389,7 @@ def _generate_pglab_hints(
     has_worker_params = plan_params is not None and plan_params.parallel_workers
     used_parallel = False
 
-    if has_worker_params and phys_ops is None:
+    if has_worker_params and not phys_ops:
         warnings.warn(
             "pg_lab can only force parallel execution of nodes with known operators. Ignoring worker hints.",
             category=HintWarning,
@@ -2378,6 +2416,7 @@ def _generate_pglab_hints(
         hints.append(f"JoinOrder({join_str})")
 
     if phys_ops:
+        _check_join_directions(phys_ops, join_order)
         for scan in phys_ops.scan_operators.values():
             op = PGLabOptimizerHints[scan.operator]
             table = scan.table.identifier()
@@ -2386,14 +2425,14 @@ def _generate_pglab_hints(
                 # TODO: check for off-by-one errors!!!
                 hint = f"{op}({table} (workers={scan.parallel_workers}))"
                 used_parallel = True
-            elif scan.parallel_workers > 1 and used_parallel:
-                warnings.warn(
-                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                    category=HintWarning,
-                    stacklevel=3,
-                )
             else:
                 hint = f"{op}({table})"
+                if scan.parallel_workers > 1:
+                    warnings.warn(
+                        "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                        category=HintWarning,
+                        stacklevel=3,
+                    )
             hints.append(hint)
 
         for join in phys_ops.join_operators.values():
@@ -2403,18 +2442,25 @@ def _generate_pglab_hints(
             if join.parallel_workers > 1 and not used_parallel:
                 hint = f"{op}({intermediate} (workers={join.parallel_workers}))"
                 used_parallel = True
-            elif join.parallel_workers > 1 and used_parallel:
-                warnings.warn(
-                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                    category=HintWarning,
-                    stacklevel=3,
-                )
             else:
                 hint = f"{op}({intermediate})"
+                if join.parallel_workers > 1:
+                    warnings.warn(
+                        "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                        category=HintWarning,
+                        stacklevel=3,
+                    )
             hints.append(hint)
 
         for tabs, intermediate_op in phys_ops.intermediate_operators.items():
-            op = PGLabOptimizerHints[intermediate_op]
+            op = PGLabOptimizerHints.get(intermediate_op)
+            if not op:
+                warnings.warn(
+                    f"Cannot enforce operator {intermediate_op} with pg_lab. Ignoring this hint",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+                continue
             intermediate = " ".join(tab.identifier() for tab in tabs)
             hints.append(f"{op}({intermediate})")
 
@@ -2470,12 +2516,17 @@ def _extract_plan_join_order(plan: QueryPlan) -> str:
     return f"({outer} {inner})"
 
 
-def _iter_plan_bfs(plan: QueryPlan) -> Generator[QueryPlan, None, None]:
-    queue = collections.deque([plan])
+def _iter_plan_bfs(
+    plan: QueryPlan,
+) -> Generator[tuple[QueryPlan, QueryPlan | None], None, None]:
+    """Provides all plan nodes along with their parents."""
+    queue: collections.deque[tuple[QueryPlan, QueryPlan | None]] = collections.deque(
+        [(plan, None)]
+    )
     while queue:
-        node = queue.popleft()
-        queue.extend(node.children)
-        yield node
+        node, parent = queue.popleft()
+        queue.extend((child, node) for child in node.children)
+        yield node, parent
 
 
 def _generate_pglab_plan(
@@ -2487,13 +2538,16 @@ def _generate_pglab_plan(
 
     used_parallel = False
     in_upperrel = True
-    par_workers: Optional[int] = None
-    for node in _iter_plan_bfs(plan):
+    # workers that are requested by an auxiliary node (e.g. Gather) apply to the first scan or join below that node
+    pending_workers: dict[int, int | None] = {}
+    for node, parent in _iter_plan_bfs(plan):
         if node.is_scan() or node.is_join():
             in_upperrel = False
 
-        par_workers = (
-            node.parallel_workers if node.parallel_workers > 0 else par_workers
+        par_workers: Optional[int] = (
+            node.parallel_workers
+            if node.parallel_workers > 0
+            else pending_workers.get(id(parent))
         )
         if in_upperrel and par_workers and not used_parallel:
             hints.append(f"Result(workers={par_workers})")
@@ -2505,29 +2559,27 @@ def _generate_pglab_plan(
                 category=HintWarning,
                 stacklevel=3,
             )
+            par_workers = None
 
-        if node.operator is None:
-            continue
         operator = PGLabOptimizerHints.get(node.operator)
-        if not operator:
-            continue
         intermediate = " ".join(tab.identifier() for tab in node.tables())
-
-        if par_workers and not used_parallel:
-            metadata = f" (workers={par_workers})"
-            par_workers = None
-            used_parallel = True
-        elif par_workers and used_parallel:
-            metadata = ""
-            warnings.warn(
-                "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
-                category=HintWarning,
-                stacklevel=3,
-            )
-        else:
+        if operator:
             metadata = ""
-        hints.append(f"{operator}({intermediate}{metadata})")
+            if par_workers and not used_parallel:
+                metadata = f" (workers={par_workers})"
+                used_parallel = True
+            elif par_workers and used_parallel:
+                warnings.warn(
+                    "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+            par_workers = None
+            hints.append(f"{operator}({intermediate}{metadata})")
+        pending_workers[id(node)] = par_workers
 
+        if not node.is_scan() and not node.is_join():
+            continue
         card = node.actual_cardinality or node.estimated_cardinality
         if card.is_valid():
             hints.append(f"Card({intermediate} #{card})")
@@ -2939,7 +2991,7 @@ class PostgresOptimizer(OptimizerInterface):
                 f"Cannot configure operator {operator} as it is not supported by Postgres"
             )
         status = "on" if enabled else "off"
-        self._pg_instance.cursor.execute(f"SET {setting_name} TO {status}")  # type: ignore
+        self._pg_instance.cursor().execute(f"SET {setting_name} TO {status}")  # type: ignore
 
     def uses_geqo(self, query: SqlQuery) -> bool:
         pass
-- 
2.43.0


From 60235410a31785f75703c1935be0aa27e5144ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 035/108] fix: exhaustive and random plan enumeration cover
 isolated tables, linear trees and partial operator assignments

---
 postbound/opt/enumeration.py | 28 +++++++++++++++++++++++-----
 postbound/opt/randomized.py  |  9 ++++++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 17f5548..51faf7d 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -154,10 +154,11 @@ class ExhaustiveJoinOrderEnumerator:
         For now, the underlying algorithm is limited to queries without cross-products.
         """
         if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
+            yield from self._linear_join_orders(query)
             return
 
         join_graph = query.predicates().join_graph()
+        join_graph.add_nodes_from(query.tables())
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
@@ -196,13 +197,28 @@ class ExhaustiveJoinOrderEnumerator:
             A generator that produces all possible join orders for the input query.
         """
         join_graph = query.predicates().join_graph()
+        join_graph.add_nodes_from(query.tables())
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
+        if len(join_graph.nodes) == 0:
+            return
+        elif not nx.is_connected(join_graph):
+            raise ValueError(
+                "Cross products are not yet supported for random join order generation!"
+            )
+
+        # different frontier walks can visit the tables in the same sequence
+        join_order_hashes = set()
         for join_path in nx_utils.nx_frontier_walks(join_graph):
             join_tree = JoinTree()
             for table in join_path.nodes():
                 join_tree = join_tree.join_with(table, partner_direction=direction)
 
+            current_hash = hash(join_tree)
+            if current_hash in join_order_hashes:
+                continue
+
+            join_order_hashes.add(current_hash)
             yield join_tree
 
 
@@ -294,11 +310,13 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
-        tables = list(query.tables())
+        tables = list(join_order.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
         joins = [join.tables() for join in join_order.iterjoins()]
         join_ops = [list(self.allowed_join_ops)] * len(joins)
@@ -365,7 +383,7 @@ class ExhaustiveOperatorEnumerator:
         Generator[PhysicalOperatorAssignment, None, None]
             A generator producing all possible operator assignments. The assignments will not contain any cost estimates, nor
             will they specify join directions or parallization data."""
-        tables = list(query.tables())
+        tables = list(join_order.tables())
         scans = [list(self.allowed_scan_ops)] * len(tables)
         for scan_selection in itertools.product(*scans):
             current_scan_pairs = zip(tables, scan_selection)
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5e22998..d5bec8d 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -188,13 +188,16 @@ class RandomJoinOrderGenerator:
         For now, the underlying algorithm is limited to queries without cross-products.
         """
         join_graph = query.predicates().join_graph()
+        join_graph.add_nodes_from(query.tables())
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
             base_table = list(join_graph.nodes)[0]
             join_tree = JoinTree.scan(base_table)
-            while True:
+            yield join_tree
+            while not self._eliminate_duplicates:
                 yield join_tree
+            return
         elif not nx.is_connected(join_graph):
             raise ValueError(
                 "Cross products are not yet supported for random join order generation!"
@@ -420,14 +423,14 @@ class RandomOperatorGenerator:
             current_assignment = PhysicalOperatorAssignment()
 
             if self._include_joins:
-                for join in join_order.iterjoins():
+                for join in join_order.iterjoins() if join_order else []:
                     selected_operator = random.choice(allowed_joins)
                     current_assignment.set_join_operator(
                         JoinOperatorAssignment(selected_operator, join.tables())
                     )
 
             if self._include_scans:
-                for table in join_order.tables():
+                for table in join_order.tables() if join_order else query.tables():
                     selected_operator = random.choice(allowed_scans)
                     current_assignment.set_scan_operator(
                         ScanOperatorAssignment(selected_operator, table)
-- 
2.43.0


From 2154dac32ced5f703ff07046d787a310aef221c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 036/108] fix: make the dynamic programming enumerators usable
 with merge joins, unqualified stars and indexes

---
 postbound/opt/dynprog.py | 41 +++++++++++++++++++++++++++-------------
 postbound/qal/_qal.py    |  7 +++++--
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..154378a 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -69,10 +69,12 @@ def _collect_used_columns(
 ) -> set[ColumnReference]:
     columns = query.columns_of(table)
     for star_expression in query.select_clause.star_expressions():
-        if table not in star_expression.tables():
+        # an unqualified star requires the columns of all tables
+        star_tables = star_expression.tables()
+        if star_tables and table not in star_tables:
             continue
 
-        columns |= schema.columns(table)
+        columns.update(schema.columns(table))
     return columns
 
 
@@ -257,7 +259,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
             for column in required_columns
         }
 
-        if not candidate_indexes:
+        if not any(candidate_indexes.values()):
             return []
 
         candidate_plans: list[QueryPlan] = []
@@ -398,7 +400,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.NestedLoopJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -407,7 +409,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.HashJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -418,7 +420,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.SortMergeJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -762,9 +764,12 @@ class PostgresDynProg(PlanEnumerator):
             # Postgres uses a fuzzy cost comparison (compare_path_costs_fuzzily() from pathnode.c) and evicts old paths even
             # if there cost is slightly better than the new path, if the new path is better sorted.
             old_cost = old_path.estimated_cost
+            same_sorting = self._same_sorting(
+                path.sort_keys, other=old_path.sort_keys
+            )
             new_dominates = (
                 new_cost < old_cost
-                if self._same_sorting(path.sort_keys, other=old_path.sort_keys)
+                if same_sorting
                 else new_cost <= 1.01 * old_cost
             )
 
@@ -772,6 +777,9 @@ class PostgresDynProg(PlanEnumerator):
                 # The new path is better (or at least equally) sorted and cheaper, we can evict the old path
                 keep_new = True  # strictly speaking, this is not necessary, but it makes our intention clearer
                 continue  # don't break here, we need to check the remaining paths
+            elif not same_sorting:
+                # The existing path is cheaper, but the new one is better sorted. We need to keep both.
+                result_paths.append(old_path)
             else:
                 # The existing path is better (or at least equally) sorted and cheaper, we don't need the new path.
                 # This also means that we can stop checking the remaining paths. The new one won't get added and the old ones
@@ -1027,7 +1035,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
@@ -1316,7 +1324,9 @@ class PostgresDynProg(PlanEnumerator):
 
         base_table = util.simplify(rel.intermediate)
         filter_condition = self.predicates.filters_for(base_table)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         idx_only_scan = (
             ScanOperator.IndexOnlyScan in self._scan_ops and len(required_columns) <= 1
         )
@@ -1339,6 +1349,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1349,6 +1360,7 @@ class PostgresDynProg(PlanEnumerator):
                         base_table=base_table,
                         index=index,
                         sort_keys=sorting,
+                        estimated_cardinality=rel.cardinality,
                         filter_predicate=filter_condition,
                         estimated_workers=workers,
                     )
@@ -1381,12 +1393,14 @@ class PostgresDynProg(PlanEnumerator):
         # Notice that the hinting backend is responsible for selecting the appropriate bitmap index hierarchies.
 
         base_table = util.simplify(rel.intermediate)
-        required_columns = self.query.columns_of(base_table)
+        required_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         candidate_indexes = {
             column: self.target_db.schema().indexes_on(column)
             for column in required_columns
         }
-        if not candidate_indexes:
+        if not any(candidate_indexes.values()):
             # We only check if there are no candidate indexes at all and explicitly accept the case where there is a single
             # candidate index. This is because we can still perform an index lookup followed by a sequential scan of the pages.
             # This might be better than doing a full sequential scan or a full random I/O index scan.
@@ -1401,6 +1415,7 @@ class PostgresDynProg(PlanEnumerator):
             ScanOperator.BitmapScan,
             base_table=base_table,
             indexes=candidate_indexes,
+            estimated_cardinality=rel.cardinality,
             filter_predicate=filter_condition,
             estimated_workers=workers,
         )
@@ -1664,7 +1679,7 @@ class PostgresDynProg(PlanEnumerator):
         if not self._max_workers:
             return 0
         n_pages = self.target_db.statistics().n_pages(relation)
-        workers = math.log(n_pages, 3)
+        workers = math.log(max(n_pages, 1), 3)
         if self._max_workers is None:
             return round(workers)
         return min(self._max_workers, round(workers))
@@ -1730,7 +1745,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 42a4bd4..61f2e5c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4978,8 +4978,11 @@ class QueryPredicates:
                 map_key = frozenset((first, second))
                 if map_key not in self._join_predicate_map:
                     continue
-                current_predicate = self._join_predicate_map[map_key]
-                join_predicates.add(current_predicate)
+                match self._join_predicate_map[map_key]:
+                    case CompoundPredicate(CompoundOperator.And, children):
+                        join_predicates.update(children)
+                    case current_predicate:
+                        join_predicates.add(current_predicate)
         if not join_predicates:
             return None
         return CompoundPredicate.create_and(join_predicates)
-- 
2.43.0


From 90e3d88263722da192baeab802ee4e2bdf0da427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 037/108] fix: bind DuckDB scan nodes that report several
 filters

---
 postbound/duckdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index ade2528..a6ed71c 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -481,7 +481,10 @@ def _bind_node_to_table(
         candidate: "".join(pred.split()) for candidate, pred in query_filters.items()
     }
 
-    plan_filter: str = scan_node.get("extra_info", {}).get("Filters", "")
+    plan_filter: str | list[str] = scan_node.get("extra_info", {}).get("Filters", "")
+    if not isinstance(plan_filter, str):
+        # scans with multiple filters report them as a list
+        plan_filter = " AND ".join(plan_filter)
     plan_filter = "".join(plan_filter.split())
 
     node_trigram = set(stats.trigrams(plan_filter))
-- 
2.43.0


From fbb3c392c1cccba5ad1a422169d087da8dbfc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 038/108] fix: pre-checks handle set queries, nested queries
 and explicit joins, compound checks test the database system

---
 postbound/qal/_qal.py   |  2 +-
 postbound/validation.py | 93 +++++++++++++++++++++++++++++++++--------
 2 files changed, 77 insertions(+), 18 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 61f2e5c..cc93da3 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6812,7 +6812,7 @@ class JoinTableSource(TableSource):
         self._left = left
         self._right = right
         self._join_condition = join_condition
-        self._join_type = join_type if join_condition else JoinType.CrossJoin
+        self._join_type = join_type
         self._hash_val = hash(
             (self._left, self._right, self._join_condition, self._join_type)
         )
diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..4e79f92 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -13,8 +13,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-import networkx as nx
-
 from . import util
 from ._core import PhysicalOperator
 from ._hints import HintType
@@ -29,10 +27,14 @@ from .qal import (
     DirectTableSource,
     ExplicitFromClause,
     From,
+    FunctionTableSource,
     ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
+    SelectStatement,
+    SetQuery,
     SqlQuery,
     SubqueryTableSource,
     TableSource,
@@ -49,6 +51,25 @@ CrossProductFailure = "CROSS_PRODUCT"
 VirtualTablesFailure = "VIRTUAL_TABLES"
 JoinPredicateFailure = "BAD_JOIN_PREDICATE"
 
+_InnerJoinTypes = {JoinType.InnerJoin, JoinType.NaturalInnerJoin, JoinType.CrossJoin}
+
+
+def _expand_set_query(query: SelectStatement) -> list[SelectStatement]:
+    """Provides all plain queries that are (recursively) combined by a set operation."""
+    if not isinstance(query, SetQuery):
+        return [query]
+    return _expand_set_query(query.left_query) + _expand_set_query(query.right_query)
+
+
+def _nested_queries(query: SelectStatement) -> list[SelectStatement]:
+    """Provides all queries that are used within a query, no matter how deeply they are nested."""
+    nested = list(query.subqueries())
+    if query.cte_clause:
+        nested += [with_query.query for with_query in query.cte_clause.queries]
+    if isinstance(query, SetQuery):
+        nested += [query.left_query, query.right_query]
+    return nested + util.flatten(_nested_queries(child) for child in nested)
+
 
 @dataclass
 class PreCheckResult:
@@ -339,13 +360,16 @@ class CompoundCheck(OptimizationPreCheck):
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
         check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
-        )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
+        return PreCheckResult.merge(check_results)
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        check_results = [
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
+        ]
+        return PreCheckResult.merge(check_results)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
@@ -438,7 +462,7 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        no_cross_products = not query.contains_cross_product()
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
@@ -475,9 +499,10 @@ class EquiJoinPreCheck(OptimizationPreCheck):
         self._allow_nesting = allow_nesting
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        join_predicates = query.predicates().joins()
         all_passed = all(
-            self._perform_predicate_check(join_pred) for join_pred in join_predicates
+            self._perform_predicate_check(join_pred)
+            for member_query in _expand_set_query(query)
+            for join_pred in member_query.predicates().joins()
         )
         failure_reason = "" if all_passed else EquiJoinFailure
         return PreCheckResult(all_passed, failure_reason)
@@ -573,6 +598,11 @@ class InnerJoinPreCheck(OptimizationPreCheck):
         super().__init__("inner-joins-only")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if isinstance(query, SetQuery):
+            return PreCheckResult.merge(
+                self.check_supported_query(member) for member in _expand_set_query(query)
+            )
+
         if not query.from_clause:
             return PreCheckResult.with_all_passed()
 
@@ -593,14 +623,14 @@ class InnerJoinPreCheck(OptimizationPreCheck):
     def _check_table_source(self, source: TableSource) -> PreCheckResult:
         """Handler method to check a single table source."""
         match source:
-            case DirectTableSource() | ValuesTableSource():
+            case DirectTableSource() | ValuesTableSource() | FunctionTableSource():
                 return PreCheckResult.with_all_passed()
             case SubqueryTableSource(subquery):
                 return self.check_supported_query(subquery)
             case JoinTableSource(left, right, _, join_type):
                 checks = (
                     [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
+                    if join_type not in _InnerJoinTypes
                     else []
                 )
                 checks.extend(
@@ -635,7 +665,11 @@ class DependentSubqueryPreCheck(OptimizationPreCheck):
         super().__init__("no-dependent-subquery")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        passed = not any(subquery.is_dependent() for subquery in query.subqueries())
+        passed = not any(
+            subquery.is_dependent()
+            for nested_query in [query, *_nested_queries(query)]
+            for subquery in nested_query.subqueries()
+        )
         failure_reason = "" if passed else DependentSubqueryFailure
         return PreCheckResult(passed, failure_reason)
 
@@ -650,7 +684,10 @@ class SetOperationsPreCheck(OptimizationPreCheck):
         super().__init__("no-set-operations")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        passed = not query.is_set_query()
+        passed = not any(
+            nested_query.is_set_query()
+            for nested_query in [query, *_nested_queries(query)]
+        )
         failure_reason = "" if passed else "SET_OPERATION"
         return PreCheckResult(passed, failure_reason)
 
@@ -682,7 +719,7 @@ class SupportedHintCheck(OptimizationPreCheck):
         self, database_instance: Database
     ) -> PreCheckResult:
         failures = [
-            hint
+            str(hint)
             for hint in self._features
             if not database_instance.hinting().supports_hint(hint)
         ]
@@ -692,6 +729,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
@@ -732,3 +777,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
-- 
2.43.0


From 3374bd237983bbfc67a88dc83e265549ed6c2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 039/108] fix: pipelines discard stale builds and pre-checks,
 emulated cardinality estimators are initialized, native parameters are
 returned

---
 postbound/_pipelines.py  | 20 +++++++++++++-------
 postbound/_stages.py     |  4 ++++
 postbound/opt/native.py  |  2 +-
 postbound/opt/presets.py |  4 +++-
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..dbb7d12 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
@@ -427,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -440,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
@@ -721,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._support_check: OptimizationPreCheck = EmptyPreCheck()
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -956,9 +958,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._support_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._support_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -981,8 +983,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        supported_query_check = self._support_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1034,7 +1035,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": self._describe_pre_check(),
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
@@ -1048,6 +1049,11 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
             else None,
         }
 
+    def _describe_pre_check(self) -> Optional[jsondict]:
+        """Describes all checks that are currently being applied to the input queries."""
+        check = self._support_check if self._build else self._pre_check
+        return check.describe() if check else None
+
     def _assert_is_build(self) -> None:
         """Raises an error if the pipeline has not been build yet."""
         if not self._build:
diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..fec9be2 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1027,11 +1027,15 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
             if self._operator_selection is not None
             else None
         )
+        if isinstance(self._plan_parameterization, CardinalityEstimator):
+            self._plan_parameterization.initialize(self.database, query)
         plan_params = (
             self._plan_parameterization.generate_plan_parameters(query, None, None)
             if self._plan_parameterization is not None
             else None
         )
+        if isinstance(self._plan_parameterization, CardinalityEstimator):
+            self._plan_parameterization.cleanup()
         hinted_query = self.database.hinting().generate_hints(
             query,
             join_order=join_order,
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..a108970 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -515,7 +515,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
diff --git a/postbound/opt/presets.py b/postbound/opt/presets.py
index 46146c3..e8cad9c 100644
--- a/postbound/opt/presets.py
+++ b/postbound/opt/presets.py
@@ -105,7 +105,9 @@ class NativeOptimizationSettings(OptimizationSettings):
     """
 
     def __init__(self, database: Optional[Database] = None) -> None:
-        self.database = database
+        self.database = (
+            database if database else DatabasePool.get_instance().current_database()
+        )
 
     def build_join_order_optimizer(self) -> Optional[JoinOrderOptimization]:
         return native.NativeJoinOrderOptimizer(self.database)
-- 
2.43.0


From 239ae3431f1e3efd03f5928fedc465ff927599f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 040/108] fix: subqueries over VALUES lists or derived tables
 are not dependent, CTEs do not bind outer tables

---
 postbound/qal/_qal.py | 49 ++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index cc93da3..eaf2e0d 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8364,10 +8364,21 @@ def _collect_bound_tables(from_clause: From) -> set[TableReference]:
         return from_clause.tables()
     else:
         return util.set_union(
-            _collect_bound_tables_from_source(src) for src in from_clause.items
+            _collect_bound_tables_from_source(src) | _collect_source_tables(src)
+            for src in from_clause.items
         )
 
 
+def _collect_cte_bound_tables(
+    cte_clause: CommonTableExpression,
+) -> set[TableReference]:
+    """Provides all tables that are "produced" by the queries of a CTE, including the CTE tables themselves."""
+    return util.set_union(
+        with_query.query.bound_tables() | {with_query.target_table}
+        for with_query in cte_clause.queries
+    )
+
+
 FromClauseType = TypeVar("FromClauseType", bound=From)
 
 
@@ -9075,7 +9086,9 @@ class SqlQuery:
         subquery_produced_tables = util.set_union(
             subquery.bound_tables() for subquery in self.subqueries()
         )
-        cte_produced_tables = self.cte_clause.tables() if self.cte_clause else set()
+        cte_produced_tables = (
+            _collect_cte_bound_tables(self.cte_clause) if self.cte_clause else set()
+        )
         own_produced_tables = (
             _collect_bound_tables(self.from_clause) if self.from_clause else set()
         )
@@ -9093,28 +9106,7 @@ class SqlQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        if self.from_clause:
-            virtual_subquery_targets = {
-                subquery_source.target_table
-                for subquery_source in self.from_clause.items
-                if isinstance(subquery_source, SubqueryTableSource)
-            }
-        else:
-            virtual_subquery_targets = set()
-
-        if self.cte_clause:
-            virtual_cte_targets = {
-                with_query.target_table for with_query in self.cte_clause.queries
-            }
-        else:
-            virtual_cte_targets = set()
-
-        return (
-            self.tables()
-            - self.bound_tables()
-            - virtual_subquery_targets
-            - virtual_cte_targets
-        )
+        return self.tables() - self.bound_tables()
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
@@ -9942,7 +9934,7 @@ class SetQuery:
         set[TableReference]
             All tables that are bound (i.e. listed in any *FROM* clause or a CTE) of the query.
         """
-        cte_tables = self._cte.tables() if self._cte else set()
+        cte_tables = _collect_cte_bound_tables(self._cte) if self._cte else set()
         return self._lhs.bound_tables() | self._rhs.bound_tables() | cte_tables
 
     def unbound_tables(self) -> set[TableReference]:
@@ -9958,7 +9950,12 @@ class SetQuery:
             The unbound tables that have to be supplied as part of an outer query
         """
         input_tables = self._lhs.unbound_tables() | self._rhs.unbound_tables()
-        return input_tables - self._cte.tables() if self._cte else input_tables
+        if not self._cte:
+            return input_tables
+        cte_queries = self._cte.queries
+        cte_tables = util.set_union(wq.query.unbound_tables() for wq in cte_queries)
+        cte_targets = {with_query.target_table for with_query in cte_queries}
+        return (input_tables | cte_tables) - cte_targets
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
-- 
2.43.0


From 6b429eb41157bff19e240413b212e6cfb7ed8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 041/108] fix: failures without reasons and checks on set
 queries are not ignored, merge_checks keeps additional checks

---
 postbound/validation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 4e79f92..6a3040b 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -119,14 +119,16 @@ class PreCheckResult:
         PreCheckResult
             The merged check result
         """
+        all_passed = True
         failures: list[str] = []
         for check in checks:
             if check.passed:
                 continue
+            all_passed = False
             failures.extend(util.enlist(check.failure_reason))
         return (
             PreCheckResult.with_all_passed()
-            if not failures
+            if all_passed
             else PreCheckResult.with_failure(failures)
         )
 
@@ -170,7 +172,7 @@ class PreCheckResult:
             return
         if context is None:
             raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
-        elif isinstance(context, SqlQuery):
+        elif isinstance(context, (SqlQuery, SetQuery)):
             raise UnsupportedQueryError(context, self.failure_reason)
         elif isinstance(context, Database):
             raise UnsupportedSystemError(context, self.failure_reason)
@@ -413,7 +415,7 @@ def merge_checks(
         A check that combines all of the given checks.
     """
     if not checks:
-        return EmptyPreCheck()
+        checks = []
     all_checks = (
         {checks} if isinstance(checks, OptimizationPreCheck) else set(checks)
     ) | set(more_checks)
@@ -713,7 +715,7 @@ class SupportedHintCheck(OptimizationPreCheck):
         self, hints: HintType | PhysicalOperator | Iterable[HintType | PhysicalOperator]
     ) -> None:
         super().__init__("database-check")
-        self._features = util.enlist(hints)
+        self._features = list(util.enlist(hints))
 
     def check_supported_database_system(
         self, database_instance: Database
-- 
2.43.0


From e40a9ef924a8323ed3961cf90b257af0883b0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 042/108] fix: benchmarks record every execution exactly once,
 also for ignored errors, timeouts and failed optimizations, and write all
 output formats

---
 postbound/bench.py | 86 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 24 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..9babaf2 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -627,6 +627,11 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+def _simplify_sample(result_set: ResultSet | None) -> Any:
+    """Simplifies the result set of an execution. Executions without a result (i.e. timeouts and errors) remain *None*."""
+    return simplify_result_set(result_set) if result_set is not None else None
+
+
 class _ResultSample:
     """A result sample corresponds to all executions of a single query within one workload repetition.
 
@@ -693,6 +698,10 @@ class _ResultSample:
     def start_execution(self) -> None:
         self.timestamps.append(datetime.now())
 
+    def discard_execution(self) -> None:
+        """Drops the execution that was started last, but did not produce any sample."""
+        self.timestamps.pop()
+
     def add_exec_sample(
         self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
     ) -> None:
@@ -729,7 +738,7 @@ class _ResultSample:
         if self._optimization_failure or not self.result_sets:
             return None
 
-        result_set = simplify_result_set(self.result_sets[-1])
+        result_set = _simplify_sample(self.result_sets[-1])
         return ExecutionResult(
             query=self.query,
             status=self.status[-1],
@@ -744,7 +753,7 @@ class _ResultSample:
             return pd.DataFrame()
 
         if only_last:
-            result_set = simplify_result_set(self.result_sets[-1])
+            result_set = _simplify_sample(self.result_sets[-1])
             rows = {
                 "exec_index": [self._initial_idx + n_samples - 1],
                 "label": [self.label],
@@ -771,7 +780,7 @@ class _ResultSample:
                 "query_repetition": [i + 1 for i in range(n_samples)],
                 "query": [self.query] * n_samples,
                 "status": self.status,
-                "query_result": [simplify_result_set(rs) for rs in self.result_sets],
+                "query_result": [_simplify_sample(rs) for rs in self.result_sets],
                 "exec_time": self.exec_times,
                 "failure_reason": self.failure_reasons,
                 "db_config": self.db_configs,
@@ -799,11 +808,13 @@ class _ResultSample:
             results.append(sample)
         return results
 
-    def write_progressive(self, file: Path | None, output_args: dict) -> None:
+    def write_progressive(
+        self, file: Path | None, output_args: dict, *, only_last: bool = True
+    ) -> None:
         if file is None:
             return
 
-        df = self.to_df(only_last=True)
+        df = self.to_df(only_last=only_last)
         df = prepare_export(df)
 
         match file.suffix:
@@ -828,6 +839,13 @@ class _ResultSample:
     def _write_parquet(
         self, df: pd.DataFrame, file: Path, *, writer_args: dict
     ) -> None:
+        # Parquet columns can only have a single type, but different queries compute different kinds of results
+        df = df.assign(
+            query_result=[
+                util.to_json(res) if isinstance(res, (int, float, bool)) else res
+                for res in df["query_result"].astype(object)
+            ]
+        )
         if file.is_file():
             existing_results = pd.read_parquet(file)
             df = pd.concat([existing_results, df], ignore_index=True)
@@ -853,13 +871,16 @@ class _ResultSample:
             df.to_hdf(file, mode="w", index=False, **writer_args)
 
     def _write_json(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
+        writer_args = {"orient": "records"} | writer_args
         if file.is_file():
-            existing_results = pd.read_json(file)
+            existing_results = pd.read_json(
+                file, orient=writer_args["orient"], dtype=False, convert_dates=False
+            )
             df = pd.concat([existing_results, df], ignore_index=True)
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
 
-        df.to_json(file, index=False, **writer_args)
+        df.to_json(file, **writer_args)
 
     def __len__(self) -> int:
         return self.num_executions()
@@ -881,7 +902,6 @@ class _ExecutionResults:
         self.query_reps = query_reps
         self.query_prep = query_prep
 
-        self._execution_counter = 1
         self._workload_rep = 0
         self._samples: list[_ResultSample] = []
 
@@ -889,14 +909,11 @@ class _ExecutionResults:
         self._workload_rep += 1
 
     def next_query(self, query: SqlQuery, *, label: str) -> _ResultSample:
-        if self._samples:
-            last_sample = self._samples[-1]
-            self._execution_counter += last_sample.num_executions()
-
+        n_executions = sum(sample.num_executions() for sample in self._samples)
         sample = _ResultSample(
             query=query,
             label=label,
-            initial_exec_idx=self._execution_counter,
+            initial_exec_idx=n_executions + 1,
             current_workload_rep=self._workload_rep,
             query_prep=self.query_prep,
             max_query_reps=self.query_reps,
@@ -912,8 +929,8 @@ class _ExecutionResults:
 
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
-        samples = [sample.to_df() for sample in self._samples]
-        return pd.concat(samples, ignore_index=True)
+        samples = [sample.to_df() for sample in self._samples if len(sample)]
+        return pd.concat(samples, ignore_index=True) if samples else pd.DataFrame()
 
 
 def _exec_ctl_loop(
@@ -944,13 +961,14 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            sample.discard_execution()
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
 
-    if cfg.output and sample.last_successful():
+    if cfg.output:
         sample.write_progressive(cfg.output, cfg.output_args)
 
     if cfg.exec_callback and sample.last_successful():
@@ -984,7 +1002,9 @@ def _workload_ctl_loop(
         if sample.failed_optimization():
             match cfg.error_action:
                 case "log" if cfg.output:
-                    sample.write_progressive(cfg.output, cfg.output_args)
+                    sample.write_progressive(
+                        cfg.output, cfg.output_args, only_last=False
+                    )
                 case "log" if not cfg.output:
                     # we handle the output to CSV as part of the normal result export, no need to do anything here
                     pass
@@ -1009,6 +1029,9 @@ def _workload_ctl_loop(
             continue
 
         for exec_result in sample.to_execution_results():
+            if exec_result.status != "ok":
+                # timeouts are not used as feedback
+                continue
             assert exec_result.query_result is not None
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
@@ -1264,9 +1287,20 @@ def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
 
     prepared_df = results_df.copy()
 
-    example_result = prepared_df.iloc[0]
-    for col in example_result.index:
-        if not isinstance(example_result[col], (list, tuple, dict, Jsonizable)):
+    if "optimization_pipeline" in prepared_df.columns:
+        prepared_df["optimization_pipeline"] = [
+            pipeline.describe()
+            if isinstance(pipeline, OptimizationPipeline)
+            else pipeline
+            for pipeline in prepared_df["optimization_pipeline"]
+        ]
+
+    for col in prepared_df.columns:
+        needs_conversion = any(
+            isinstance(value, (list, tuple, dict, Jsonizable))
+            for value in prepared_df[col]
+        )
+        if not needs_conversion:
             continue
 
         prepared_df[col] = prepared_df[col].apply(util.to_json)
@@ -1299,6 +1333,10 @@ def sort_results(
     pd.DataFrame
         A reordered data frame. The original data frame is not modified
     """
-    return results_df.sort_values(
-        by=by_column, key=lambda series: np.argsort(natsort.index_natsorted(series))
-    )
+    by_column = [by_column] if isinstance(by_column, str) else list(by_column)
+
+    def natural_ranks(series: pd.Series) -> pd.Series:
+        values = natsort.natsorted(series.unique())
+        return series.map({value: rank for rank, value in enumerate(values)})
+
+    return results_df.sort_values(by=by_column, key=natural_ranks)
-- 
2.43.0


From dc0ae9006a8365eb0c2c7fb17eba3321b2dd27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 043/108] fix: generate_workload keeps repeated queries

---
 postbound/workloads.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..c8fe9c6 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -913,11 +913,10 @@ def generate_workload(
         Path(workload_root) if isinstance(workload_root, str) else workload_root
     )
     name = name if name else (workload_root.stem if workload_root else "")
-    if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
-    workload_contents = util.dicts.invert(labels)
+    if labels:
+        workload_contents = util.dicts.invert(labels)
+    else:
+        workload_contents = {idx + 1: query for idx, query in enumerate(queries)}
     return Workload(workload_contents, name, workload_root)
 
 
-- 
2.43.0


From 86d98a019d178b92cc59c6ed2ec372d244929181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 044/108] fix: emulated statistics quote the identifiers of
 tables and columns

---
 postbound/db/_db.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..86ff34b 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -43,6 +43,7 @@ from .._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from .._hints import (
     HintType,
@@ -1732,6 +1733,12 @@ type HistogramApproximation = Literal["approx-uni", "bound"]
 """The strategy to estimate the frequency of values that are not exactly on the bucket bounds of a histogram."""
 
 
+def _qualified_name(table: TableReference) -> str:
+    """Provides the name of a table as it has to be written in a query."""
+    name = quote(table.full_name)
+    return f"{quote(table.schema)}.{name}" if table.schema else name
+
+
 def _infer_histogram_bounds[T](
     frequencies: Sequence[tuple[T, int]], *, n_bins: int, n_rows: int
 ) -> tuple[T, Sequence[T], Sequence[int]]:
@@ -2714,7 +2721,7 @@ class DatabaseStatistics(abc.ABC):
         int
             The total number of rows in the table.
         """
-        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.full_name)
+        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=_qualified_name(table))
         return self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
@@ -2742,7 +2749,7 @@ class DatabaseStatistics(abc.ABC):
             The number of distinct values in the column
         """
         query_template = "SELECT COUNT(DISTINCT {col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=_qualified_name(column.table)
         )
         return self._db.execute_query(
             query_template,
@@ -2771,7 +2778,7 @@ class DatabaseStatistics(abc.ABC):
             A tuple of *(min, max)*
         """
         query_template = "SELECT MIN({col}), MAX({col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=_qualified_name(column.table)
         )
         return self._db.execute_query(
             query_template,
@@ -2816,7 +2823,7 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
-                col=column.name, tab=column.table.full_name
+                col=quote(column.name), tab=_qualified_name(column.table)
             )
         else:
             query_template = textwrap.dedent(
@@ -2825,7 +2832,9 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
-                LIMIT {k}""".format(col=column.name, tab=column.table.full_name, k=k)
+                LIMIT {k}""".format(
+                    col=quote(column.name), tab=_qualified_name(column.table), k=k
+                )
             )
 
         return self._db.execute_query(
@@ -2851,7 +2860,7 @@ class DatabaseStatistics(abc.ABC):
             FROM {tab}
             GROUP BY {col}
             ORDER BY {col}
-            """.format(col=column.name, tab=column.table.full_name)
+            """.format(col=quote(column.name), tab=_qualified_name(column.table))
         result_set = self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
-- 
2.43.0


From acf2ed7c77b14215ad6934ac2c223bde94a69eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 045/108] fix: workload readers keep every query with its own
 label (label prefixes, sub-directories, duplicates, malformed files, blank
 lines), last(0) is empty

---
 postbound/workloads.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index c8fe9c6..ad8c484 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -194,8 +194,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
 
         for query_file_path in matching_files:
             with open(query_file_path, "r", encoding=file_encoding) as query_file:
-                raw_contents = query_file.readlines()
-            query_contents = "\n".join([line for line in raw_contents])
+                query_contents = query_file.read()
 
             try:
                 parsed_query = parser.parse_query(
@@ -215,6 +214,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         )
                     case "ignore":
                         pass
+                continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -378,7 +378,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
@@ -714,8 +714,7 @@ def read_workload(
 
     for query_file_path in matching_files:
         with open(query_file_path, "r", encoding=file_encoding) as query_file:
-            raw_contents = query_file.readlines()
-        query_contents = "\n".join([line for line in raw_contents])
+            query_contents = query_file.read()
 
         try:
             parsed_query = parser.parse_query(
@@ -733,9 +732,10 @@ def read_workload(
                     )
                 case "ignore":
                     pass
+            continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
@@ -749,12 +749,13 @@ def read_workload(
             if query_label_prefix and not query_label_prefix.endswith("/")
             else query_label_prefix
         )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix += subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
@@ -794,7 +795,7 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw.strip()]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
@@ -855,10 +856,14 @@ def read_csv_workload(
     else:
         pd_args = {}
 
+    converters: dict[str, Callable] = {query_column: parser.parse_query}
+    if label_column:
+        converters[label_column] = str  # don't interpret labels such as "007" or "NA"
+
     workload_df = pd.read_csv(
         filepath,
         usecols=columns,
-        converters={query_column: parser.parse_query},
+        converters=converters,
         encoding=file_encoding,
         **pd_args,
     )
@@ -866,13 +871,9 @@ def read_csv_workload(
     queries = workload_df[query_column].tolist()
     if label_column:
         labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
+        return Workload(dict(zip(labels, queries)), name, filepath)
 
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+    return generate_workload(queries, name=name, workload_root=filepath)
 
 
 def generate_workload(
@@ -914,7 +915,7 @@ def generate_workload(
     )
     name = name if name else (workload_root.stem if workload_root else "")
     if labels:
-        workload_contents = util.dicts.invert(labels)
+        workload_contents = {labels[query]: query for query in queries}
     else:
         workload_contents = {idx + 1: query for idx, query in enumerate(queries)}
     return Workload(workload_contents, name, workload_root)
-- 
2.43.0


From 347c204d0050b581e3ac52367f311291443446a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 046/108] fix: training data keeps samples attached to their
 features when renaming, merging, projecting and loading

---
 postbound/train/_train.py | 56 ++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..955263f 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
+import json
 from collections.abc import Iterable, Mapping, Sequence
-from dataclasses import dataclass
 from pathlib import Path
 from typing import Literal, Optional, Self
 
@@ -9,6 +9,7 @@ import pandas as pd
 
 from .. import util
 from ..parser import parse_query
+from ..qal import SqlQuery
 from ..util import jsondict
 
 type TrainingMetrics = jsondict
@@ -86,8 +87,9 @@ class TrainingSpec:
     def __init__(
         self, features: TrainingFeature | Iterable[TrainingFeature], *args
     ) -> None:
-        features = util.enlist(features)
-        self._features: list[TrainingFeature] = list(features)
+        self._features: list[TrainingFeature] = (
+            [features] if isinstance(features, str) else list(features)
+        )
         self._features.extend(args)
         self._feature_set = frozenset(self._features)
 
@@ -111,7 +113,9 @@ class TrainingSpec:
         This is method implements the exact same logic as `requires`. It is only provided for semantic clarity to support the
         two views on the training spec (as a provider spec and as a requirements spec).
         """
-        feature: set[TrainingFeature] = set(util.enlist(feature))
+        feature: set[TrainingFeature] = (
+            {feature} if isinstance(feature, str) else set(feature)
+        )
         return feature.issubset(self._feature_set)
 
     def requires(self, feature: TrainingFeature | Iterable[TrainingFeature]) -> bool:
@@ -213,7 +217,16 @@ class SpecViolations:
         return f"SpecViolations(missing_features={missing})"
 
 
-@dataclass
+def _load_query(raw: SqlQuery | str) -> SqlQuery:
+    """Parses the value of a *query* column. This can be raw SQL, or the output of `util.write_df`."""
+    if not isinstance(raw, str):
+        return raw
+    if raw.startswith('"'):
+        # complex objects are stored in their JSON representation
+        raw = json.loads(raw)
+    return parse_query(raw)
+
+
 class TrainingData:
     """Represents a dataset of training samples, along with metadata about the features it provides.
 
@@ -288,7 +301,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
-            df[query_col] = df[query_col].map(parse_query)
+            df = df.assign(**{query_col: df[query_col].map(_load_query)})
 
         return TrainingData(df, source=source, feature_map=feature_map)
 
@@ -304,9 +317,10 @@ class TrainingData:
         """
         datasets = list(datasets)
         merged, *rest = datasets
+        merged = merged.conform_to(according_to)
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -395,9 +409,7 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: self._feature_map[feature] for feature in spec.features
         }
         return TrainingData(
             self._samples, source=self._source, feature_map=reduced_spec
@@ -409,16 +421,15 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
-
         if requested_spec is None:
+            renamings = {col: feature for feature, col in self._feature_map.items()}
             return self._samples.rename(columns=renamings)
 
         if not self._spec.satisfies(requested_spec):
             raise ValueError("Requested spec is not compatible with the training data")
 
         columns = [self._feature_map[feature] for feature in requested_spec.features]
-        return self._samples[columns].rename(columns=renamings, errors="ignore")
+        return self._samples[columns].set_axis(requested_spec.features, axis="columns")
 
     def merge_with(
         self,
@@ -436,20 +447,23 @@ class TrainingData:
                 f"the other dataset is missing the following features: {violations.missing_features}"
             )
 
-        other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat(
+            [self.as_df(self._spec), other.as_df(self._spec)], ignore_index=True
+        )
+        return TrainingData(
+            merged_samples,
+            source=None,
+            feature_map={feature: feature for feature in self._spec},
+        )
 
     def __len__(self) -> int:
         return len(self._samples)
 
     def __iter__(self):
-        return iter(self._samples)
+        return (self[idx] for idx in range(len(self)))
 
     def __getitem__(self, idx) -> list:
-        sample = self._samples.iloc[idx]
-        remapped = sample[self._feature_map.values()]
-        return list(remapped)
+        return [self._samples[col].iloc[idx] for col in self._feature_map.values()]
 
     def __repr__(self) -> str:
         return str(self)
@@ -499,6 +513,6 @@ class TrainingDataRepository:
         if not matching:
             return None
         elif len(matching) == 1:
-            return matching[0]
+            return matching[0].conform_to(spec)
         else:
             return TrainingData.merge(matching, according_to=spec)
-- 
2.43.0


From 7356b0d5e10b11bd5bb4bd24613ee8978ac1d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 047/108] fix: DuckDB plans know nested-loop and merge joins
 and EXPLAIN ANALYZE documents

---
 postbound/duckdb.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index a6ed71c..2b4b333 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -524,6 +524,8 @@ def parse_duckdb_plan(
     """
     if isinstance(raw_plan, str):
         raw_plan = json.loads(raw_plan)
+    if isinstance(raw_plan, list):
+        raw_plan = raw_plan[0]
 
     node_type = raw_plan.get("name") or raw_plan.get("operator_name")
     if not node_type:
@@ -542,12 +544,16 @@ def parse_duckdb_plan(
     match node_type:
         case "HASH_JOIN":
             node_type = JoinOperator.HashJoin
+        case "NESTED_LOOP_JOIN" | "BLOCKWISE_NL_JOIN" | "CROSS_PRODUCT":
+            node_type = JoinOperator.NestedLoopJoin
+        case "PIECEWISE_MERGE_JOIN" | "IE_JOIN":
+            node_type = JoinOperator.SortMergeJoin
         case (
-            "SEQ_SCAN" | "SEQ_SCAN "  # DuckDB has a weird typo in the SEQ_SCAN label
+            "SEQ_SCAN" | "SEQ_SCAN " | "TABLE_SCAN"  # DuckDB has a weird typo in the SEQ_SCAN label, EXPLAIN ANALYZE uses TABLE_SCAN
         ) if extras.get("Type", "") == "Sequential Scan":
             node_type = ScanOperator.SequentialScan
         case (
-            "SEQ_SCAN" | "SEQ_SCAN "  # DuckDB has a weird typo in the SEQ_SCAN label
+            "SEQ_SCAN" | "SEQ_SCAN " | "TABLE_SCAN"  # DuckDB has a weird typo in the SEQ_SCAN label, EXPLAIN ANALYZE uses TABLE_SCAN
         ) if extras.get("Type", "") == "Index Scan":
             node_type = ScanOperator.IndexScan
         case "PROJECTION" | "FILTER" | "UNGROUPED_AGGREGATE" | "PERFECT_HASH_GROUP_BY":
@@ -631,8 +637,7 @@ class DuckDBOptimizer(OptimizerInterface):
         assert len(result_set) == 2
 
         raw_explain = result_set[1]
-        parsed = json.loads(raw_explain)
-        return parse_duckdb_plan(parsed[0], query=query)
+        return parse_duckdb_plan(raw_explain, query=query)
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
         # Similar to the Postgres implementation of parse_plan(), we try to be gracefull
-- 
2.43.0


From 9bb1cf322522ea670f9f4c2805cb7a2983fb10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 048/108] fix: MySQL plans keep materialized subqueries and
 resolve unaliased tables, parse_plan() parses

---
 postbound/mysql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 124abad..87766c3 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -721,7 +721,7 @@ class MysqlOptimizer(OptimizerInterface):
         raise NotImplementedError("MySQL interface does not support ANALYZE plans yet")
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
-        mysql_plan = MysqlExplainPlan(plan)
+        mysql_plan = parse_mysql_explain_plan(query, plan)
         return mysql_plan.as_qep()
 
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
@@ -841,8 +841,8 @@ def _lookup_table(
     """
     table_map = {tab.full_name: tab for tab in candidate_tables}
 
-    # alias takes precedence over full_name in case of conflicts
-    table_map |= {tab.alias: tab for tab in candidate_tables}
+    # alias takes precedence over full_name in case of conflicts, and unaliased tables over the full names of aliased ones
+    table_map |= {tab.identifier(): tab for tab in candidate_tables}
     return table_map[alias]
 
 
@@ -1009,7 +1009,7 @@ def _parse_mysql_table_node(
 
     subquery = (
         _parse_next_mysql_explain_node(
-            query, explain_data["materialized_from_subquery"]
+            query, explain_data["materialized_from_subquery"]["query_block"]
         )
         if "materialized_from_subquery" in explain_data
         else None
@@ -1216,6 +1216,7 @@ class MysqlExplainNode:
             operator=_MysqlExplainScanNodes.get(self.scan_type),
             estimated_cost=self.scan_cost,
             estimated_cardinality=Cardinality(self.scan_cardinality_estimate),
+            subplan_root=self.subquery.as_qep() if self.subquery is not None else None,
         )
 
     def _join_str(self) -> str:
-- 
2.43.0


From ef6cb16f97c19b016684df1482cf799ed6496a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 049/108] fix: the stored query cache restores rows and values
 exactly and survives results that cannot be stored

---
 postbound/db/_db.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 86ff34b..45cf0fd 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -27,7 +27,9 @@ import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
 from datetime import date, datetime, time, timedelta
+from decimal import Decimal
 from typing import Any, Literal, Optional, Protocol, Type, overload, runtime_checkable
+from uuid import UUID
 
 import networkx as nx
 
@@ -296,7 +298,13 @@ class _DBCacheJsonEncoder(json.JSONEncoder):
         elif isinstance(o, time):
             return {"$time": o.isoformat()}
         elif isinstance(o, timedelta):
-            return {"$timedelta": o.total_seconds()}
+            return {"$timedelta": [o.days, o.seconds, o.microseconds]}
+        elif isinstance(o, Decimal):
+            return {"$decimal": str(o)}
+        elif isinstance(o, (bytes, bytearray, memoryview)):
+            return {"$bytes": bytes(o).hex()}
+        elif isinstance(o, UUID):
+            return {"$uuid": str(o)}
         return super().default(o)
 
 
@@ -316,7 +324,18 @@ class _DBCacheJsonDecoder(json.JSONDecoder):
         elif "$time" in obj:
             return time.fromisoformat(obj["$time"])
         elif "$timedelta" in obj:
-            return timedelta(seconds=obj["$timedelta"])
+            raw_delta = obj["$timedelta"]
+            return (
+                timedelta(*raw_delta)
+                if isinstance(raw_delta, list)
+                else timedelta(seconds=raw_delta)
+            )
+        elif "$decimal" in obj:
+            return Decimal(obj["$decimal"])
+        elif "$bytes" in obj:
+            return bytes.fromhex(obj["$bytes"])
+        elif "$uuid" in obj:
+            return UUID(obj["$uuid"])
         return obj
 
 
@@ -645,7 +664,14 @@ class Database(abc.ABC):
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
                 try:
-                    self._query_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    raw_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    # JSON has no tuples, we need to restore the rows
+                    self._query_cache = {
+                        query: [tuple(row) for row in result_set]
+                        if result_set is not None
+                        else None
+                        for query, result_set in raw_cache.items()
+                    }
                 except json.JSONDecodeError as e:
                     warnings.warn(
                         f"Could not read query cache: {e}",
@@ -670,8 +696,10 @@ class Database(abc.ABC):
         query_cache_name : str
             The path where to write the file to. If it exists, it will be overwritten.
         """
+        # serialize first to keep the current file if there is a result that we cannot store
+        cache_content = json.dumps(self._query_cache, cls=_DBCacheJsonEncoder)
         with open(query_cache_name, "w") as cache_file:
-            json.dump(self._query_cache, cache_file, cls=_DBCacheJsonEncoder)
+            cache_file.write(cache_content)
 
     def _query_cache_name(self) -> str:
         """Provides a normalized file name for the query cache.
-- 
2.43.0


From 1ce8a17fef59593cc4702aa5a34237c248299d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 050/108] fix: DuckDB queries respect the interface's cache
 setting, preparatory settings and the database file

---
 postbound/duckdb.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 2b4b333..69d059e 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import concurrent.futures
+import hashlib
 import json
 import math
 import textwrap
@@ -65,11 +66,11 @@ class DuckDBInterface(Database):
         system_name: str = "DuckDB",
         cache_enabled: bool = False,
     ) -> None:
-        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
-
+        # the base class needs the connection to load the query cache
         self._dbfile = db
-
         self._cur = quacklab.connect(db)
+        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
+
         self._last_query_runtime = math.nan
 
         self._stats = DuckDBStatistics(self)
@@ -99,21 +100,29 @@ class DuckDBInterface(Database):
         raw: bool = False,
         timeout: Optional[float] = None,
     ) -> Any:
+        if cache_enabled is None:
+            cache_enabled = self._cache_enabled
+
+        prep_statements = ""
         if (
             isinstance(query, SqlQuery)
             and query.hints
             and query.hints.preparatory_statements
         ):
-            self._cur.execute(query.hints.preparatory_statements)
+            prep_statements = query.hints.preparatory_statements
+            self._cur.execute(prep_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
         elif isinstance(query, UserString):
             query = str(query)
 
+        # the same query can produce different results under different settings
+        cache_key = f"{prep_statements}\n{query}" if prep_statements else query
         if cache_enabled:
-            cached_res = self._query_cache.get(query)
+            cached_res = self._query_cache.get(cache_key)
             if cached_res is not None:
+                cached_res = list(cached_res)
                 return cached_res if raw else simplify_result_set(cached_res)
 
         if timeout is not None:
@@ -131,7 +140,7 @@ class DuckDBInterface(Database):
             ) / 10**9  # convert to seconds
 
         if cache_enabled:
-            self._query_cache[query] = raw_result
+            self._query_cache[cache_key] = list(raw_result)
 
         return raw_result if raw else simplify_result_set(raw_result)
 
@@ -227,6 +236,12 @@ class DuckDBInterface(Database):
         base_info["schema_info"] = schema_info
         return base_info
 
+    def _query_cache_name(self) -> str:
+        # DuckDB names its databases after their files, i.e. files from different directories can share the same name
+        base_name = super()._query_cache_name().removesuffix(".json")
+        path_digest = hashlib.md5(str(Path(self._dbfile).resolve()).encode()).hexdigest()
+        return f"{base_name}_{path_digest}.json"
+
     def _execute_worker(self, query: str) -> None:
         start_time = time.perf_counter_ns()
         self._cur.execute(query)
-- 
2.43.0


From 8d70e4a9e32bd2137ed6f73a543e4a942baf5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 051/108] fix: Postgres results are cached per preparatory
 settings and not shared with callers

---
 postbound/postgres.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 4a77ac9..0d40aa3 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -719,9 +719,11 @@ class PostgresInterface(Database):
             )
 
         cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
+        prep_statements = ""
         if isinstance(query, UserString):
             query = str(query)
         elif isinstance(query, SqlQuery):
+            prep_statements = query.hints.preparatory_statements if query.hints else ""
             # If there are any preparatory statements we must execute them now. If we would simply include them in the query,
             # psycopg would use the first statement to determine the result type of the entire query. If this were a SET
             # statement, no results could be fetched. _apply_preparatory_statements takes care of these and gives a cleaned-up
@@ -729,8 +731,11 @@ class PostgresInterface(Database):
             query = _apply_preparatory_statements(query, cur=self._cursor)
             query = self._hinting_backend.format_query(query)
 
-        if cache_enabled and query in self._query_cache:
-            query_result = self._query_cache[query]
+        # the same query can produce different results under different settings
+        cache_key = f"{prep_statements}\n{query}" if prep_statements else query
+        if cache_enabled and cache_key in self._query_cache:
+            query_result = self._query_cache[cache_key]
+            query_result = list(query_result) if query_result is not None else None
             return query_result if raw else simplify_result_set(query_result)
 
         try:
@@ -746,7 +751,9 @@ class PostgresInterface(Database):
             )
             if cache_enabled:
                 self._inflate_query_cache()
-                self._query_cache[query] = query_result
+                self._query_cache[cache_key] = (
+                    list(query_result) if query_result is not None else None
+                )
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
                 [
-- 
2.43.0


From d59438d0f16d0d3c0ac9471faf91fd241f51de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 052/108] fix: MySQL interface can be created again, results
 are cached per preparatory settings and not shared

---
 postbound/mysql.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 87766c3..ec4ad2f 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -70,6 +70,8 @@ from .db import (
     DatabaseStatistics,
     HintService,
     HintWarning,
+    Histogram,
+    HistogramApproximation,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -172,16 +174,23 @@ class MysqlInterface(Database):
         raw: bool = False,
     ) -> Any:
         cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
+        prep_statements = (
+            query.hints.preparatory_statements
+            if isinstance(query, SqlQuery) and query.hints
+            else ""
+        )
         query = self._prepare_query_execution(query)
 
-        if cache_enabled and query in self._query_cache:
-            query_result = self._query_cache[query]
+        # the same query can produce different results under different settings
+        cache_key = f"{prep_statements}\n{query}" if prep_statements else query
+        if cache_enabled and cache_key in self._query_cache:
+            query_result = list(self._query_cache[cache_key])
         else:
             self._cur.execute(query)
             query_result = self._cur.fetchall()
             if cache_enabled:
                 self._inflate_query_cache()
-                self._query_cache[query] = query_result
+                self._query_cache[cache_key] = list(query_result)
 
         if raw:
             return query_result
@@ -400,7 +409,7 @@ class MysqlSchemaInterface(DatabaseSchema):
             FROM information_schema.columns
             WHERE table_name = %s AND column_key <> ''
         """)
-        self._db.cursor().execute(index_query, table.full_name)
+        self._db.cursor().execute(index_query, (table.full_name,))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         index_map = dict(result_set)
@@ -415,7 +424,7 @@ class MysqlStatisticsInterface(DatabaseStatistics):
         count_query = (
             "SELECT table_rows FROM information_schema.tables WHERE table_name = %s"
         )
-        self._db.cursor().execute(count_query, table.full_name)
+        self._db.cursor().execute(count_query, (table.full_name,))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         count = result_set[0]
@@ -435,7 +444,7 @@ class MysqlStatisticsInterface(DatabaseStatistics):
         elif distinct_vals is None:
             return self._calculate_distinct_values(column, cache_enabled=True)
         else:
-            return distinct_vals
+            return distinct_vals[0]
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
@@ -453,6 +462,15 @@ class MysqlStatisticsInterface(DatabaseStatistics):
             )
         return self._calculate_most_common_values(column, k=k, cache_enabled=True)
 
+    def _retrieve_histogram_from_stats(
+        self, column: BoundColumnReference, *, interpolation: HistogramApproximation
+    ) -> Optional[Histogram]:
+        if not self.enable_emulation_fallback:
+            raise UnsupportedDatabaseFeatureError(self._db, "histogram statistics")
+        return self._calculate_histogram(
+            column, n_bins=100, interpolation=interpolation, cache_enabled=True
+        )
+
 
 MysqlJoinHints = {JoinOperator.HashJoin, JoinOperator.NestedLoopJoin}
 MysqlScanHints = {ScanOperator.IndexScan, ScanOperator.SequentialScan}
-- 
2.43.0


From cd95d79eaf71c4ed0721b5415786ad77fa9bf63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 053/108] fix: schema lookups find columns, tell compound keys
 and namesakes in other schemas apart and notice later DDL

---
 postbound/db/_db.py   | 67 +++++++++++++++++++++++++++++--------------
 postbound/duckdb.py   | 30 ++++++++++++-------
 postbound/postgres.py |  7 +----
 3 files changed, 65 insertions(+), 39 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 45cf0fd..6d9a0bf 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -917,8 +917,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if isinstance(table, TableReference) and table.virtual:
             raise VirtualTableError(table)
-        table = table if isinstance(table, str) else table.full_name
+        table = table if isinstance(table, TableReference) else TableReference(table)
         db_name = self._db.database_name()
+        schema_placeholder = (
+            self._prep_placeholder if table.schema else "current_schema()"
+        )
 
         query_template = textwrap.dedent(f"""
             SELECT table_type
@@ -926,9 +929,13 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
             WHERE table_catalog = {self._prep_placeholder}
                 AND table_name = {self._prep_placeholder}
                 AND table_catalog = current_database()
+                AND table_schema = {schema_placeholder}
             """)
+        params = [db_name, table.full_name]
+        if table.schema:
+            params.append(table.schema)
         cur = self._db.cursor()
-        cur.execute(query_template, (db_name, table))
+        cur.execute(query_template, params)
         result_set = cur.fetchall()
 
         assert result_set is not None
@@ -971,9 +978,12 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         **Hint for implementors:** the default implementation of this method (transitively) relies on the
         *information_schema.columns* view.
         """
+        column = column.name if isinstance(column, ColumnReference) else column
+        lower_col = column.lower()
+
         for candidate in candidate_tables:
-            candidate_cols = self.columns(candidate)
-            if column in candidate_cols:
+            candidate_cols = [col.name for col in self.columns(candidate)]
+            if column in candidate_cols or lower_col in candidate_cols:
                 return candidate
 
         if expect_match:
@@ -1023,21 +1033,22 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = ccu.table_name
                     AND tc.constraint_catalog = ccu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND ccu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'PRIMARY KEY'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder};
             """)
 
-        params = [table.full_name, column.name]
+        params = [table.full_name]
         if table.schema:
             params.append(table.schema)
 
         cur = self._db.cursor()
         cur.execute(query_template, params)
-        result_set = cur.fetchone()
+        result_set = cur.fetchall()
+        assert result_set is not None
 
-        return result_set is not None
+        # columns that are just part of a compound key are no primary keys on their own
+        return [row[0] for row in result_set] == [column.name]
 
     def primary_key_column(
         self, table: TableReference | str
@@ -1246,8 +1257,13 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
-            for row in result_set
+            BoundColumnReference(
+                target_column,
+                TableReference(
+                    target_table, schema=target_schema if table.schema else ""
+                ),
+            )
+            for target_schema, target_table, target_column in result_set
         }
 
     def has_index(self, column: ColumnReference) -> bool:
@@ -1490,7 +1506,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
             cols = self.columns(table)
             dtypes = {col: self.datatype(col) for col in cols}
-            pkey = self.primary_key_column(table)
+            pkey = next((col for col in cols if self.is_primary_key(col)), None)
             g.add_node(table, columns=cols, data_type=dtypes, primary_key=pkey)
 
             all_columns |= set(cols)
@@ -1573,18 +1589,26 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     primary_key=self.is_primary_key(key),
                 )
             case TableReference():
-                schema_graph = self.as_graph()
                 col_infos = [self[col] for col in self.columns(key)]
-                outgoing_fks = set_union(
-                    edge[2] for edge in schema_graph.out_edges(key, data="foreign_keys")
-                )
+                if not col_infos:
+                    raise KeyError(f"Table '{key}' not found in database schema")
+                schema_graph = self.as_graph()
+                outgoing_fks = {
+                    ForeignKeyRef(col.column, fk_target)
+                    for col in col_infos
+                    for fk_target in self.foreign_keys_on(col.column)
+                }
                 incoming_fks = set_union(
-                    edge[2] for edge in schema_graph.in_edges(key, data="foreign_keys")
+                    edge[2]
+                    for edge in schema_graph.in_edges(data="foreign_keys")
+                    if edge[1] == key
                 )
                 return TableInfo(
                     table=key,
                     columns=col_infos,
-                    primary_key=self.primary_key_column(key),
+                    primary_key=next(
+                        (col.column for col in col_infos if col.primary_key), None
+                    ),
                     outgoing_foreign_keys=outgoing_fks,
                     incoming_foreign_keys=incoming_fks,
                 )
@@ -1595,12 +1619,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                 except KeyError:
                     pass
 
-                try:
-                    col, tab = key.split(".", 1)
-                    ref = ColumnReference(col, TableReference(tab))
-                    return self[ref]
-                except KeyError:
+                tab, _, col = key.partition(".")
+                table_ref = TableReference(tab)
+                if not self.lookup_column(col, [table_ref]):
                     raise KeyError(f"Key '{key}' not found in database schema")
+                return self[ColumnReference(col, table_ref)]
             case _:
                 raise KeyError(
                     f"Unsupported key type: {type(key).__name__}. "
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 69d059e..5ed7856 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -249,15 +249,25 @@ class DuckDBInterface(Database):
         self._last_query_runtime = (end_time - start_time) / 10**9  # convert to seconds
 
 
+def _index_expressions(column: ColumnReference) -> tuple[str, str]:
+    """Provides the (lower-case) forms that the *expressions* of an index on just the given column can have.
+
+    DuckDB presents the expressions as a list. Columns that cannot be used as plain identifiers are quoted. These quoted
+    names are once again escaped as list elements.
+    """
+    name = column.name.lower()
+    quoted = '"' + name.replace('"', '""') + '"'
+    escaped = quoted.replace("\\", "\\\\").replace("'", "\\'")
+    list_element = f"['{escaped}']"
+    plain_element = f"[{name}]" if name.isidentifier() else list_element
+    return plain_element, list_element
+
+
 class DuckDBSchema(DatabaseSchema):
     def __init__(self, db: DuckDBInterface) -> None:
         super().__init__(db, prep_placeholder="?")
-        self._tables: set[TableReference] = set()
 
     def tables(self, *, include_system_tables: bool = False) -> set[TableReference]:
-        if self._tables:
-            return self._tables
-
         cur = self._db.cursor()
         cur.execute(
             """
@@ -270,9 +280,7 @@ class DuckDBSchema(DatabaseSchema):
         result_set = cur.fetchall()
         assert result_set is not None
 
-        tables = {TableReference(row[0]) for row in result_set}
-        self._tables = tables
-        return self._tables
+        return {TableReference(row[0]) for row in result_set}
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not ColumnReference.assert_bound(column):
@@ -284,12 +292,12 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND lower(ddbi.expressions) IN (?, ?)
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             """)
 
-        params = [column.table.full_name, column.name]
+        params = [column.table.full_name, *_index_expressions(column)]
         if column.table.schema:
             params.append(column.table.schema)
 
@@ -315,7 +323,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND lower(ddbi.expressions) IN (?, ?)
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             UNION
@@ -336,7 +344,7 @@ class DuckDBSchema(DatabaseSchema):
         # Due to the UNION query, we need to repeat the placeholders. While the implementation is definitely not elegant,
         # this solution is arguably better than relying on named parameters which might or might not be supported by the
         # target database.
-        params = [column.table.full_name, column.name]
+        params = [column.table.full_name, *_index_expressions(column)]
         if column.table.schema:
             params.append(column.table.schema)
         params.extend([column.table.full_name, column.name])
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 0d40aa3..f3b0c69 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -1354,14 +1354,10 @@ class PostgresSchemaInterface(DatabaseSchema):
 
     def __init__(self, postgres_db: PostgresInterface) -> None:
         super().__init__(postgres_db)
-        self._tables: set[TableReference] = set()
 
     def tables(
         self, *, include_system_tables: bool = False, schema: str = "public"
     ) -> set[TableReference]:
-        if self._tables:
-            return self._tables
-
         query_template = textwrap.dedent("""
                                          SELECT table_name
                                          FROM information_schema.tables
@@ -1373,8 +1369,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         tables = {TableReference(row[0]) for row in result_set}
         if not include_system_tables:
             tables = {tab for tab in tables if not tab.full_name.startswith("pg_")}
-        self._tables = tables
-        return self._tables
+        return tables
 
     def lookup_column(
         self,
-- 
2.43.0


From e0869d346d7e42540a56943e45b1b1f33a958528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 054/108] fix: histograms cover all rows and estimate per
 bucket, emulated value lists skip NULLs and any column name works

---
 postbound/db/_db.py | 91 +++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 6d9a0bf..4f5235a 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1791,13 +1791,13 @@ def _qualified_name(table: TableReference) -> str:
 
 
 def _infer_histogram_bounds[T](
-    frequencies: Sequence[tuple[T, int]], *, n_bins: int, n_rows: int
+    frequencies: Sequence[tuple[T, int]], *, n_bins: int
 ) -> tuple[T, Sequence[T], Sequence[int]]:
     """Infer the bucket bounds and frequencies for a histogram from a list of (value, frequency) pairs."""
     if not frequencies:
         raise ValueError("Cannot infer histogram bounds from empty frequency list")
 
-    bucket_size = n_rows // n_bins
+    bucket_size = sum(freq for _, freq in frequencies) // n_bins
 
     bounds: list[T] = []
     buckets: list[int] = []
@@ -1810,6 +1810,11 @@ def _infer_histogram_bounds[T](
         buckets.append(cumulative_freq)
         cumulative_freq = 0
 
+    if cumulative_freq > 0:
+        # the remaining values do not fill an entire bucket
+        bounds.append(frequencies[-1][0])
+        buckets.append(cumulative_freq)
+
     return frequencies[0][0], bounds, buckets
 
 
@@ -1925,29 +1930,17 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        upper_idx = bisect.bisect_right(self._bounds, value)
-        if upper_idx == 0:
+        if value < self._lower:
             return 0
-        elif upper_idx == len(self._bounds):
+        elif value >= self.upper:
             return self._n_rows
 
+        bucket_idx = bisect.bisect_left(self._bounds, value)
+        n_below = sum(self._frequencies[:bucket_idx])
+        in_bucket_frac = self._bucket_fraction(value, bucket_idx)
         if self._bucket_interpolation == "bound":
-            return upper_idx * self._freq_per_bucket
-
-        assert self._bucket_interpolation == "approx-uni"
-
-        if not isinstance(value, (int, float, date, datetime)):
-            raise ValueError(
-                "Cannot estimate frequency within bucket. "
-                f"Strategy '{self._bucket_interpolation}' is unknown or unsupported "
-                f"for histograms of type {type(value).__name__}."
-            )
-
-        lower_idx = upper_idx - 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (lower_idx + in_bucket_frac) * self._freq_per_bucket
+            return n_below + self._frequencies[bucket_idx]
+        return n_below + in_bucket_frac * self._frequencies[bucket_idx]
 
     def frequency_above(self, value: T) -> int:
         """Estimate the frequency of values that are greater than a given value.
@@ -1958,14 +1951,29 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        lower_idx = bisect.bisect_left(self._bounds, value)
-        if lower_idx == 0:
+        if value < self._lower:
             return self._n_rows
-        elif lower_idx == len(self._bounds):
+        elif value >= self.upper:
             return 0
 
-        if self._bucket_interpolation == "bound":
-            return lower_idx * self._freq_per_bucket
+        bucket_idx = bisect.bisect_left(self._bounds, value)
+        n_above = sum(self._frequencies[bucket_idx + 1 :])
+        in_bucket_frac = self._bucket_fraction(value, bucket_idx)
+        if self._bucket_interpolation == "bound" and in_bucket_frac < 1:
+            return n_above + self._frequencies[bucket_idx]
+        return n_above + (1 - in_bucket_frac) * self._frequencies[bucket_idx]
+
+    def _bucket_fraction(self, value: T, bucket_idx: int) -> float:
+        """Determines the fraction of a bucket that is less than or equal to the given value.
+
+        If the interpolation strategy does not consider the position within a bucket, values that do not align with the
+        upper bound of their bucket are placed at its start.
+        """
+        upper_bound = self._bounds[bucket_idx]
+        if value == upper_bound:
+            return 1
+        elif self._bucket_interpolation == "bound":
+            return 0
 
         assert self._bucket_interpolation == "approx-uni"
 
@@ -1976,11 +1984,8 @@ class Histogram[T: SupportsRichComparison[T]]:
                 f"for histograms of type {type(value).__name__}."
             )
 
-        upper_idx = lower_idx + 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (upper_idx + in_bucket_frac) * self._freq_per_bucket
+        lower_bound = self._bounds[bucket_idx - 1] if bucket_idx > 0 else self._lower
+        return (value - lower_bound) / (upper_bound - lower_bound)
 
     def __len__(self) -> int:
         return len(self._bounds)
@@ -2870,19 +2875,21 @@ class DatabaseStatistics(abc.ABC):
         """
         if k is None or k <= 0:
             query_template = """
-                SELECT {col}, COUNT(*) AS n
+                SELECT {col}, COUNT(*)
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
-                ORDER BY n DESC, {col}""".format(
+                ORDER BY COUNT(*) DESC, {col}""".format(
                 col=quote(column.name), tab=_qualified_name(column.table)
             )
         else:
             query_template = textwrap.dedent(
                 """
-                SELECT {col}, COUNT(*) AS n
+                SELECT {col}, COUNT(*)
                 FROM {tab}
+                WHERE {col} IS NOT NULL
                 GROUP BY {col}
-                ORDER BY n DESC, {col}
+                ORDER BY COUNT(*) DESC, {col}
                 LIMIT {k}""".format(
                     col=quote(column.name), tab=_qualified_name(column.table), k=k
                 )
@@ -2902,13 +2909,10 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
-        if n_rows == 0:
-            return None
-
         query_template = """
-            SELECT {col}, COUNT(*) AS n
+            SELECT {col}, COUNT(*)
             FROM {tab}
+            WHERE {col} IS NOT NULL
             GROUP BY {col}
             ORDER BY {col}
             """.format(col=quote(column.name), tab=_qualified_name(column.table))
@@ -2917,11 +2921,10 @@ class DatabaseStatistics(abc.ABC):
             cache_enabled=self._determine_caching_behavior(cache_enabled),
             raw=True,
         )
-        assert result_set
+        if not result_set:
+            return None
 
-        lo, bounds, buckets = _infer_histogram_bounds(
-            result_set, n_bins=n_bins, n_rows=n_rows
-        )
+        lo, bounds, buckets = _infer_histogram_bounds(result_set, n_bins=n_bins)
         return Histogram(
             bounds,
             buckets,
-- 
2.43.0


From 7b543bba7b857ca1bcee84a171654127422ef1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 055/108] fix: DuckDB timeouts raised the interrupt of the
 cancelled query instead of reporting a timeout

---
 postbound/duckdb.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 5ed7856..04f0898 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -151,18 +151,21 @@ class DuckDBInterface(Database):
             query = self._hinting.format_query(query)
 
         promise = self._timeout_executor.submit(self._execute_worker, query)
-        try:
-            promise.result(timeout=timeout)
-            result_set = self._cur.fetchall()
-            return result_set
-        except concurrent.futures.TimeoutError:
+        _, running = concurrent.futures.wait([promise], timeout=timeout)
+        if not running:
+            promise.result()  # raises the error if the query failed
+            return self._cur.fetchall()
+
+        # Interrupts only affect queries that are already being executed. If the worker did not get that far, we need to repeat
+        # the interrupt. Afterwards, we must not ask for the result of the worker since it just tells us about our interrupt.
+        while running:
             self._cur.interrupt()
-            promise.result()
+            _, running = concurrent.futures.wait([promise], timeout=0.01)
 
-            # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
-            # the runtime itself. This way we overwrite any measurement that the worker might have produced.
-            self._last_query_runtime = math.inf
-            return None
+        # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
+        # the runtime itself. This way we overwrite any measurement that the worker might have produced.
+        self._last_query_runtime = math.inf
+        return None
 
     def last_query_runtime(self) -> float:
         return self._last_query_runtime
-- 
2.43.0


From 8d1beb423c9756f2c2203204acab18036c3341f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 056/108] fix: parallel query executor lost results after
 failed queries and handed wrong results to callbacks

---
 postbound/postgres.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index f3b0c69..2c59a50 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3441,8 +3441,8 @@ class ParallelQueryExecutor:
             ),
         )
         self._tasks: list[concurrent.futures.Future] = []
-        self._results: list[Any] = []
-        self._queries: dict[concurrent.futures.Future, SqlQuery | str] = {}
+        self._delivered: set[concurrent.futures.Future] = set()
+        self._results: list[tuple[SqlQuery | str, ResultSet | None]] = []
 
     def queue_query(self, query: SqlQuery | str) -> None:
         """Adds a new query to the queue, to be executed as soon as possible.
@@ -3462,7 +3462,6 @@ class ParallelQueryExecutor:
             self._verbose,
         )
         self._tasks.append(future)
-        self._queries[future] = query
 
     def drain_queue(
         self,
@@ -3488,16 +3487,25 @@ class ParallelQueryExecutor:
         ------
         TimeoutError or concurrent.futures.TimeoutError
             If some queries have not completed after the given `timeout`.
+        Exception
+            If some query failed, its error is raised once all other queries have terminated.
         """
-        for future in concurrent.futures.as_completed(self._tasks, timeout=timeout):
-            result_set = future.result()
-            self._results.append(result_set)
-
-            if not callback:
+        remaining = [task for task in self._tasks if task not in self._delivered]
+        failed: list[concurrent.futures.Future] = []
+        for future in concurrent.futures.as_completed(remaining, timeout=timeout):
+            if future.exception() is not None:
+                failed.append(future)
                 continue
 
-            query = self._queries[future]
-            callback(query, result_set)
+            query, result_set = future.result()
+            self._delivered.add(future)
+            self._results.append((query, result_set))
+            if callback:
+                callback(query, result_set)
+
+        self._delivered.update(failed)
+        if failed:
+            failed[0].result()  # raises the error
 
     def result_set(self) -> dict[str | SqlQuery, ResultSet | None]:
         """Provides the results of all queries that have terminated already, mapping query -> result set
-- 
2.43.0


From a7d23a58a5cc329d7602d4d87bf0d7b5aee40253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 057/108] fix: timeout executor waited forever for workers that
 died

---
 postbound/postgres.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 2c59a50..87d9f08 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3868,14 +3868,21 @@ class TimeoutQueryExecutor:
         )
 
         query_worker.start()
-        result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+
+        # We must not keep the sending end open: otherwise, we would wait forever for workers that died without further notice
+        status_send.close()
+        try:
+            result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+        except EOFError:
+            result = _ResultEvent.failed(
+                DatabaseServerError("Query worker terminated unexpectedly", query)
+            )
         timed_out = result.status == "timeout"
         if timed_out:
             query_worker.terminate()
 
         query_worker.join()
         query_worker.close()
-        status_send.close()
         status_recv.close()
 
         match result.status:
-- 
2.43.0


From f79ebcaff86ebcf4d97ddd43b3c73cca5f34eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 058/108] fix: cached results with a timeout ignored query
 objects and the simplification of results

---
 postbound/postgres.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 87d9f08..fa4f8b4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -779,6 +779,16 @@ class PostgresInterface(Database):
 
         return query_result if raw else simplify_result_set(query_result)
 
+    def _cache_key(self, query: SqlQuery | UserString | str) -> str:
+        """Provides the key under which `execute_query` stores the result of a specific query."""
+        if not isinstance(query, SqlQuery):
+            return str(query)
+        prep_statements = query.hints.preparatory_statements if query.hints else ""
+        if prep_statements:
+            query = transform.drop_hints(query, preparatory_statements_only=True)
+        query_text = self._hinting_backend.format_query(query)
+        return f"{prep_statements}\n{query_text}" if prep_statements else query_text
+
     def execute_with_timeout(
         self, query: SqlQuery | str, timeout: float = 60.0
     ) -> Optional[ResultSet]:
@@ -3819,12 +3829,19 @@ class TimeoutQueryExecutor:
         PostgresInterface.execute_query
         PostgresInterface.reset_connection
         """
+        cache_key = self._pg_instance._cache_key(query)
         cached_query: bool = (
             kwargs.get("cache_enabled", False)
-            and query in self._pg_instance._query_cache
+            and cache_key in self._pg_instance._query_cache
         )
         if cached_query:
-            return self._pg_instance._query_cache[str(query)]
+            query_result = self._pg_instance._query_cache[cache_key]
+            query_result = list(query_result) if query_result is not None else None
+            return (
+                query_result
+                if kwargs.get("raw", False)
+                else simplify_result_set(query_result)
+            )
 
         self._init_watchdog()
 
-- 
2.43.0


From 6af9d7da340e3d6b879016b1d726c56009aa7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 059/108] fix: concurrent first use of the database pool
 created several pools

---
 postbound/db/_db.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 4f5235a..cc77493 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -23,6 +23,7 @@ import collections
 import json
 import os
 import textwrap
+import threading
 import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
@@ -3295,6 +3296,7 @@ class OptimizerInterface(abc.ABC):
 
 
 _DB_POOL: DatabasePool | None = None
+_DB_POOL_LOCK = threading.Lock()
 """Private variable that captures the current singleton instance of the `DatabasePool`."""
 
 
@@ -3324,9 +3326,10 @@ class DatabasePool:
             The current pool instance
         """
         global _DB_POOL
-        if _DB_POOL is None:
-            _DB_POOL = DatabasePool()
-        return _DB_POOL
+        with _DB_POOL_LOCK:
+            if _DB_POOL is None:
+                _DB_POOL = DatabasePool()
+            return _DB_POOL
 
     def __init__(self):
         self._pool: dict[str, Database] = {}
-- 
2.43.0


From 69527ca05a092805d2cfff3ba129b39b57678229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 060/108] fix: refreshed DuckDB connections replaced the
 existing one in the database pool

---
 postbound/duckdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 04f0898..dbcf8e7 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -1015,6 +1015,11 @@ def connect(
     duckdb_instance = DuckDBInterface(db)
 
     if not private:
+        orig_name = name
+        instance_idx = 2
+        while name in db_pool:
+            name = f"{orig_name} - {instance_idx}"
+            instance_idx += 1
         db_pool.register_database(name, duckdb_instance)
 
     return duckdb_instance
-- 
2.43.0


From 36f069f6239dafe2c7aeb1728e79b691d3a062df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 061/108] fix: only compute cache keys of queries with a
 timeout if they are needed

---
 postbound/db/_db.py   |  4 +++-
 postbound/postgres.py | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index cc77493..ed887fe 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -3296,9 +3296,11 @@ class OptimizerInterface(abc.ABC):
 
 
 _DB_POOL: DatabasePool | None = None
-_DB_POOL_LOCK = threading.Lock()
 """Private variable that captures the current singleton instance of the `DatabasePool`."""
 
+_DB_POOL_LOCK = threading.Lock()
+"""Protects the creation of the singleton instance of the `DatabasePool`."""
+
 
 class DatabasePool:
     """The database pool allows different parts of the code base to easily obtain access to a database.
diff --git a/postbound/postgres.py b/postbound/postgres.py
index fa4f8b4..8eedbd4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3829,12 +3829,12 @@ class TimeoutQueryExecutor:
         PostgresInterface.execute_query
         PostgresInterface.reset_connection
         """
-        cache_key = self._pg_instance._cache_key(query)
-        cached_query: bool = (
-            kwargs.get("cache_enabled", False)
-            and cache_key in self._pg_instance._query_cache
+        cache_key = (
+            self._pg_instance._cache_key(query)
+            if kwargs.get("cache_enabled", False)
+            else None
         )
-        if cached_query:
+        if cache_key is not None and cache_key in self._pg_instance._query_cache:
             query_result = self._pg_instance._query_cache[cache_key]
             query_result = list(query_result) if query_result is not None else None
             return (
-- 
2.43.0


From 8dbb5f23ca0534054df7b2be7960a72fe58960c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 062/108] fix: exact cardinalities were always cached

---
 postbound/opt/_cardinalities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..0a6ad73 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -66,10 +66,14 @@ class PreciseCardinalities(CardinalityEstimator):
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
-        cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+        # the query cache of the database assumes static data, so we must not use it here
+        cardinality = Cardinality(
+            self.database.execute_query(subquery, cache_enabled=False)
+        )
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
-- 
2.43.0


From ab5a436a30b42e34bbcae784933d8fc15d461a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 063/108] fix: cardinality generators failed for intermediates
 of queries with grouping, ordering or limits

---
 postbound/opt/_cardinalities.py | 38 +++++++++++++++++++++++++--------
 postbound/opt/native.py         |  4 ++--
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 0a6ad73..0605997 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -13,10 +13,27 @@ from .._stages import (
     CardinalityEstimator,
 )
 from ..db import Database, DatabasePool
-from ..qal import SqlQuery
+from ..qal import GroupBy, Having, Limit, OrderBy, SqlQuery
 from ..workloads import Workload
 
 
+def _intermediate_query(
+    query: SqlQuery,
+    tables: TableReference | Iterable[TableReference],
+    *,
+    projection: Literal["star", "count_star"],
+) -> Optional[SqlQuery]:
+    """Provides the query that computes a specific intermediate of some input query.
+
+    The intermediate only consists of the joined and filtered tables. Clauses that post-process the final result set (grouping,
+    ordering or limiting the rows) do not apply to intermediates.
+    """
+    fragment = transform.extract_query_fragment(query, tables, projection=projection)
+    if fragment is None:
+        return None
+    return transform.drop_clause(fragment, [GroupBy, Having, OrderBy, Limit])
+
+
 class PreciseCardinalities(CardinalityEstimator):
     """Cardinality "estimator" that calculates exact cardinalities.
 
@@ -64,8 +81,7 @@ class PreciseCardinalities(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
-        subquery = transform.as_count_star_query(subquery)
+        subquery = _intermediate_query(query, intermediate, projection="count_star")
         if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
         # the query cache of the database assumes static data, so we must not use it here
@@ -254,17 +270,21 @@ class PreComputedCardinalities(CardinalityEstimator):
         if self._live_db is None:
             return Cardinality.unknown()
 
-        query_fragment = transform.extract_query_fragment(query, tables)
+        if self._live_fallback_style == "actual":
+            query_fragment = _intermediate_query(
+                query, tables, projection="count_star"
+            )
+        elif self._live_fallback_style == "estimated":
+            query_fragment = _intermediate_query(query, tables, projection="star")
+        else:
+            raise ValueError(f"Unknown fallback style: '{self._live_fallback_style}'")
         if not query_fragment:
             return Cardinality.unknown()
 
         if self._live_fallback_style == "actual":
-            true_card_query = transform.as_count_star_query(query_fragment)
-            cardinality = Cardinality(self._live_db.execute_query(true_card_query))
-        elif self._live_fallback_style == "estimated":
-            cardinality = self._live_db.optimizer().cardinality_estimate(query_fragment)
+            cardinality = Cardinality(self._live_db.execute_query(query_fragment))
         else:
-            raise ValueError(f"Unknown fallback style: '{self._live_fallback_style}'")
+            cardinality = self._live_db.optimizer().cardinality_estimate(query_fragment)
 
         if self._save_life_fallback:
             self._dump_fallback_estimate(query, tables, cardinality)
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index a108970..3862a6c 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -48,6 +48,7 @@ from ..db import Database, DatabaseServerError, DatabaseUserError
 from ..postgres import PostgresInterface
 from ..qal import ColumnExpression, OrderBy, SqlQuery
 from ..util import jsondict
+from ._cardinalities import _intermediate_query
 
 
 class CostEstimationWarning(UserWarning):
@@ -421,8 +422,7 @@ class NativeCardinalityEstimator(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
-        subquery = transform.as_star_query(subquery)
+        subquery = _intermediate_query(query, intermediate, projection="star")
         return self._target_db.optimizer().cardinality_estimate(subquery)
 
     def describe(self) -> jsondict:
-- 
2.43.0


From a474c608c3a9417765ec2003dc77a80c84ccf232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 064/108] fix: base tables without filters were no
 intermediates

---
 postbound/_stages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index fec9be2..1cf03fd 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -712,8 +712,11 @@ class CardinalityEstimator(ParameterGeneration, abc.ABC):
                 not candidate_join
             ):  # skip empty set (which is an artefact of the powerset method)
                 continue
-            if not self.allow_cross_products and not query.predicates().joins_tables(
-                candidate_join
+            is_join = len(candidate_join) > 1
+            if (
+                is_join
+                and not self.allow_cross_products
+                and not query.predicates().joins_tables(candidate_join)
             ):
                 continue
             yield frozenset(candidate_join)
-- 
2.43.0


From c012884736a6ffb6e1d79837796f7722c7f8a902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 065/108] fix: missing pre-computed cardinalities did not raise
 errors

---
 postbound/opt/_cardinalities.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 0605997..1620ac4 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -222,11 +222,13 @@ class PreComputedCardinalities(CardinalityEstimator):
             )
 
         fallback_value = self._attempt_fallback_estimate(n_samples, query, tables)
-        if fallback_value is None and self._error_on_missing_card:
+        if fallback_value is not None:
+            return fallback_value
+        if self._error_on_missing_card:
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return Cardinality.unknown()
 
     def describe(self) -> dict:
         return {
@@ -237,7 +239,7 @@ class PreComputedCardinalities(CardinalityEstimator):
 
     def _attempt_fallback_estimate(
         self, n_samples: int, query: SqlQuery, tables: frozenset[TableReference]
-    ) -> Cardinality:
+    ) -> Optional[Cardinality]:
         """Tries to infer the fallback value for a specific estimate, if this is necessary.
 
         The inference strategy applies the following rules:
@@ -258,17 +260,17 @@ class PreComputedCardinalities(CardinalityEstimator):
 
         Returns
         -------
-        Cardinality
-            The fallback value if it could be inferred, otherwise *NaN*.
+        Optional[Cardinality]
+            The fallback value if it could be inferred, otherwise *None*.
         """
         if n_samples == 1:
             # If we found exactly one sample, we did not need to fall back at all
-            return Cardinality.unknown()
+            return None
 
         if self._default_card is not None:
             return self._default_card
         if self._live_db is None:
-            return Cardinality.unknown()
+            return None
 
         if self._live_fallback_style == "actual":
             query_fragment = _intermediate_query(
@@ -279,7 +281,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         else:
             raise ValueError(f"Unknown fallback style: '{self._live_fallback_style}'")
         if not query_fragment:
-            return Cardinality.unknown()
+            return None
 
         if self._live_fallback_style == "actual":
             cardinality = Cardinality(self._live_db.execute_query(query_fragment))
-- 
2.43.0


From 4463ee701dc0038b7c06f2664563c023208f5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 066/108] fix: saved fallback cardinalities could not be found
 or loaded again

---
 postbound/opt/_cardinalities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 1620ac4..adabdd9 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -311,7 +311,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         """
         result_row = {}
         result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -326,7 +326,9 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+        export_df = self._true_card_df.copy()
+        export_df[self._tables_col] = export_df[self._tables_col].map(util.to_json)
+        export_df.to_csv(self._lookup_df_path, index=False)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From 593716ae48f06fb66a9c8b2c9c06f33a98575767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 067/108] fix: pre-computed cardinalities with numeric query
 labels were never found

---
 postbound/opt/_cardinalities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index adabdd9..9b9b155 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -196,7 +196,8 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._save_life_fallback = save_live_fallback_results
 
         self._true_card_df = pd.read_csv(
-            lookup_table_path, converters={tables_col: _parse_tables}
+            lookup_table_path,
+            converters={tables_col: _parse_tables, label_col: str},
         )
 
     def calculate_estimate(
@@ -205,7 +206,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         tables = frozenset(util.enlist(tables))
         label = self._workload.label_of(query)
         relevant_samples = self._true_card_df[
-            self._true_card_df[self._label_col] == label
+            self._true_card_df[self._label_col] == str(label)
         ]
         cardinality_sample = relevant_samples[
             relevant_samples[self._tables_col] == tables
@@ -310,7 +311,7 @@ class PreComputedCardinalities(CardinalityEstimator):
             The computed cardinality
         """
         result_row = {}
-        result_row[self._label_col] = [self._workload.label_of(query)]
+        result_row[self._label_col] = [str(self._workload.label_of(query))]
         result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
-- 
2.43.0


From b0905c1bd8b0ceba9a2e68f76ad50c57f1cfd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 068/108] fix: cardinality distortion did not initialize the
 actual estimator

---
 postbound/opt/_cardinalities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 9b9b155..9287791 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -368,6 +368,14 @@ class CardinalityDistortion(CardinalityEstimator):
         self.distortion_factor = distortion_factor
         self.distortion_strategy = distortion_strategy
 
+    def initialize(self, target_db: Database, query: SqlQuery) -> None:
+        super().initialize(target_db, query)
+        self.estimator.initialize(target_db, query)
+
+    def cleanup(self) -> None:
+        self.estimator.cleanup()
+        super().cleanup()
+
     def describe(self) -> dict:
         return {
             "name": "cardinality-distortion",
-- 
2.43.0


From 84ca0f8cb566dc2514eb98f855ad536074432885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 069/108] fix: query generator dropped single filters and
 repeated the join instead

---
 postbound/experiments/querygen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 98c0593..eb81ef8 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -323,7 +323,7 @@ def generate_query(
                 case CompoundPredicate(op, children) if op == CompoundOperator.And:
                     where_parts.extend(children)
                 case _:
-                    where_parts.append(join_predicates)
+                    where_parts.append(predicates)
 
         where_clause = (
             Where(CompoundPredicate.create_and(where_parts)) if where_parts else None
-- 
2.43.0


From a5a738591c55ac5c171bd2fcb6175da8bf2ab235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 070/108] fix: query generator lost filters on single values,
 filtered by NULL and did not quote identifiers

---
 postbound/experiments/querygen.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index eb81ef8..bde8c7a 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -9,7 +9,7 @@ from typing import Optional
 import networkx as nx
 
 from .. import postgres, util
-from .._core import ColumnReference, TableReference
+from .._core import ColumnReference, TableReference, quote
 from ..db import Database, DatabasePool, ForeignKeyRef
 from ..qal import (
     AbstractPredicate,
@@ -119,13 +119,17 @@ def _generate_filter(
     else:
         distinct_template = """SELECT DISTINCT {col} FROM {tab}"""
 
-    candidate_values = target_db.execute_query(
-        distinct_template.format(col=column.name, tab=column.table.full_name),
+    result_set = target_db.execute_query(
+        distinct_template.format(
+            col=quote(column.name), tab=quote(column.table.full_name)
+        ),
         cache_enabled=False,
+        raw=True,
     )
+    # comparisons with NULL never match, no matter the operator
+    candidate_values = [row[0] for row in result_set if row[0] is not None]
     if not candidate_values:
         return None
-    candidate_values = util.enlist(candidate_values)
 
     selected_value = random.choice(candidate_values)
     selected_operator = random.choice(candidate_operators)
-- 
2.43.0


From 4d2a59c6bff0512d96d42ef7655159fc4441dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 071/108] fix: query generator did not recognize the numeric
 types of DuckDB and MySQL

---
 postbound/experiments/querygen.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index bde8c7a..35a738c 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -139,16 +139,29 @@ def _generate_filter(
 
 def _is_numeric(data_type: str) -> bool:
     """Checks, whether a data type is numeric."""
+    # remove precision, etc. from types like DECIMAL(18, 3)
+    data_type = data_type.lower().partition("(")[0].strip()
     return data_type in {
         "integer",
+        "int",
+        "tinyint",
         "smallint",
+        "mediumint",
         "bigint",
+        "hugeint",
+        "utinyint",
+        "usmallint",
+        "uinteger",
+        "ubigint",
+        "uhugeint",
         "date",
         "double precision",
+        "double",
+        "float",
         "real",
         "numeric",
         "decimal",
-    } or data_type.startswith("time")
+    } or data_type.startswith(("time", "datetime"))
 
 
 def generate_query(
-- 
2.43.0


From f1123399fa8a20f9b17c166987d116beaaa54c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 072/108] fix: query generator combined tables without foreign
 keys

---
 postbound/experiments/querygen.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 35a738c..b2eb310 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -251,11 +251,16 @@ def generate_query(
         ]
         schema_graph.remove_nodes_from(nodes_to_remove)
 
-    min_tables = min_tables or 1
-    if not min_tables:
+    # Joins are only possible within the connected components of the schema graph
+    join_graph = schema_graph.to_undirected()
+    components: list[set[TableReference]] = list(nx.connected_components(join_graph))
+    largest_component = max((len(component) for component in components), default=0)
+
+    min_tables = 1 if min_tables is None else min_tables
+    if min_tables < 1:
         raise ValueError("min_tables must be at least 1")
-    max_tables = max_tables or len(schema_graph.nodes)
-    max_tables = min(max_tables, len(schema_graph.nodes))
+    max_tables = largest_component if max_tables is None else max_tables
+    max_tables = min(max_tables, largest_component)
     if max_tables < min_tables:
         raise ValueError(
             f"max_tables must be at least as large as min_tables. Got {max_tables} (max) and {min_tables} (min)."
@@ -275,7 +280,17 @@ def generate_query(
 
         # We ensure that we always generate a connected join graph by performing a random walk through the schema graph.
         # This way, we can terminate the walk at any point if we have visited enough tables.
-        table_walk = nx_utils.nx_random_walk(schema_graph.to_undirected())
+        # Since the walk jumps to another component once all tables of the current one have been visited, we have to start it
+        # in a component that is large enough.
+        candidate_tables = [
+            table
+            for component in components
+            if len(component) >= n_tables
+            for table in component
+        ]
+        table_walk = nx_utils.nx_random_walk(
+            join_graph, starting_node=random.choice(candidate_tables)
+        )
         joined_tables: list[TableReference] = [
             next(table_walk) for _ in range(n_tables)
         ]
-- 
2.43.0


From 56db02d80a02cdec96d521e04617ea826e1f26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 073/108] fix: query generator did not terminate for tight or
 impossible numbers of filters

---
 postbound/experiments/querygen.py | 45 +++++++++++++++----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index b2eb310..2e82dac 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -266,11 +266,27 @@ def generate_query(
             f"max_tables must be at least as large as min_tables. Got {max_tables} (max) and {min_tables} (min)."
         )
 
-    filter_columns = util.flatten(
-        cols for __, cols in schema_graph.nodes(data="columns")
-    )
+    def _can_filter(col: ColumnReference) -> bool:
+        if not filter_key_columns and (
+            db_schema.is_primary_key(col) or db_schema.foreign_keys_on(col)
+        ):
+            return False
+        if numeric_filters:
+            return _is_numeric(schema_graph.nodes[col.table]["data_type"][col])
+        return True
+
+    filter_columns: dict[TableReference, list[ColumnReference]] = {
+        table: [col for col in cols if _can_filter(col)]
+        for table, cols in schema_graph.nodes(data="columns")
+    }
+    n_filter_columns = [len(cols) for cols in filter_columns.values()]
     min_filters = min_filters or 0
-    max_filters = max_filters or len(filter_columns)
+    max_filters = sum(n_filter_columns) if max_filters is None else max_filters
+    possible_filters = sum(sorted(n_filter_columns, reverse=True)[:max_tables])
+    if min(max_filters, possible_filters) < min_filters:
+        raise ValueError(
+            f"Cannot generate at least {min_filters} filters: at most {min(max_filters, possible_filters)} are possible."
+        )
 
     select_clause = Select.count_star() if count_star else Select.star()
 
@@ -296,25 +312,8 @@ def generate_query(
         ]
 
         available_columns: list[ColumnReference] = util.flatten(
-            [
-                cols
-                for tab, cols in schema_graph.nodes(data="columns")
-                if tab in set(joined_tables)
-            ]
+            [filter_columns[tab] for tab in joined_tables]
         )
-        if not filter_key_columns:
-            available_columns = [
-                col
-                for col in available_columns
-                if not db_schema.is_primary_key(col)
-                and not db_schema.foreign_keys_on(col)
-            ]
-        if numeric_filters:
-            available_columns = [
-                col
-                for col in available_columns
-                if _is_numeric(schema_graph.nodes[col.table]["data_type"][col])
-            ]
 
         from_clause = ImplicitFromClause.create_for(joined_tables)
         join_predicates = (
@@ -324,7 +323,7 @@ def generate_query(
         )
 
         current_max_filters = min(max_filters, len(available_columns))
-        if current_max_filters <= min_filters:
+        if current_max_filters < min_filters:
             # too few columns available, let's just try again
             continue
         else:
-- 
2.43.0


From 1004128dfad614ebafe53c746417f431f53e9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 074/108] fix: CEB templates could not use columns without
 table alias

---
 postbound/experiments/ceb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 61191d2..5d7a4a0 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -630,7 +630,7 @@ class QueryTemplate:
         if "." not in colname:
             tables_without_alias = [
                 TableReference(tab)
-                for tab, alias in self._table_aliases
+                for alias, tab in self._table_aliases.items()
                 if tab == alias
             ]
             target_table = self._db_conn.schema().lookup_column(
-- 
2.43.0


From 1b0375ea3cece04b9ed26dcaf62fcd68e3b44d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 075/108] fix: CEB templates produced invalid text, date and
 LIKE values

---
 postbound/experiments/ceb.py | 39 +++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 5d7a4a0..6852ee6 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -52,6 +52,31 @@ PlaceHolderValue = Any
 """The selected value to bind and replace a placeholder."""
 
 
+_UnquotedTypes = {
+    "bigint",
+    "bool",
+    "boolean",
+    "decimal",
+    "double",
+    "double precision",
+    "float",
+    "hugeint",
+    "int",
+    "integer",
+    "mediumint",
+    "numeric",
+    "real",
+    "smallint",
+    "tinyint",
+    "ubigint",
+    "uhugeint",
+    "uinteger",
+    "usmallint",
+    "utinyint",
+}
+"""Values of columns with these data types do not require quotes."""
+
+
 def _tuplelize_value(val: Any) -> Any:
     """Leaves scalar values as they are, but converts lists to tuples. This ensures that we can hash them."""
     if isinstance(val, list):
@@ -655,12 +680,16 @@ class QueryTemplate:
             value_text = ", ".join(escaped_values)
             return f"({value_text})"
 
-        if dtype in {"text", "varchar", "char", "character varying"}:
-            if pred_type == "LIKE" or pred_type == "ILIKE":
-                value = f"'%{value}%'"
-            return f"'{value}'"
+        if value is None:
+            return "NULL"
+        if pred_type == "LIKE" or pred_type == "ILIKE":
+            value = f"%{value}%"
+        base_type = dtype.lower().partition("(")[0].strip()
+        if base_type in _UnquotedTypes or isinstance(value, bool):
+            return str(value)
 
-        return str(value)
+        escaped_value = str(value).replace("'", "''")
+        return f"'{escaped_value}'"
 
     def __hash__(self) -> int:
         return hash(self.label)
-- 
2.43.0


From 7ff27f41dac23eeae7c7222fd208812d496b40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 076/108] fix: CEB templates could not generate IN predicates

---
 postbound/experiments/ceb.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 6852ee6..ccfa00f 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -412,9 +412,8 @@ class PredicateGenerator:
         self, candidate_values: list[tuple[PlaceHolderValue]]
     ) -> tuple[PlaceHolderValue]:
         """Selects placeholder values for *IN* predicates according to the specified sampling strategy."""
-        if len(candidate_values[0]) != 1 or (
-            self._count_col_idx and len(candidate_values[0]) != 2
-        ):
+        expected_cols = 1 if self._count_col_idx is None else 2
+        if len(candidate_values[0]) != expected_cols:
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
             )
@@ -424,13 +423,15 @@ class PredicateGenerator:
         if self._sampling_method == "uniform":
             # Uniform sampling is easy: we just need to determine which unique values are available and then choose a
             # correctly-sized subset from them
-            candidate_values = list(set(candidate_values))
+            val_idx = 1 if self._count_col_idx == 0 else 0
+            candidate_values = list({val[val_idx] for val in candidate_values})
 
             max_values = (
                 len(candidate_values)
                 if self._in_pred_max_samples is None
                 else min(self._in_pred_max_samples, len(candidate_values))
             )
+            self._assert_sufficient_candidates(max_values)
             n_values = random.randint(min_values, max_values)
 
             selected_val = random.sample(candidate_values, k=n_values)
@@ -452,6 +453,7 @@ class PredicateGenerator:
             if self._in_pred_max_samples is None
             else min(self._in_pred_max_samples, len(population))
         )
+        self._assert_sufficient_candidates(max_values)
         n_values = random.randint(min_values, max_values)
 
         # We use numpy's random module here because it supports sampling from a population with custom weights as well as
@@ -460,11 +462,12 @@ class PredicateGenerator:
         weights = np.array(weights)
         weights = weights / weights.sum()
 
+        # We only draw the indexes because numpy would convert the actual values to its own data types
         rng = np.random.default_rng()
-        selected_val: list[PlaceHolderValue] = rng.choice(
-            population, size=n_values, p=weights, replace=False
+        selected_idx = rng.choice(
+            len(population), size=n_values, p=weights, replace=False
         )
-        return [tuple(selected_val)]
+        return [tuple(population[i] for i in selected_idx)]
 
     def _value_passes_constraints(
         self, key: PlaceholderName, value: list[PlaceHolderValue]
@@ -473,12 +476,18 @@ class PredicateGenerator:
         if self.predicate_for(key) != "IN":
             return True
 
+        n_values = len(value[self._key_lookup[key]])
         max_allowed_values = (
             self._in_pred_max_samples
             if self._in_pred_max_samples is not None
-            else len(value)
+            else n_values
         )
-        return self._in_pred_min_samples <= len(value) <= max_allowed_values
+        return self._in_pred_min_samples <= n_values <= max_allowed_values
+
+    def _assert_sufficient_candidates(self, n_candidates: int) -> None:
+        """Raises an error if there are not enough candidates to satisfy the minimum number of samples."""
+        if n_candidates < self._in_pred_min_samples:
+            raise SamplingError(f"Not enough values found for predicate '{self.name}'")
 
     def _assert_values_available(self) -> None:
         """Raises an error if no values have been selected yet."""
-- 
2.43.0


From dea9fb48df014f690a5318894c9cafce3b1dee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 077/108] fix: CEB templates ignored weights and rejected
 predicates without dependencies or with a single operator

---
 postbound/experiments/ceb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index ccfa00f..f332c08 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -24,7 +24,7 @@ from typing import Any, Literal, NewType, Optional
 
 import numpy as np
 
-from .. import parser, postgres
+from .. import parser, postgres, util
 from .._core import ColumnReference, TableReference
 from ..db import Database
 from ..qal import SqlQuery, format_quick
@@ -184,7 +184,7 @@ class PredicateGenerator:
             )
         self.pred_type = pred_type
 
-        self.dependencies = dependencies
+        self.dependencies = dependencies or []
 
         if not (len(provided_keys) == len(target_columns) == len(pred_type)):
             raise ValueError(
@@ -738,7 +738,7 @@ def _parse_template_toml(
             ],
             template_type=raw_predicate["type"],
             sampling_method=raw_predicate["sampling_method"],
-            pred_type=raw_predicate["pred_type"],
+            pred_type=util.enlist(raw_predicate["pred_type"]),
             target_columns=[ColumnName(c) for c in raw_predicate["columns"]],
             sql_query=raw_predicate.get("sql"),
             list_allowed_values=[
@@ -746,6 +746,7 @@ def _parse_template_toml(
             ],
             in_pred_min_samples=raw_predicate.get("min_samples", 1),
             in_pred_max_samples=raw_predicate.get("max_samples"),
+            count_column_idx=raw_predicate.get("weights_column"),
             dependencies=[
                 PredicateName(d) for d in raw_predicate.get("dependencies", [])
             ],
-- 
2.43.0


From d06b0f4d77ce438b1cc0a0f0fa9f29c0de58858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 078/108] fix: CEB templates kept values that do not match
 re-drawn dependencies

---
 postbound/experiments/ceb.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index f332c08..94d32e1 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -221,6 +221,9 @@ class PredicateGenerator:
         self._db_connection = db_connection
 
         self._selected_values: list = []
+        self._used_dependencies: dict[
+            PredicateName, dict[PlaceholderName, PlaceHolderValue]
+        ] = {}
 
     @property
     def placeholders(self) -> Iterable[PlaceholderName]:
@@ -291,6 +294,13 @@ class PredicateGenerator:
         self._assert_values_available()
         return {k: self._selected_values[i] for k, i in self._key_lookup.items()}
 
+    def is_outdated(self) -> bool:
+        """Checks, whether any dependency selected new values since the values of this predicate have been drawn."""
+        return any(
+            self._parent_generator.selected_values(dep) != used_values
+            for dep, used_values in self._used_dependencies.items()
+        )
+
     def column_for(self, key: PlaceholderName) -> ColumnName:
         """Provides the column that is computed by a specific placeholder key."""
         self._assert_valid_key(key)
@@ -362,6 +372,7 @@ class PredicateGenerator:
             dependent_values = self._parent_generator.selected_values(
                 dep, refresh=redraw_dependent_values
             )
+            self._used_dependencies[dep] = dependent_values
             sql_query = self._parent_generator.substitute_placeholders(
                 sql_query, dependent_values
             )
@@ -644,9 +655,23 @@ class QueryTemplate:
             )
             dep_graph.add_task(generator, depends_on=dependencies)
 
-        for generator in dep_graph:
+        generators = list(dep_graph)
+        for generator in generators:
             generator.choose_predicate_values()
 
+        # If we did not find any values for a predicate, we also re-draw the values of its dependencies. These dependencies might
+        # be shared with other predicates, which have to be updated as well.
+        current_try = 0
+        while any(generator.is_outdated() for generator in generators):
+            current_try += 1
+            if current_try > self.max_tries:
+                raise SamplingError(
+                    f"Did not find matching values for all predicates of template '{self.label}'"
+                )
+            for generator in generators:
+                if generator.is_outdated():
+                    generator.choose_predicate_values()
+
         final_query = self.base_query
         for generator in self._predicate_generators.values():
             selected_values = generator.selected_values()
-- 
2.43.0


From 97689380cf3e44e89ec4316ca7e8825474d8f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 079/108] fix: CEB workloads could contain fewer queries than
 requested

---
 postbound/experiments/ceb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 94d32e1..1cc1dff 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -842,10 +842,6 @@ def generate_raw_workload(
             num_tries += 1
             query = template.generate_raw_query()
             if query in generated_queries:
-                if num_tries == max_tries:
-                    raise SamplingError(
-                        "Could not generate enough unique queries for template {template.label}"
-                    )
                 continue
             else:
                 generated_queries.add(query)
@@ -857,6 +853,11 @@ def generate_raw_workload(
             query_label = f"{template.label}-{template_idx}"
             workload_queries[query_label] = query
 
+        if generated_count < queries_per_template:
+            raise SamplingError(
+                f"Could not generate enough unique queries for template {template.label}"
+            )
+
     return workload_queries
 
 
-- 
2.43.0


From 4791ec2fb47528d6fedfc7521ceb995805fe7151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 080/108] fix: rejected predicate generators remained part of
 the CEB template

---
 postbound/experiments/ceb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 1cc1dff..4d5ec10 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -589,13 +589,14 @@ class QueryTemplate:
                 f"Predicate '{generator.name}' already registered in template '{self.label}'"
             )
 
-        self._predicate_generators[generator.name] = generator
-
         for key in generator.placeholders:
             if key in self._generator_lookup:
                 raise KeyError(
                     f"Key '{key}' already registered in template '{self.label}'"
                 )
+
+        self._predicate_generators[generator.name] = generator
+        for key in generator.placeholders:
             self._generator_lookup[key] = generator
 
         generator._parent_generator = self
-- 
2.43.0


From 8c4eddd338e015dc8d7b26f80dfde2f2a40b4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 081/108] fix: copy relational algebra trees top-down and
 rehash children before their parents

---
 postbound/relalg.py | 190 +++++++++++++++++++-------------------------
 1 file changed, 82 insertions(+), 108 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index eda6b5a..1267cf7 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -328,6 +328,8 @@ class RelNode(abc.ABC):
             if child._parent is None:
                 child._parent = self
                 continue
+            if child._parent is self:
+                continue
             child._sideways_pass.add(self)
 
         if not recursive:
@@ -386,14 +388,49 @@ class RelNode(abc.ABC):
 
     def _rebuild_linkage(self) -> None:
         """Ensures that the subtree induced by the current node is correctly linked."""
-        self._clear_parent_links(recursive=True)
-        self._maintain_child_links(recursive=True)
+        nodes = self._distinct_nodes()
+        for node in nodes:
+            node._clear_parent_links()
+        for node in nodes:
+            node._maintain_child_links()
 
     def _rehash(self) -> None:
         """Re-calculates the hash value of the current node and all its children."""
-        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
-        for child in self.children():
-            child._rehash()
+
+        # the hash values of the children are part of our own hash value, so they need to be up-to-date first
+        for node in self._distinct_nodes(children_first=True):
+            node._hash_val = hash((node._node_type, node._recalc_hash_val()))
+
+    def _distinct_nodes(self, *, children_first: bool = False) -> list[RelNode]:
+        """Collects all nodes of the subtree induced by the current node. Shared nodes are only contained once.
+
+        Parameters
+        ----------
+        children_first : bool, optional
+            Whether nodes should be located after all their children. By default, nodes are located before their children
+            (unless the children are already used by an earlier node).
+
+        Returns
+        -------
+        list[RelNode]
+            The nodes
+        """
+        nodes: list[RelNode] = []
+        visited: set[int] = set()
+
+        def visit(node: RelNode) -> None:
+            if id(node) in visited:
+                return
+            visited.add(id(node))
+            if not children_first:
+                nodes.append(node)
+            for child in node.children():
+                visit(child)
+            if children_first:
+                nodes.append(node)
+
+        visit(self)
+        return nodes
 
     def _assert_correct_update_child_count(self, children: Sequence[RelNode]) -> None:
         """Ensures that the correct number of child nodes is supplied for updating the current node.
@@ -2521,28 +2558,6 @@ class RelNodeVisitor(abc.ABC, typing.Generic[VisitorResult]):
         raise NotImplementedError
 
 
-def _collect_leaf_nodes(root: RelNode) -> set[Relation]:
-    """Provides all leaf nodes of a relational algebra tree.
-
-    For relation nodes with subquery input, only the leaf nodes of the subquery are returned.
-
-    Parameters
-    ----------
-    root : RelNode
-        The root node of the tree
-
-    Returns
-    -------
-    set[Relation]
-        The leaf nodes
-    """
-    if isinstance(root, Relation) and not root.subquery_input:
-        nodes = {root}
-    else:
-        nodes = util.set_union(_collect_leaf_nodes(child) for child in root.children())
-    return nodes
-
-
 @dataclasses.dataclass
 class _RelTreeUpdateSet:
     """Holds the root node of the updated tree and the node that asked for the tree update in the first place."""
@@ -2566,7 +2581,6 @@ class _RelNodeUpdateManager:
         self._root = root
         self._initiator = initiator
         self._updated_nodes: dict[RelNode, RelNode] = {}
-        self._node_working_set: list[RelNode] = list(_collect_leaf_nodes(root))
 
     def make_relalg_copy(self, **kwargs) -> _RelTreeUpdateSet:
         """Creates a copy of the relational algebra tree and applies modifications to it.
@@ -2582,45 +2596,16 @@ class _RelNodeUpdateManager:
             The updated relalg tree.
         """
         as_root: bool = kwargs.get("as_root", False)
-        updated_root: RelNode = None
-        updated_initiator: RelNode = None
-
-        while self._node_working_set:
-            current_node = self._node_working_set.pop(0)
-            self._update_node_working_set(current_node)
-
-            already_updated = current_node in self._updated_nodes
-            pending_child_update = any(
-                child not in self._updated_nodes for child in current_node.children()
-            )
-            if already_updated or pending_child_update:
-                continue
+        start_node = self._initiator if as_root else self._root
 
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
-
-            if current_node == self._initiator:
-                self._perform_node_update(updated_node, **kwargs)
-                updated_initiator = updated_node
-                if as_root:
-                    updated_root = updated_node
-                    break
-
-            self._updated_nodes[current_node] = updated_node
-
-            if not as_root and current_node == self._root:
-                updated_root = updated_node
+        updated_root = self._copy_node(start_node, update_args=kwargs)
+        updated_initiator = self._updated_nodes[self._initiator]
 
-        assert updated_initiator is not None
-        assert updated_root is not None
-
-        updated_root._rebuild_linkage()
+        # The hash values have to be updated before the links, because the links contain sets of nodes
         updated_root._rehash()
-        self._root._rebuild_linkage()
+        updated_root._rebuild_linkage()
         self._root._rehash()
+        self._root._rebuild_linkage()
 
         return _RelTreeUpdateSet(updated_root, updated_initiator)
 
@@ -2661,59 +2646,48 @@ class _RelNodeUpdateManager:
         RelNode
             The updated child node
         """
-        internal_node_working_set: list[RelNode] = list(_collect_leaf_nodes(child_node))
-        updated_child: RelNode = None
-
-        while internal_node_working_set:
-            current_node = internal_node_working_set.pop(0)
-            already_updated = current_node in self._updated_nodes
-            if already_updated and current_node == child_node:
-                updated_child = self._updated_nodes[current_node]
-                break
-            if already_updated:
-                self._update_node_working_set(
-                    current_node, working_set=internal_node_working_set
-                )
-                continue
-            if any(
-                child not in self._updated_nodes for child in current_node.children()
-            ):
-                continue
+        updated_child = self._copy_node(child_node)
 
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
-
-            self._updated_nodes[current_node] = updated_node
-            if current_node == child_node:
-                updated_child = updated_node
-                break
-
-            self._update_node_working_set(
-                current_node, working_set=internal_node_working_set
-            )
-
-        assert updated_child is not None
+        # If the new child is based on the initiator, it uses the old version of the initiator (and its parents). These copies
+        # must not be used for the remainder of the tree.
+        for node in child_node._distinct_nodes(children_first=True):
+            if node == self._initiator or any(
+                child not in self._updated_nodes for child in node.children()
+            ):
+                self._updated_nodes.pop(node, None)
         return updated_child
 
-    def _update_node_working_set(
-        self, node: RelNode, *, working_set: Optional[list[RelNode]] = None
-    ) -> None:
-        """Utility method to quickly include all relevant parent nodes into a node working set.
+    def _copy_node(
+        self, node: RelNode, *, update_args: Optional[dict] = None
+    ) -> RelNode:
+        """Creates a copy of a node and its entire subtree. Nodes that are used multiple times are only copied once.
 
         Parameters
         ----------
         node : RelNode
-            The node whose upwards links should be added to the working set
-        working_set : Optional[list[RelNode]], optional
-            The working set to update. If *None*, the internal working set of the update manager is used.
+            The node to copy
+        update_args : Optional[dict], optional
+            The modifications to apply to the initiator. If *None*, the initiator is copied just like any other node.
+
+        Returns
+        -------
+        RelNode
+            The copied node. Its parent links still have to be determined.
         """
-        working_set = self._node_working_set if working_set is None else working_set
-        if node.parent_node:
-            working_set.append(node.parent_node)
-        working_set.extend(node.sideways_pass)
+        if node in self._updated_nodes:
+            return self._updated_nodes[node]
+
+        updated_children = [
+            self._copy_node(child, update_args=update_args) for child in node.children()
+        ]
+        updated_node = node.clone()
+        updated_node._update_child_nodes(updated_children)
+        updated_node._clear_parent_links()
+        if update_args is not None and node == self._initiator:
+            self._perform_node_update(updated_node, **update_args)
+
+        self._updated_nodes[node] = updated_node
+        return updated_node
 
 
 def _is_aggregation(expression: SqlExpression) -> bool:
-- 
2.43.0


From f1b9b2f472bf780e7762b9ef848b6072ca166716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 082/108] fix: relational algebra nodes: apply all mutate
 arguments, visit set operators, compare relations completely, detect
 correlated semi-joins

---
 postbound/relalg.py | 91 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 26 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 1267cf7..812b739 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -162,7 +162,7 @@ class RelNode(abc.ABC):
         children = self.children()
         if not children:
             return self
-        return children[0] if len(children) == 1 else None
+        return children[0].leaf() if len(children) == 1 else None
 
     @abc.abstractmethod
     def children(self) -> Sequence[RelNode]:
@@ -762,7 +762,7 @@ class Union(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_union(visitor)
+        return visitor.visit_union(self)
 
     def mutate(
         self,
@@ -873,7 +873,7 @@ class Intersection(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_intersection(visitor)
+        return visitor.visit_intersection(self)
 
     def mutate(
         self,
@@ -985,7 +985,7 @@ class Difference(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_difference(visitor)
+        return visitor.visit_difference(self)
 
     def mutate(
         self,
@@ -1067,10 +1067,7 @@ class Relation(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._table = table
-        self._provided_cols = frozenset(
-            col if isinstance(col, ColumnExpression) else ColumnExpression(col)
-            for col in provided_columns
-        )
+        self._provided_cols = self._normalize_columns(provided_columns)
 
         self._subquery_input = subquery_input if subquery_input is not None else None
         if self._subquery_input is not None:
@@ -1151,6 +1148,8 @@ class Relation(RelNode):
             for param, val in locals().items()
             if param != "self" and not param.startswith("__")
         }
+        if provided_columns is not None:
+            params["provided_cols"] = self._normalize_columns(provided_columns)
         return super().mutate(**params)
 
     def _update_child_nodes(self, children: Sequence[RelNode]) -> None:
@@ -1158,13 +1157,27 @@ class Relation(RelNode):
         if self._subquery_input:
             self._subquery_input = children[0]
 
+    @staticmethod
+    def _normalize_columns(
+        columns: Iterable[ColumnReference | ColumnExpression],
+    ) -> frozenset[ColumnExpression]:
+        return frozenset(
+            col if isinstance(col, ColumnExpression) else ColumnExpression(col)
+            for col in columns
+        )
+
     def _recalc_hash_val(self) -> int:
-        return hash((self._table, self._subquery_input))
+        return hash((self._table, self._provided_cols, self._subquery_input))
 
     __hash__ = RelNode.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, type(self)) and self._table == other._table
+        return (
+            isinstance(other, type(self))
+            and self._table == other._table
+            and self._provided_cols == other._provided_cols
+            and self._subquery_input == other._subquery_input
+        )
 
     def __repr__(self) -> str:
         return self._table.identifier()
@@ -1386,6 +1399,8 @@ class Projection(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        if targets is not None:
+            targets = tuple(targets)
         params = {
             param: val
             for param, val in locals().items()
@@ -1527,6 +1542,10 @@ class Grouping(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        if group_columns is not None:
+            group_columns = tuple(group_columns)
+        if aggregates is not None:
+            aggregates = util.frozendict(aggregates)
         params = {
             param: val
             for param, val in locals().items()
@@ -1660,6 +1679,8 @@ class Rename(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        if mapping is not None:
+            mapping = util.frozendict(mapping)
         params = {
             param: val
             for param, val in locals().items()
@@ -1720,12 +1741,7 @@ class Sort(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._input_node = input_node
-        self._sorting = tuple(
-            [
-                sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
-                for sort_item in sorting
-            ]
-        )
+        self._sorting = self._normalize_sorting(sorting)
         super().__init__(parent_node)
 
     @property
@@ -1788,6 +1804,8 @@ class Sort(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        if sorting is not None:
+            sorting = self._normalize_sorting(sorting)
         params = {
             param: val
             for param, val in locals().items()
@@ -1795,6 +1813,17 @@ class Sort(RelNode):
         }
         return super().mutate(**params)
 
+    @staticmethod
+    def _normalize_sorting(
+        sorting: Sequence[tuple[SqlExpression, SortDirection] | SqlExpression],
+    ) -> Sequence[tuple[SqlExpression, SortDirection]]:
+        return tuple(
+            [
+                sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
+                for sort_item in sorting
+            ]
+        )
+
     def _recalc_hash_val(self) -> int:
         return hash((self._input_node, self._sorting))
 
@@ -1843,14 +1872,7 @@ class Map(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._input_node = input_node
-        self._mapping = util.frozendict(
-            {
-                ColumnExpression(expression)
-                if isinstance(expression, ColumnReference)
-                else expression: target
-                for expression, target in mapping.items()
-            }
-        )
+        self._mapping = self._normalize_mapping(mapping)
         super().__init__(parent_node)
 
     @property
@@ -1920,6 +1942,8 @@ class Map(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        if mapping is not None:
+            mapping = self._normalize_mapping(mapping)
         params = {
             param: val
             for param, val in locals().items()
@@ -1927,6 +1951,21 @@ class Map(RelNode):
         }
         return super().mutate(**params)
 
+    @staticmethod
+    def _normalize_mapping(
+        mapping: dict[
+            frozenset[SqlExpression | ColumnReference], frozenset[SqlExpression]
+        ],
+    ) -> util.frozendict[frozenset[SqlExpression], frozenset[SqlExpression]]:
+        return util.frozendict(
+            {
+                ColumnExpression(expression)
+                if isinstance(expression, ColumnReference)
+                else expression: target
+                for expression, target in mapping.items()
+            }
+        )
+
     def _recalc_hash_val(self) -> int:
         return hash((self._input_node, self._mapping))
 
@@ -2125,7 +2164,7 @@ class SemiJoin(RelNode):
         --------
         SqlQuery.is_depedent
         """
-        return self._predicate is None
+        return self._subquery_node.subquery.is_dependent()
 
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
@@ -2283,7 +2322,7 @@ class AntiJoin(RelNode):
         --------
         SqlQuery.is_depedent
         """
-        return self._predicate is None
+        return self._subquery_node.subquery.is_dependent()
 
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
-- 
2.43.0


From 671ba101b26bacd56ff8b3a92621a23560e9526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 083/108] fix: relational algebra: separate scopes for set
 query sides, CTE references and nested subqueries

---
 postbound/relalg.py | 81 ++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 812b739..baa5222 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3308,6 +3308,8 @@ class _ImplicitRelalgParser:
     provided_base_tables : Optional[dict[TableReference, RelNode]], optional
         When parsing subqueries, these are the tables that are provided by the outer query and their corresponding relational
         algebra fragments.
+    provided_ctes : Optional[dict[str, SubqueryScan]], optional
+        When parsing subqueries (or parts of set queries), these are the CTEs that have been defined by the outer query.
 
     Notes
     -----
@@ -3350,6 +3352,7 @@ class _ImplicitRelalgParser:
         query: ImplicitSqlQuery,
         *,
         provided_base_tables: Optional[dict[TableReference, RelNode]] = None,
+        provided_ctes: Optional[dict[str, SubqueryScan]] = None,
     ) -> None:
         self._query = query
         self._base_table_fragments: dict[TableReference, RelNode] = {}
@@ -3359,12 +3362,14 @@ class _ImplicitRelalgParser:
         self._provided_base_tables: dict[TableReference, RelNode] = (
             provided_base_tables if provided_base_tables else {}
         )
+        self._ctes: dict[str, SubqueryScan] = dict(
+            provided_ctes if provided_ctes else {}
+        )
 
-        if query:
-            query_cols = self._query.columns()
-            util.collections.foreach(
-                query_cols, lambda col: self._required_columns[col.table].add(col)
-            )
+        query_cols = self._query.columns()
+        util.collections.foreach(
+            query_cols, lambda col: self._required_columns[col.table].add(col)
+        )
 
     def generate_relnode(self) -> RelNode:
         """Produces a relational algebra tree for the current query.
@@ -3379,10 +3384,7 @@ class _ImplicitRelalgParser:
 
         # TODO: robustness: query without FROM clause
 
-        if self._query.cte_clause:
-            for cte in self._query.cte_clause.queries:
-                cte_root = self._add_subquery(cte.query)
-                self._add_table(cte.target_table, input_node=cte_root)
+        self._add_ctes()
 
         # we add the WHERE clause before all explicit JOIN statements to make sure filters are already present and we can
         # stitch together the correct fragments in OUTER JOINs
@@ -3423,12 +3425,12 @@ class _ImplicitRelalgParser:
         final_fragment = self._add_final_projection(final_fragment)
         return final_fragment
 
-    def _update_query(self, query: SelectStatement) -> None:
-        self._query = query
-        query_cols = self._query.columns()
-        util.collections.foreach(
-            query_cols, lambda col: self._required_columns[col.table].add(col)
-        )
+    def _add_ctes(self) -> None:
+        """Parses all CTEs of the current query. They become part of the algebra tree once they are referenced."""
+        if not self._query.cte_clause:
+            return
+        for cte in self._query.cte_clause.queries:
+            self._ctes[cte.target_table.identifier()] = self._add_subquery(cte.query)
 
     def _parse_set_query(self, query: SetQuery) -> RelNode:
         """Handler method to translate a set query into a relational algebra fragment.
@@ -3448,17 +3450,11 @@ class _ImplicitRelalgParser:
         ValueError
             _description_
         """
-        parser = _ImplicitRelalgParser(None)
-
-        if query.cte_clause:
-            for cte in query.cte_clause.queries:
-                parser._update_query(cte.query)
-                parser.generate_relnode()  # we don't care about the result, we just want to add the CTE to the base tables
+        self._add_ctes()
 
-        parser._update_query(query.left_query)
-        left_relalg = parser.generate_relnode()
-        parser._update_query(query.right_query)
-        right_relalg = parser.generate_relnode()
+        # both input queries have their own scope, they only share the CTEs
+        left_relalg = self._nested_parser(query.left_query).generate_relnode()
+        right_relalg = self._nested_parser(query.right_query).generate_relnode()
 
         match query.set_operation:
             case SetOperator.Union:
@@ -3468,8 +3464,10 @@ class _ImplicitRelalgParser:
                 final_fragment = Union(left_relalg, right_relalg)
             case SetOperator.Intersect:
                 final_fragment = Intersection(left_relalg, right_relalg)
+                final_fragment = DuplicateElimination(final_fragment)
             case SetOperator.Except:
                 final_fragment = Difference(left_relalg, right_relalg)
+                final_fragment = DuplicateElimination(final_fragment)
             case _:
                 raise ValueError(f"Unknown set operation: '{query.set_operation}'")
 
@@ -3519,13 +3517,14 @@ class _ImplicitRelalgParser:
         match table_source:
             case DirectTableSource():
                 if table_source.table.virtual:
-                    # Virtual tables in direct table sources are only created through references to CTEs. However, these CTEs
-                    # have already been included in the base table fragments.
-                    return self._base_table_fragments[table_source.table]
+                    # Virtual tables in direct table sources are only created through references to CTEs.
+                    cte_name = table_source.table.full_name or table_source.table.alias
+                    return self._add_table(
+                        table_source.table, input_node=self._ctes[cte_name]
+                    )
                 return self._add_table(table_source.table)
             case SubqueryTableSource():
                 subquery_root = self._add_subquery(table_source.query)
-                self._base_table_fragments[table_source.target_table] = subquery_root
                 return self._add_table(
                     table_source.target_table, input_node=subquery_root
                 )
@@ -3558,7 +3557,7 @@ class _ImplicitRelalgParser:
                 self._query.where_clause.predicate, eval_phase=EvaluationPhase.Join
             )
 
-        head_nodes = set(self._base_table_fragments.values())
+        head_nodes = list(dict.fromkeys(self._base_table_fragments.values()))
         if len(head_nodes) == 1:
             return util.simplify(head_nodes)
 
@@ -3725,7 +3724,7 @@ class _ImplicitRelalgParser:
             case EvaluationPhase.Join:
                 for join_predicate in self._split_join_predicate(predicate):
                     join_node = self._convert_join_predicate(join_predicate)
-                    for outer_table in join_node.tables():
+                    for outer_table in join_node.tables(ignore_subqueries=True):
                         self._base_table_fragments[outer_table] = join_node
                 return join_node
             case EvaluationPhase.PostJoin | EvaluationPhase.PostAggregation:
@@ -4134,15 +4133,23 @@ class _ImplicitRelalgParser:
             case _:
                 raise ValueError(f"Did not expect expression '{expression}'")
 
+    def _nested_parser(self, query: SqlQuery) -> _ImplicitRelalgParser:
+        """Creates a new parser for a query that is nested within the current query."""
+        return _ImplicitRelalgParser(
+            query,
+            provided_base_tables={
+                **self._provided_base_tables,
+                **self._base_table_fragments,
+            },
+            provided_ctes=self._ctes,
+        )
+
     def _add_subquery(self, subquery: SqlQuery) -> SubqueryScan:
         """Generates the appropriate algebra fragment to include a subquery in the current algebra tree."""
-        subquery_parser = _ImplicitRelalgParser(
-            subquery, provided_base_tables=self._base_table_fragments
-        )
+        subquery_parser = self._nested_parser(subquery)
         subquery_root = subquery_parser.generate_relnode()
-        self._required_columns = util.dicts.merge(
-            subquery_parser._required_columns, self._required_columns
-        )
+        for table, columns in subquery_parser._required_columns.items():
+            self._required_columns[table] |= columns
         # We do not include the subquery base tables in our _base_table_fragments since the subquery base tables are already
         # processed completely and this would contradict the interpretation of the _base_table_fragments in
         # _generate_initial_join_order()
-- 
2.43.0


From 208ed2c3997616afeb64c6f759a68f3579c0a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 084/108] fix: relational algebra: determine the evaluation
 phase of predicates by the tables they really combine, keep the complete
 HAVING condition

---
 postbound/relalg.py | 76 ++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index baa5222..b05a401 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -39,7 +39,7 @@ import enum
 import functools
 import operator
 import typing
-from collections.abc import Generator, Iterable, Sequence
+from collections.abc import Collection, Generator, Iterable, Sequence
 from typing import Optional
 
 from . import transform, util
@@ -3190,8 +3190,11 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
                 else EvaluationPhase.BaseTable
             )
             child_phase = max(
-                _determine_expression_phase(child_expr)
-                for child_expr in expression.iterchildren()
+                (
+                    _determine_expression_phase(child_expr)
+                    for child_expr in expression.iterchildren()
+                ),
+                default=own_phase,
             )
             return max(own_phase, child_phase)
         case SubqueryExpression():
@@ -3200,6 +3203,8 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
                 if len(expression.query.unbound_tables()) < 2
                 else EvaluationPhase.PostJoin
             )
+        case AbstractPredicate():
+            return _determine_predicate_phase(expression)
         case StarExpression() | StaticValueExpression():
             # TODO: should we rather raise an error in this case?
             return EvaluationPhase.BaseTable
@@ -3210,28 +3215,36 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
             raise ValueError(f"Unknown expression type: '{expression}'")
 
 
-def _determine_predicate_phase(predicate: AbstractPredicate) -> EvaluationPhase:
+def _determine_predicate_phase(
+    predicate: AbstractPredicate,
+    *,
+    outer_tables: Collection[TableReference] = frozenset(),
+) -> EvaluationPhase:
     """Calculates the evaluation phase during which a predicate can be evaluated at the earliest.
 
+    Parameters
+    ----------
+    predicate : AbstractPredicate
+        The predicate to check
+    outer_tables : Collection[TableReference], optional
+        Tables that are supplied by an outer query. Predicates that are only concerned with such tables cannot be evaluated on
+        any of the base tables.
+
     See Also
     --------
     _determine_expression_phase
     """
-    nested_subqueries = predicate.accept_visitor(_SubqueryDetector())
-    subquery_tables = len(
-        util.set_union(
-            subquery.bound_tables() for subquery in nested_subqueries.subqueries
-        )
+    nested_subqueries = predicate.accept_visitor(_SubqueryDetector()).subqueries
+    subquery_tables = util.set_union(
+        subquery.bound_tables() for subquery in nested_subqueries
     )
-    n_tables = len(predicate.tables()) - subquery_tables
-    if n_tables == 1:
-        # It could actually be that the number of tables is negative. E.g. HAVING count(*) < (SELECT min(r_a) FROM R)
-        # Therefore, we only check for exactly 1 table
+    tables = predicate.tables() - subquery_tables
+    if len(tables) == 1 and not tables <= set(outer_tables):
         return EvaluationPhase.BaseTable
-    if subquery_tables:
+    if nested_subqueries or not tables or len(tables) == 1:
         # If there are subqueries and multiple base tables present, we encoutered a predicate like
         # R.a = (SELECT min(S.b) FROM S WHERE S.b = T.c) with a dependent subquery on T. By default, such predicates should be
-        # executed after the join phase.
+        # executed after the join phase. The same applies to predicates that do not belong to any of our tables.
         return EvaluationPhase.PostJoin
 
     expression_phase = max(
@@ -3242,15 +3255,22 @@ def _determine_predicate_phase(predicate: AbstractPredicate) -> EvaluationPhase:
     if expression_phase > EvaluationPhase.Join:
         return expression_phase
 
+    # If the arguments combine columns from different tables, the predicate has to be evaluated on the joined relation, e.g.
+    # for R.a + S.b < 42
     return (
         EvaluationPhase.Join
         if isinstance(predicate, BinaryPredicate)
+        and len(tables) == 2
+        and all(len(arg.tables()) == 1 for arg in predicate.iterexpressions())
         else EvaluationPhase.PostJoin
     )
 
 
 def _filter_eval_phase(
-    predicate: AbstractPredicate, expected_eval_phase: EvaluationPhase
+    predicate: AbstractPredicate,
+    expected_eval_phase: EvaluationPhase,
+    *,
+    outer_tables: Collection[TableReference] = frozenset(),
 ) -> Optional[AbstractPredicate]:
     """Provides all parts of predicate that can be evaluated during a specific logical query execution phase.
 
@@ -3268,6 +3288,8 @@ def _filter_eval_phase(
         The predicate to check
     expected_eval_phase : EvaluationPhase
         The desired evaluation phase
+    outer_tables : Collection[TableReference], optional
+        Tables that are supplied by an outer query.
 
     Returns
     -------
@@ -3278,23 +3300,20 @@ def _filter_eval_phase(
     --------
     _determine_predicate_phase
     """
-    eval_phase = _determine_predicate_phase(predicate)
-    if eval_phase < expected_eval_phase:
-        return None
-
     if (
         isinstance(predicate, CompoundPredicate)
         and predicate.operation == CompoundOperator.And
     ):
-        child_predicates = [
-            child
+        matching_children = [
+            _filter_eval_phase(child, expected_eval_phase, outer_tables=outer_tables)
             for child in predicate.children
-            if _determine_predicate_phase(child) == expected_eval_phase
         ]
+        child_predicates = [child for child in matching_children if child is not None]
         return (
             CompoundPredicate.create_and(child_predicates) if child_predicates else None
         )
 
+    eval_phase = _determine_predicate_phase(predicate, outer_tables=outer_tables)
     return predicate if eval_phase == expected_eval_phase else None
 
 
@@ -3411,10 +3430,9 @@ class _ImplicitRelalgParser:
 
         final_fragment = self._add_aggregation(final_fragment)
         if self._query.having_clause:
-            final_fragment = self._add_predicate(
-                self._query.having_clause.condition,
-                input_node=final_fragment,
-                eval_phase=EvaluationPhase.PostAggregation,
+            # the groups are only available now, so the entire condition has to be evaluated here
+            final_fragment = self._convert_predicate(
+                self._query.having_clause.condition, input_node=final_fragment
             )
 
         if self._query.orderby_clause:
@@ -3707,7 +3725,9 @@ class _ImplicitRelalgParser:
         --------
         _filter_eval_phase
         """
-        predicate = _filter_eval_phase(predicate, eval_phase)
+        predicate = _filter_eval_phase(
+            predicate, eval_phase, outer_tables=self._provided_base_tables.keys()
+        )
         if predicate is None:
             return input_node
 
-- 
2.43.0


From a42751ed042554e0dd554250d62f0639bd2ca27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 085/108] fix: relational algebra: compute grouping and
 ordering expressions, do not decompose expressions that are already provided

---
 postbound/relalg.py | 103 ++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 37 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index b05a401..7737f3e 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3138,7 +3138,10 @@ class _BaseTableLookup(
 
 
 def _collect_all_expressions(
-    expression: SqlExpression, *, traverse_aggregations: bool = False
+    expression: SqlExpression,
+    *,
+    traverse_aggregations: bool = False,
+    available: Collection[SqlExpression] = frozenset(),
 ) -> frozenset[SqlExpression]:
     """Provides all expressions in a specific expression tree, including the root expression.
 
@@ -3148,12 +3151,17 @@ def _collect_all_expressions(
         The root expression
     traverse_aggregations : bool, optional
         Whether expressions nested in aggregation functions should be included. Disabled by default.
+    available : Collection[SqlExpression], optional
+        Expressions that are already available and do not have to be computed. Neither these expressions, nor their children
+        are provided.
 
     Returns
     -------
     frozenset[SqlExpression]
         The expression as well as all child expressions, including deeply nested children.
     """
+    if expression in available:
+        return frozenset()
     if (
         not traverse_aggregations
         and isinstance(expression, FunctionExpression)
@@ -3161,7 +3169,12 @@ def _collect_all_expressions(
     ):
         return frozenset({expression})
     child_expressions = util.set_union(
-        _collect_all_expressions(child_expr) for child_expr in expression.iterchildren()
+        _collect_all_expressions(
+            child_expr,
+            traverse_aggregations=traverse_aggregations,
+            available=available,
+        )
+        for child_expr in expression.iterchildren()
     )
     all_expressions = frozenset({expression} | child_expressions)
     return frozenset(
@@ -3612,26 +3625,30 @@ class _ImplicitRelalgParser:
                 having_expr.accept_visitor(aggregation_collector)
                 for having_expr in self._query.having_clause.iterexpressions()
             )
+        if self._query.orderby_clause:
+            aggregation_functions |= util.set_union(
+                order_expr.accept_visitor(aggregation_collector)
+                for order_expr in self._query.orderby_clause.iterexpressions()
+            )
         if not self._query.groupby_clause and not aggregation_functions:
             return input_node
 
-        aggregation_arguments: set[SqlExpression] = set()
+        group_cols = (
+            self._query.groupby_clause.group_columns
+            if self._query.groupby_clause
+            else []
+        )
+        grouping_input: list[SqlExpression] = list(group_cols)
         for agg_func in aggregation_functions:
-            aggregation_arguments |= util.set_union(
-                _collect_all_expressions(arg, traverse_aggregations=True)
-                for arg in agg_func.arguments
-            )
-        missing_expressions = aggregation_arguments - input_node.provided_expressions()
+            grouping_input.extend(agg_func.arguments)
+        missing_expressions = self._collect_missing_expressions(
+            grouping_input, input_node, traverse_aggregations=True
+        )
         if missing_expressions:
             input_node = Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
             )
 
-        group_cols = (
-            self._query.groupby_clause.group_columns
-            if self._query.groupby_clause
-            else []
-        )
         aggregates: dict[frozenset[SqlExpression], set[FunctionExpression]] = (
             collections.defaultdict(set)
         )
@@ -3665,11 +3682,10 @@ class _ImplicitRelalgParser:
         # TODO: Sorting, Duplicate elimination, limit
         if self._query.select_clause.is_star():
             return input_node
-        required_expressions = util.set_union(
-            _collect_all_expressions(target.expression)
-            for target in self._query.select_clause.targets
+        missing_expressions = self._collect_missing_expressions(
+            [target.expression for target in self._query.select_clause.targets],
+            input_node,
         )
-        missing_expressions = required_expressions - input_node.provided_expressions()
         final_node = (
             Map(input_node, _generate_expression_mapping_dict(missing_expressions))
             if missing_expressions
@@ -3981,11 +3997,9 @@ class _ImplicitRelalgParser:
         }
         if len(table_fragments) == 1:
             input_node = util.simplify(table_fragments)
-            provided_expressions = self._collect_provided_expressions(input_node)
-            required_expressions = util.set_union(
-                _collect_all_expressions(e) for e in predicate.iterexpressions()
+            missing_expressions = self._collect_missing_expressions(
+                predicate.iterexpressions(), input_node
             )
-            missing_expressions = required_expressions - provided_expressions
             if missing_expressions:
                 final_fragment = Map(
                     input_node, _generate_expression_mapping_dict(missing_expressions)
@@ -3999,9 +4013,6 @@ class _ImplicitRelalgParser:
                 f"'{predicate}', but found {table_fragments}"
             )
 
-        required_expressions = util.set_union(
-            _collect_all_expressions(e) for e in predicate.iterexpressions()
-        )
         if isinstance(predicate, BinaryPredicate):
             first_input, second_input = table_fragments
             first_arg, second_arg = predicate.first_argument, predicate.second_argument
@@ -4019,10 +4030,9 @@ class _ImplicitRelalgParser:
             left_input = self._add_expression(first_arg, input_node=left_input)
             right_input = self._add_expression(second_arg, input_node=right_input)
 
-            provided_expressions = self._collect_provided_expressions(
-                left_input, right_input
+            missing_expressions = self._collect_missing_expressions(
+                predicate.iterexpressions(), left_input, right_input
             )
-            missing_expressions = required_expressions - provided_expressions
             left_mappings: list[SqlExpression] = []
             right_mappings: list[SqlExpression] = []
             for missing_expr in missing_expressions:
@@ -4248,12 +4258,9 @@ class _ImplicitRelalgParser:
         RelNode
             An algebra fragment
         """
-        provided_expressions = self._collect_provided_expressions(input_node)
-        required_expressions = util.set_union(
-            _collect_all_expressions(expression)
-            for expression in predicate.iterexpressions()
+        missing_expressions = self._collect_missing_expressions(
+            predicate.iterexpressions(), input_node
         )
-        missing_expressions = required_expressions - provided_expressions
         if missing_expressions:
             return Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
@@ -4279,18 +4286,40 @@ class _ImplicitRelalgParser:
         RelNode
             An algebra fragment
         """
-        provided_expressions = self._collect_provided_expressions(input_node)
-        required_expressions = util.set_union(
-            _collect_all_expressions(child_expr)
-            for child_expr in expression.iterchildren()
+        for child_expr in expression.iterchildren():
+            if child_expr.accept_visitor(_SubqueryDetector()):
+                input_node = self._add_expression(child_expr, input_node=input_node)
+        missing_expressions = self._collect_missing_expressions(
+            [expression], input_node
         )
-        missing_expressions = required_expressions - provided_expressions
         if missing_expressions:
             return Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
             )
         return input_node
 
+    def _collect_missing_expressions(
+        self,
+        expressions: Iterable[SqlExpression],
+        *nodes: RelNode,
+        traverse_aggregations: bool = False,
+    ) -> frozenset[SqlExpression]:
+        """Provides all expressions that are required to compute some other expressions but not provided by any of the nodes.
+
+        See Also
+        --------
+        _collect_all_expressions
+        """
+        provided_expressions = self._collect_provided_expressions(*nodes)
+        return util.set_union(
+            _collect_all_expressions(
+                expression,
+                traverse_aggregations=traverse_aggregations,
+                available=provided_expressions,
+            )
+            for expression in expressions
+        )
+
     def _collect_provided_expressions(self, *nodes: RelNode) -> set[SqlExpression]:
         """Collects all expressions that are provided by a set of algebra nodes."""
         outer_table_expressions = util.set_union(
-- 
2.43.0


From 1fc8e3b78a71f783c4c12c51a9fc71f12ad1a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 086/108] fix: relational algebra: DISTINCT, disjunctions and
 negations with subqueries, expressions that operators do not provide

---
 postbound/relalg.py | 152 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 129 insertions(+), 23 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 7737f3e..6f26722 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -761,6 +761,13 @@ class Union(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        # The output contains tuples from both inputs. If there are no common expressions, both inputs are merged based on the
+        # positions of their columns. In this case, the left input determines the names.
+        left_expressions = self._left_input.provided_expressions()
+        common = left_expressions & self._right_input.provided_expressions()
+        return frozenset(common or left_expressions)
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_union(self)
 
@@ -872,6 +879,9 @@ class Intersection(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._left_input.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_intersection(self)
 
@@ -984,6 +994,9 @@ class Difference(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._left_input, self._right_input]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._left_input.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_difference(self)
 
@@ -1108,7 +1121,7 @@ class Relation(RelNode):
         return super().tables() | {self._table}
 
     def provided_expressions(self) -> frozenset[SqlExpression]:
-        return super().provided_expressions() | self._provided_cols
+        return self._provided_cols
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_base_relation(self)
@@ -1368,6 +1381,9 @@ class Projection(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return frozenset(self._targets)
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_projection(self)
 
@@ -2169,6 +2185,9 @@ class SemiJoin(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._input_node.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_semijoin(self)
 
@@ -2327,6 +2346,9 @@ class AntiJoin(RelNode):
     def children(self) -> Sequence[RelNode]:
         return [self._input_node, self._subquery_node]
 
+    def provided_expressions(self) -> frozenset[SqlExpression]:
+        return self._input_node.provided_expressions()
+
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
         return visitor.visit_antijoin(self)
 
@@ -2991,13 +3013,13 @@ class _BaseTableLookup(
         self, predicate: CompoundPredicate, components: Sequence[AbstractPredicate]
     ) -> TableReference:
         base_tables = {child_pred.accept_visitor(self) for child_pred in components}
-        return self._fetch_valid_base_tables(base_tables)
+        return self._fetch_valid_base_tables(base_tables, accept_empty=True)
 
     def visit_or_predicate(
         self, predicate: CompoundPredicate, components: Sequence[AbstractPredicate]
     ) -> TableReference:
         base_tables = {child_pred.accept_visitor(self) for child_pred in components}
-        return self._fetch_valid_base_tables(base_tables)
+        return self._fetch_valid_base_tables(base_tables, accept_empty=True)
 
     def visit_not_predicate(
         self, predicate: CompoundPredicate, child_predicate: AbstractPredicate
@@ -3009,7 +3031,7 @@ class _BaseTableLookup(
             predicate.first_argument.accept_visitor(self),
             predicate.second_argument.accept_visitor(self),
         )
-        return self._fetch_valid_base_tables(set(base_tables))
+        return self._fetch_valid_base_tables(set(base_tables), accept_empty=True)
 
     def visit_between_predicate(self, predicate: BetweenPredicate) -> bool:
         base_tables = (
@@ -3017,12 +3039,12 @@ class _BaseTableLookup(
             predicate.interval_start.accept_visitor(self),
             predicate.interval_end.accept_visitor(self),
         )
-        return self._fetch_valid_base_tables(set(base_tables))
+        return self._fetch_valid_base_tables(set(base_tables), accept_empty=True)
 
     def visit_in_predicate(self, predicate: InPredicate) -> bool:
         base_tables = {predicate.column.accept_visitor(self)}
         base_tables |= {val.accept_visitor(self) for val in predicate.values}
-        return self._fetch_valid_base_tables(base_tables)
+        return self._fetch_valid_base_tables(base_tables, accept_empty=True)
 
     def visit_unary_predicate(self, predicate: UnaryPredicate) -> bool:
         return predicate.column.accept_visitor(self)
@@ -3052,7 +3074,7 @@ class _BaseTableLookup(
         base_tables = {
             child.accept_visitor(self) for child in expression.iterchildren()
         }
-        return self._fetch_valid_base_tables(base_tables)
+        return self._fetch_valid_base_tables(base_tables, accept_empty=True)
 
     def visit_star_expr(self, expression: StarExpression) -> Optional[TableReference]:
         return expression.from_table
@@ -3119,7 +3141,7 @@ class _BaseTableLookup(
         """
         if None in base_tables:
             base_tables.remove(None)
-        if len(base_tables) != 1 or (accept_empty and not base_tables):
+        if len(base_tables) > 1 or (not base_tables and not accept_empty):
             raise ValueError(
                 f"Expected exactly one base predicate but found {base_tables}"
             )
@@ -3330,6 +3352,13 @@ def _filter_eval_phase(
     return predicate if eval_phase == expected_eval_phase else None
 
 
+def _subquery_output(subquery: SqlQuery) -> SqlExpression:
+    """Provides the expression that is calculated by the only target of a subquery's *SELECT* clause."""
+    while isinstance(subquery, SetQuery):
+        subquery = subquery.left_query
+    return util.simplify(subquery.select_clause.targets).expression
+
+
 class _ImplicitRelalgParser:
     """Parser to generate a `RelNode` tree from `SqlQuery` instances.
 
@@ -3679,7 +3708,7 @@ class _ImplicitRelalgParser:
         RelNode
             The algebra tree, potentially expanded by some final nodes.
         """
-        # TODO: Sorting, Duplicate elimination, limit
+        # TODO: Sorting, limit
         if self._query.select_clause.is_star():
             return input_node
         missing_expressions = self._collect_missing_expressions(
@@ -3691,10 +3720,13 @@ class _ImplicitRelalgParser:
             if missing_expressions
             else input_node
         )
-        return Projection(
+        projection = Projection(
             final_node,
             [target.expression for target in self._query.select_clause.targets],
         )
+        if self._query.select_clause.is_distinct():
+            return DuplicateElimination(projection)
+        return projection
 
     def _add_ordering(
         self, ordering: Sequence[OrderByExpression], *, input_node: RelNode
@@ -3931,6 +3963,8 @@ class _ImplicitRelalgParser:
             raise ValueError(f"Unknown predicate type: '{predicate}'")
         match predicate.operation:
             case CompoundOperator.And | CompoundOperator.Or:
+                # for disjunctions, final_fragment contains all tuples that satisfy one of the predicates processed so far
+                matched: Optional[RelNode] = None
                 regular_predicates: list[AbstractPredicate] = []
                 subquery_predicates: list[AbstractPredicate] = []
                 for child_pred in predicate.iterchildren():
@@ -3946,16 +3980,28 @@ class _ImplicitRelalgParser:
                         simplified_composite, final_fragment
                     )
                     final_fragment = Selection(final_fragment, simplified_composite)
+                    matched = final_fragment
                 for subquery_pred in subquery_predicates:
                     if predicate.operation == CompoundOperator.And:
                         final_fragment = self._convert_predicate(
                             subquery_pred, input_node=final_fragment
                         )
                         continue
+                    # Tuples that already satisfy one of the other predicates must not be included a second time
+                    remaining = (
+                        Difference(input_node, matched)
+                        if matched is not None
+                        else input_node
+                    )
                     subquery_branch = self._convert_predicate(
-                        subquery_pred, input_node=input_node
+                        subquery_pred, input_node=remaining
+                    )
+                    matched = (
+                        Union(matched, subquery_branch)
+                        if matched is not None
+                        else subquery_branch
                     )
-                    final_fragment = Union(final_fragment, subquery_branch)
+                    final_fragment = matched
                 return final_fragment
 
             case CompoundOperator.Not:
@@ -3965,17 +4011,82 @@ class _ImplicitRelalgParser:
                     )
                     final_fragment = Selection(final_fragment, predicate)
                     return final_fragment
-                subquery_branch = self._convert_predicate(
-                    predicate.children, input_node=input_node
-                )
-                final_fragment = Difference(final_fragment, subquery_branch)
-                return final_fragment
+                return self._convert_negation(predicate, input_node=input_node)
 
             case _:
                 raise ValueError(
                     f"Unknown operation for composite predicate '{predicate}'"
                 )
 
+    def _convert_negation(
+        self, predicate: CompoundPredicate, *, input_node: RelNode
+    ) -> RelNode:
+        """Generates the appropriate operators for a *NOT* predicate that contains subqueries.
+
+        All fragments respect the three-valued logic of SQL, i.e. tuples for which the negated predicate evaluates to *NULL* do
+        not qualify.
+
+        See Also
+        --------
+        _ImplicitRelalgParser._convert_predicate
+        """
+        negated: AbstractPredicate = predicate.children
+        match negated:
+            case CompoundPredicate() if negated.operation == CompoundOperator.Not:
+                return self._convert_predicate(negated.children, input_node=input_node)
+
+            case CompoundPredicate():
+                inverse_operation = (
+                    CompoundOperator.Or
+                    if negated.operation == CompoundOperator.And
+                    else CompoundOperator.And
+                )
+                inverse_predicate = CompoundPredicate.create(
+                    inverse_operation,
+                    [CompoundPredicate.create_not(child) for child in negated.children],
+                )
+                return self._convert_predicate(inverse_predicate, input_node=input_node)
+
+            case UnaryPredicate():
+                return self._add_expression(
+                    negated.column, input_node=input_node, subquery_target="antijoin"
+                )
+
+            case InPredicate() if len(negated.values) == 1 and isinstance(
+                util.simplify(negated.values), SubqueryExpression
+            ):
+                # col NOT IN (SELECT ...) only holds if there is no matching tuple, and no comparison that evaluates to NULL
+                subquery: SubqueryExpression = util.simplify(negated.values)
+                subquery_column = _subquery_output(subquery.query)
+                final_fragment = self._add_expression(
+                    negated.column, input_node=input_node
+                )
+                null_value = StaticValueExpression.null()
+                anti_predicate = CompoundPredicate.create_or(
+                    [
+                        BinaryPredicate.equal(negated.column, subquery_column),
+                        BinaryPredicate(LogicalOperator.Is, negated.column, null_value),
+                        BinaryPredicate(
+                            LogicalOperator.Is, subquery_column, null_value
+                        ),
+                    ]
+                )
+                return AntiJoin(
+                    final_fragment, self._add_subquery(subquery.query), anti_predicate
+                )
+
+            case _:
+                # all subqueries must be scalar, i.e. they act like normal values
+                final_fragment = input_node
+                for expression in negated.iterexpressions():
+                    final_fragment = self._add_expression(
+                        expression, input_node=final_fragment
+                    )
+                final_fragment = self._ensure_predicate_applicability(
+                    predicate, final_fragment
+                )
+                return Selection(final_fragment, predicate)
+
     def _convert_join_predicate(self, predicate: AbstractPredicate) -> RelNode:
         """Generates the appropriate join nodes for a specific predicate.
 
@@ -4147,13 +4258,8 @@ class _ImplicitRelalgParser:
                     case "in" if expression.query.is_scalar():
                         return CrossProduct(input_node, subquery_root)
                     case "in" if not expression.query.is_scalar():
-                        unwrapped_scan = subquery_root.input_node
-                        assert (
-                            isinstance(unwrapped_scan, Projection)
-                            and len(unwrapped_scan.columns) == 1
-                        )
                         in_predicate = BinaryPredicate.equal(
-                            in_column, unwrapped_scan.columns[0]
+                            in_column, _subquery_output(expression.query)
                         )
                         return SemiJoin(input_node, subquery_root, in_predicate)
             case CastExpression() | FunctionExpression() | MathExpression():
-- 
2.43.0


From f0a5d464d83d98f6cb9f6dbf5d6739ae18a9f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 087/108] fix: relational algebra: ORDER BY without direction
 sorts ascendingly

---
 postbound/relalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 6f26722..a51ea5e 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3738,7 +3738,7 @@ class _ImplicitRelalgParser:
             final_fragment = self._add_expression(
                 order.column, input_node=final_fragment
             )
-            sorting.append((order.column, "asc" if order.ascending else "desc"))
+            sorting.append((order.column, "desc" if order.ascending is False else "asc"))
 
         final_fragment = Sort(final_fragment, sorting)
         return final_fragment
-- 
2.43.0


From 692f0b9dadbd78920956f5ce88a5468f1c78f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 088/108] fix: UES optimizer failed for single-table join
 components, columns without values, unknown estimates and joins between
 primary keys

---
 postbound/opt/ues.py | 45 ++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..fd6bd22 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -362,7 +362,8 @@ class MaxFrequencyStats(StatsContainer[MaxFrequency]):
         n_tuples = 1 if n_tuples is None else n_tuples
         n_distinct = self.database_stats.num_distinct(column)
         n_distinct = 1 if n_distinct is None else n_distinct
-        return n_tuples / n_distinct
+        # columns without any (non-NULL) values do not find any join partners
+        return n_tuples / n_distinct if n_distinct else 0
 
 
 class BaseTableEstimator(abc.ABC):
@@ -936,16 +937,18 @@ class UESSubqueryPolicy(BranchingPolicy):
         stats_container = self.stats_container
         for first_col, second_col in join.join_partners():
             first_tab, second_tab = first_col.table, second_col.table
+            # joins between two primary keys have two foreign key sides, but only one of them is the n:m join partner
+            joined_tables: list[TableReference] = []
             if join_graph.is_pk_fk_join(first_tab, second_tab):
-                joined_table = first_tab
-            elif join_graph.is_pk_fk_join(second_tab, first_tab):
-                joined_table = second_tab
-            else:
-                continue
+                joined_tables.append(first_tab)
+            if join_graph.is_pk_fk_join(second_tab, first_tab):
+                joined_tables.append(second_tab)
 
-            generate_subquery = (
+            generate_subquery = any(
                 stats_container.upper_bounds[joined_table]
                 < stats_container.base_table_estimates[joined_table]
+                for joined_table in joined_tables
+                if joined_table in stats_container.upper_bounds
             )
             if generate_subquery:
                 return True
@@ -1050,20 +1053,26 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         join_graph = JoinGraph(query, self.database.schema())
 
-        if len(query.tables()) == 2:
-            final_join_tree = self._binary_join_optimization(query, join_graph)
-        elif join_graph.contains_cross_products():
+        if join_graph.contains_cross_products():
             # cross-product query is reduced to multiple independent optimization passes
             optimized_components: list[LogicalJoinTree] = []
             for component in join_graph.join_components():
-                # FIXME: join components might consist of single tables!
+                if len(component) == 1:
+                    (table,) = component
+                    optimized_component = LogicalJoinTree.scan(
+                        table,
+                        annotation=self.stats_container.base_table_estimates[table],
+                    )
+                    optimized_components.append(optimized_component)
+                    continue
+
                 optimized_component = self._clone().optimize_join_order(component.query)
                 if not optimized_component:
                     raise JoinOrderOptimizationError(component.query)
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
@@ -1072,6 +1081,8 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 final_join_tree = final_join_tree.join_with(
                     remaining_join, annotation=output_cardinality
                 )
+        elif len(query.tables()) == 2:
+            final_join_tree = self._binary_join_optimization(query, join_graph)
         elif join_graph.contains_free_n_m_joins():
             final_join_tree = self._default_ues_optimizer(query, join_graph)
         else:
@@ -1151,7 +1162,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 candidate_min_bound = min([filter_estimate] + pk_fk_bounds)
                 self.stats_container.upper_bounds[candidate_table] = candidate_min_bound
 
-                if candidate_min_bound < lowest_bound:
+                if lowest_bound_table is None or candidate_min_bound < lowest_bound:
                     lowest_bound = candidate_min_bound
                     lowest_bound_table = candidate_table
             self._log_information(
@@ -1195,7 +1206,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                     candidate_join.join_condition, join_graph
                 )
                 bounds_log[candidate_join] = candidate_bound
-                if candidate_bound < lowest_bound:
+                if selected_candidate is None or candidate_bound < lowest_bound:
                     selected_candidate = candidate_join
                     lowest_bound = candidate_bound
             self._log_information(f".. n:m join bounds: {bounds_log}")
@@ -1329,7 +1340,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             current_bound = self.join_estimation.estimate_for(
                 candidate_join.join_condition, join_graph
             )
-            if current_bound < lowest_bound:
+            if lowest_bound_join is None or current_bound < lowest_bound:
                 lowest_bound = current_bound
                 lowest_bound_join = candidate_join
 
@@ -1353,7 +1364,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 current_bound = self.join_estimation.estimate_for(
                     candidate_join.join_condition, join_graph
                 )
-                if current_bound < lowest_bound:
+                if lowest_bound_join is None or current_bound < lowest_bound:
                     lowest_bound = current_bound
                     lowest_bound_join = candidate_join
 
@@ -1489,7 +1500,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             join_estimation=copy.copy(self.join_estimation),
             subquery_policy=copy.copy(self.subquery_policy),
             stats_container=copy.copy(self.stats_container),
+            pull_eager_pk_tables=self._pull_eager_pk_tables,
             database=self.database,
+            verbose=self._logging_enabled,
         )
 
     def _log_information(self, info: str) -> None:
-- 
2.43.0


From cc64faf7bad7725e0e848af96a16559404a89fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 089/108] fix: UES bounds under-estimated joins with previous
 intermediates and third-party columns

---
 postbound/opt/ues.py | 183 +++++++++++++++++++++++++++----------------
 1 file changed, 117 insertions(+), 66 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index fd6bd22..ccd6e9e 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -164,15 +164,15 @@ class StatsContainer(abc.ABC, Generic[StatsType]):
         joined_table: TableReference,
         join_condition: AbstractPredicate,
     ) -> None:
-        """Updates the `attribute_frequencies` according to a new n:m join.
+        """Updates the `attribute_frequencies` according to a new join.
 
         The update procedure distinguishes between two different types of column statistics and uses different
         (and statistics-dependent) update methods for each: partner columns and third-party columns.
 
-        Partner columns are those columns from the intermediate query result, that are directly involved in the join
-        predicate, i.e. they are a join partner for some column of the newly joined table. On the other hand, third
-        party columns are part of the intermediate result, but not directly involved in the join. In order to update
-        them, some sort of correlation info is usually required.
+        Partner columns are those columns that are directly involved in the join predicate. Third party columns are part of
+        one of the join inputs, but not directly involved in the join. In order to update them, some sort of correlation info
+        is usually required. Since each tuple of an input can find multiple join partners, the third party columns of both
+        inputs have to be updated.
 
         The precise update semantics depend on the specific statistic type. Hence, the updates are performed via abstract
         methods.
@@ -183,41 +183,49 @@ class StatsContainer(abc.ABC, Generic[StatsType]):
             A join order that indicates the last join that was performed. This is the join that is used to infer the necessary
             updates.
         joined_table : TableReference
-            The actual table that was joined. Remember that UES performs either primary key/foreign key joins, or joins with
-            exactly one n:m table join partner. In the first case, no frequency updates are necessary since cardinalities may
-            never increase when the foreign key is already part of an intermediate result. In the second case, there is exactly
-            one partner table that is denoted by this parameter.
+            The actual table that was joined. If the table was joined as part of a subquery, this is the table that links the
+            subquery to the former intermediate result.
         join_condition : AbstractPredicate
             The predicate that was used for the join. This is required to determine the columns that were directly involved in
             the join. These columns have to be updated in a different way compared to other columns in the intermediate result.
         """
-        partner_tables = join_tree.tables() - {joined_table}
-
-        third_party_columns: set[ColumnReference] = set()
-        for third_party_table in partner_tables:
-            potential_partners = partner_tables - {third_party_table}
-            join_pred = self.query.predicates().joins_between(
-                third_party_table, potential_partners
-            )
-            if not join_pred:
-                continue
-            third_party_columns |= join_pred.columns()
+        joined_tables = (
+            join_tree.inner_child.tables()
+            if joined_table in join_tree.inner_child.tables()
+            else join_tree.outer_child.tables()
+        )
+        partner_tables = join_tree.tables() - joined_tables
 
+        join_partners: list[tuple[ColumnReference, ColumnReference]] = []
         for col1, col2 in join_condition.join_partners():
             joined_column, partner_column = (
-                (col1, col2) if col1.table == joined_table else (col2, col1)
+                (col1, col2) if col1.table in joined_tables else (col2, col1)
             )
-            self._update_partner_column_frequency(joined_column, partner_column)
+            join_partners.append((joined_column, partner_column))
 
-        joined_columns_frequencies = {
-            joined_col: self.attribute_frequencies[joined_col]
-            for joined_col in join_condition.columns_of(joined_table)
-        }
-        lowest_joined_column_frequency = util.argmin(joined_columns_frequencies)
-        for third_party_column in third_party_columns:
-            self._update_third_party_column_frequency(
-                lowest_joined_column_frequency, third_party_column
-            )
+        lowest_joined_column_frequency = util.argmin(
+            {joined: self.attribute_frequencies[joined] for joined, _ in join_partners}
+        )
+        lowest_partner_column_frequency = util.argmin(
+            {
+                partner: self.attribute_frequencies[partner]
+                for _, partner in join_partners
+            }
+        )
+        partner_columns = util.set_union(set(pair) for pair in join_partners)
+        for third_party_column in set(self.attribute_frequencies) - partner_columns:
+            # third party columns have to be updated before the frequencies of the join columns change
+            if third_party_column.table in partner_tables:
+                self._update_third_party_column_frequency(
+                    lowest_joined_column_frequency, third_party_column
+                )
+            elif third_party_column.table in joined_tables:
+                self._update_third_party_column_frequency(
+                    lowest_partner_column_frequency, third_party_column
+                )
+
+        for joined_column, partner_column in join_partners:
+            self._update_partner_column_frequency(joined_column, partner_column)
 
     @abc.abstractmethod
     def describe(self) -> dict:
@@ -701,9 +709,13 @@ class UESBoundEstimator(JoinEstimator):
 
         for base_predicate in join_edge.base_predicates():
             first_col, second_col = util.simplify(base_predicate.join_partners())
-            if join_graph.is_pk_fk_join(first_col.table, second_col.table):
+            if join_graph.is_pk_fk_join(
+                first_col.table, second_col.table
+            ) and join_graph.is_free_table(second_col.table):
                 join_bound = self._estimate_pk_fk_join(first_col, second_col)
-            elif join_graph.is_pk_fk_join(second_col.table, first_col.table):
+            elif join_graph.is_pk_fk_join(
+                second_col.table, first_col.table
+            ) and join_graph.is_free_table(first_col.table):
                 join_bound = self._estimate_pk_fk_join(second_col, first_col)
             else:
                 join_bound = self._estimate_n_m_join(first_col, second_col)
@@ -742,7 +754,7 @@ class UESBoundEstimator(JoinEstimator):
             self.stats_container.base_table_estimates[pk_column.table]
         )
         fk_frequency = self.stats_container.attribute_frequencies[fk_column]
-        return math.ceil(fk_frequency * pk_cardinality)
+        return self._scale(pk_cardinality, fk_frequency)
 
     def _estimate_n_m_join(
         self, first_column: ColumnReference, second_column: ColumnReference
@@ -773,20 +785,37 @@ class UESBoundEstimator(JoinEstimator):
         ):
             return 0
 
-        first_distinct_vals = first_bound / first_freq
-        second_distinct_vals = second_bound / second_freq
-
-        n_m_bound = (
-            min(first_distinct_vals, second_distinct_vals) * first_freq * second_freq
+        # This is min(first_bound / first_freq, second_bound / second_freq) * first_freq * second_freq without rounding errors
+        return min(
+            self._scale(first_bound, second_freq), self._scale(second_bound, first_freq)
         )
-        return Cardinality(math.ceil(n_m_bound))
+
+    def _scale(self, cardinality: Cardinality, frequency: float) -> Cardinality:
+        """Calculates the maximum number of rows if each tuple finds a number of join partners.
+
+        Parameters
+        ----------
+        cardinality : Cardinality
+            The number of tuples
+        frequency : float
+            The maximum number of join partners of each tuple
+
+        Returns
+        -------
+        Cardinality
+            The upper bound
+        """
+        if not cardinality.is_valid():
+            return cardinality
+        return Cardinality(math.ceil(cardinality.value * frequency))
 
     def _fetch_bound(self, column: ColumnReference) -> Cardinality:
         """Provides the appropriate table bound (based on upper bound or base table estimate) for the given column.
 
         This is a utility method to work with the statistics container in a more convenient way, since the container can store
-        the table cardinality at two different places: as a base table estimate, or as a intermediate estimate for base tables
-        that can be filtered via a primary key/foreign key join.
+        the table cardinality at different places: as a base table estimate, as a intermediate estimate for base tables
+        that can be filtered via a primary key/foreign key join, or as the bound of the intermediate result that the table is
+        already part of.
 
         Parameters
         ----------
@@ -796,9 +825,18 @@ class UESBoundEstimator(JoinEstimator):
         Returns
         -------
         Cardinality
-            An upper bound on the cardinality of the table
+            An upper bound on the cardinality of the table, or of the largest intermediate result that contains the table
         """
         table = column.table
+        intermediates = {
+            join_tree: len(join_tree.tables())
+            for join_tree in self.stats_container.join_bounds()
+            if table in join_tree.tables()
+        }
+        if intermediates:
+            current_intermediate = util.argmax(intermediates)
+            return Cardinality(self.stats_container.upper_bounds[current_intermediate])
+
         card = (
             self.stats_container.upper_bounds[table]
             if table in self.stats_container.upper_bounds
@@ -1158,6 +1196,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                     for join_path in join_graph.available_pk_fk_joins_for(
                         candidate_table
                     )
+                    if join_graph.is_free_table(join_path.target_table)
                 ]
                 candidate_min_bound = min([filter_estimate] + pk_fk_bounds)
                 self.stats_container.upper_bounds[candidate_table] = candidate_min_bound
@@ -1171,28 +1210,21 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             )
 
             if join_tree.is_empty():
+                # the lowest bound already accounts for the primary key joins
+                start_card = self.stats_container.base_table_estimates[
+                    lowest_bound_table
+                ]
                 join_tree = LogicalJoinTree.scan(
-                    lowest_bound_table, annotation=lowest_bound
+                    lowest_bound_table, annotation=start_card
                 )
                 join_graph.mark_joined(lowest_bound_table)
-                self.stats_container.upper_bounds[join_tree] = lowest_bound
+                self.stats_container.upper_bounds[join_tree] = start_card
                 pk_joins = join_graph.available_deep_pk_join_paths_for(
                     lowest_bound_table, self._table_base_cardinality_ordering
                 )
-                for pk_join in pk_joins:
-                    target_table = pk_join.target_table
-                    base_cardinality = self.stats_container.base_table_estimates[
-                        target_table
-                    ]
-                    join_bound = self.join_estimation.estimate_for(
-                        pk_join.join_condition, join_graph
-                    )
-                    join_graph.mark_joined(target_table, pk_join.join_condition)
-                    join_tree = join_tree.join_with(
-                        pk_join.target_table,
-                        annotation=join_bound,
-                        partner_annotation=base_cardinality,
-                    )
+                join_tree = self._insert_pk_joins(
+                    query, pk_joins, join_tree, join_graph
+                )
                 self._log_optimization_progress(
                     "Initial table selection", lowest_bound_table, pk_joins
                 )
@@ -1237,9 +1269,12 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 subquery_join=create_subquery,
             )
             if create_subquery:
-                subquery_tree = JoinTree.scan(
+                subquery_tree = LogicalJoinTree.scan(
                     candidate_table, annotation=candidate_base_cardinality
                 )
+                self.stats_container.upper_bounds[subquery_tree] = (
+                    candidate_base_cardinality
+                )
                 join_graph.mark_joined(candidate_table)
                 subquery_tree = self._insert_pk_joins(
                     query, all_pk_joins, subquery_tree, join_graph
@@ -1247,25 +1282,34 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
                 join_tree = join_tree.join_with(subquery_tree, annotation=lowest_bound)
                 self.stats_container.upper_bounds[join_tree] = lowest_bound
+                self.stats_container.trigger_frequency_update(
+                    join_tree, candidate_table, selected_candidate.join_condition
+                )
 
             else:
+                # the primary key joins are executed after the n:m join and cannot reduce its size
+                self.stats_container.upper_bounds[candidate_table] = (
+                    candidate_base_cardinality
+                )
+                join_bound = self.join_estimation.estimate_for(
+                    selected_candidate.join_condition, join_graph
+                )
                 join_tree = join_tree.join_with(
                     candidate_table,
-                    annotation=lowest_bound,
+                    annotation=join_bound,
                     partner_annotation=candidate_base_cardinality,
                 )
                 join_graph.mark_joined(
                     candidate_table, selected_candidate.join_condition
                 )
-                self.stats_container.upper_bounds[join_tree] = lowest_bound
+                self.stats_container.upper_bounds[join_tree] = join_bound
+                self.stats_container.trigger_frequency_update(
+                    join_tree, candidate_table, selected_candidate.join_condition
+                )
                 join_tree = self._insert_pk_joins(
                     query, all_pk_joins, join_tree, join_graph
                 )
 
-            self.stats_container.trigger_frequency_update(
-                join_tree, candidate_table, selected_candidate.join_condition
-            )
-
         if join_graph.contains_free_tables():
             raise AssertionError("Join graph still has free tables remaining!")
         return join_tree
@@ -1347,6 +1391,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         start_table = lowest_bound_join.start_table
         start_card = self.stats_container.base_table_estimates[start_table]
         join_tree = LogicalJoinTree.scan(start_table, annotation=start_card)
+        self.stats_container.upper_bounds[join_tree] = start_card
         join_graph.mark_joined(start_table)
         join_tree = self._apply_pk_fk_join(
             query,
@@ -1441,6 +1486,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         )
         join_graph.mark_joined(target_table, pk_fk_join.join_condition)
         self.stats_container.upper_bounds[updated_join_tree] = join_bound
+        self.stats_container.trigger_frequency_update(
+            updated_join_tree, target_table, pk_fk_join.join_condition
+        )
         return updated_join_tree
 
     def _insert_pk_joins(
@@ -1485,6 +1533,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             )
             join_graph.mark_joined(pk_table, pk_join.join_condition)
             self.stats_container.upper_bounds[join_tree] = pk_join_bound
+            self.stats_container.trigger_frequency_update(
+                join_tree, pk_table, pk_join.join_condition
+            )
         return join_tree
 
     def _clone(self) -> UESJoinOrderOptimizer:
-- 
2.43.0


From 8db92bbf62f0fcf9128091538c4da540870ca29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:00 +0000
Subject: [PATCH 090/108] fix: TONIC: load models from JSON

---
 postbound/opt/tonic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..02eae6a 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1042,7 +1042,7 @@ def _load_qeps_id_from_json(json_data: dict) -> QepsIdentifier:
     tables = [
         parser.load_table_json(json_table) for json_table in json_data.get("tables", [])
     ]
-    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"), {})
+    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"))
     return QepsIdentifier(tables, filter_pred)
 
 
@@ -1088,20 +1088,20 @@ def _load_qeps_from_json(
     }
     subquery = (
         _load_qeps_from_json(json_data["subquery"], None, None, filter_aware, gamma)
-        if "subquery" in json_data
+        if json_data.get("subquery")
         else None
     )
     children: dict[QepsIdentifier, QEPsNode] = {}
     for child_json in json_data.get("children", []):
         child_id = _load_qeps_id_from_json(child_json["identifier"])
         child_node = _load_qeps_from_json(
-            json_data["node"], child_id, node, filter_aware, gamma
+            child_json["node"], child_id, node, filter_aware, gamma
         )
         children[child_id] = child_node
 
-    node.operator_costs = cost_info
+    node.operator_costs.update(cost_info)
     node._subquery_root = subquery
-    node.child_nodes = children
+    node.child_nodes.update(children)
     return node
 
 
-- 
2.43.0


From 2ffe8c1c4345e144414560804b1c8196d6bd7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 091/108] fix: TONIC: explore costs without a limit and for
 arbitrary join orders

---
 postbound/opt/tonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 02eae6a..da13ec2 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1437,7 +1437,7 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
         allowed_operators = frozenset(allowed_operators & supported_operators)
 
         unknown_costs = {
-            intermediate.tables(): allowed_operators
+            frozenset(intermediate.tables()): allowed_operators
             for intermediate in join_order.iterjoins()
         }
         total_unknown_combinations = math.prod(
@@ -1448,7 +1448,8 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
             _sample_cost_estimates(
                 query, join_order, unknown_costs, max_combinations, self._db
             )
-            if total_unknown_combinations > max_combinations
+            if max_combinations is not None
+            and total_unknown_combinations > max_combinations
             else _generate_all_cost_estimates(
                 query, join_order, unknown_costs, self._db
             )
-- 
2.43.0


From 5bb9790ed3ea0a8acb179987586c12088acad557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:12 +0000
Subject: [PATCH 092/108] fix: TONIC: filter predicates of tables are
 identified independent of their order

---
 postbound/opt/tonic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index da13ec2..3be00e0 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -149,6 +149,8 @@ def _normalize_filter_predicate(
 ) -> Optional[qal.AbstractPredicate]:
     """Removes all alias information from a specific set of tables in a predicate.
 
+    Conjunctions are brought into a canonical order, such that equivalent filters always lead to the same predicate.
+
     Parameters
     ----------
     tables : TableReference | Iterable[TableReference]
@@ -172,7 +174,16 @@ def _normalize_filter_predicate(
         for col in filter_predicate.columns()
         if col.table in renamed_tables
     }
-    return transform.rename_columns_in_predicate(filter_predicate, renamed_columns)
+    normalized = transform.rename_columns_in_predicate(
+        filter_predicate, renamed_columns
+    )
+    if (
+        isinstance(normalized, qal.CompoundPredicate)
+        and normalized.operation == qal.CompoundOperator.And
+    ):
+        # filter predicates are collected in sets, the order of the conjunction is therefore arbitrary
+        return qal.CompoundPredicate.create_and(sorted(normalized.children, key=str))
+    return normalized
 
 
 def _tables_in_qeps_path(
-- 
2.43.0


From cf01d548528c4b66be5fde811bbac4775df6b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 093/108] fix: TONIC: learn, recommend and detect unknown costs
 for the same join paths, including the final join and aliased tables

---
 postbound/opt/tonic.py | 177 ++++++++++++++++++++++++++++++++---------
 1 file changed, 140 insertions(+), 37 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 3be00e0..f0aa2d0 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -88,6 +88,83 @@ def _right_query_plan_child(node: QueryPlan) -> QueryPlan:
     return node.inner_child
 
 
+def _skip_auxiliary_nodes(node: QueryPlan) -> QueryPlan:
+    """Provides the first scan or join that can be reached from a plan node.
+
+    Parameters
+    ----------
+    node : QueryPlan
+        The node from which the traversal should start
+
+    Returns
+    -------
+    QueryPlan
+        The scan or join node. This can be the initial node itself.
+    """
+    while not node.is_scan() and not node.is_join():
+        assert node.input_node is not None
+        node = node.input_node
+    return node
+
+
+def _join_depth(node: QueryPlan | JoinTree) -> int:
+    """Calculates the number of joins on the longest path from a node to its leaves.
+
+    Since auxiliary nodes (such as sorts) are ignored, query plans and their join trees have the same join depth.
+
+    Parameters
+    ----------
+    node : QueryPlan | JoinTree
+        The node to analyze
+
+    Returns
+    -------
+    int
+        The depth. Scans have a depth of 0.
+    """
+    if isinstance(node, QueryPlan):
+        node = _skip_auxiliary_nodes(node)
+    if node.is_scan():
+        return 0
+    return 1 + max(_join_depth(node.outer_child), _join_depth(node.inner_child))
+
+
+def _joins_intermediates(node: QueryPlan | JoinTree) -> bool:
+    """Checks, whether a specific join node combines the results of two other joins.
+
+    Parameters
+    ----------
+    node : QueryPlan | JoinTree
+        The join node to check
+
+    Returns
+    -------
+    bool
+        Whether this specific join introduces a branch. Branches further down in the tree do not matter.
+    """
+    return _join_depth(node.outer_child) > 0 and _join_depth(node.inner_child) > 0
+
+
+def _subquery_branch(node: JoinTree) -> JoinTree:
+    """Provides the branch of a join node that is not part of its deepest join path.
+
+    Parameters
+    ----------
+    node : JoinTree
+        The join node
+
+    Returns
+    -------
+    JoinTree
+        The input that is not traversed by `_iterate_join_tree`.
+    """
+    return (
+        node.inner_child
+        if _join_depth(node.inner_child) < _join_depth(node.outer_child)
+        else node.outer_child
+    )
+
+
 def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     """Provides all joins along the deepest join path in the query plan.
 
@@ -112,7 +189,7 @@ def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     )
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_query_plan(right_child)) + [current_node]
@@ -137,7 +214,7 @@ def _iterate_join_tree(current_node: JoinTree) -> Sequence[JoinTree]:
     left_child, right_child = current_node.outer_child, current_node.inner_child
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_join_tree(right_child)) + [current_node]
@@ -201,7 +278,7 @@ def _tables_in_qeps_path(
     frozenset[TableReference]
         All tables in the path
     """
-    return util.set_union(identifier.tables() for identifier in qeps_path)
+    return frozenset(util.set_union(identifier.tables for identifier in qeps_path))
 
 
 class QepsIdentifier:
@@ -466,21 +543,11 @@ class QEPsNode:
             return
 
         next_join, *remaining_joins = join_order
-        recommendation = self.current_recommendation()
-        if recommendation:
-            current_assignment.set_join_operator(
-                JoinOperatorAssignment(recommendation, self.tables())
-            )
-
-        if next_join.is_bushy():
-            subquery_child = (
-                next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
-                else next_join.inner_child
-            )
+        if _joins_intermediates(next_join):
+            subquery_child = _subquery_branch(next_join)
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._recommend_operator_for(next_join, current_assignment)
             qeps_subquery_node.subquery_root.recommend_operators(
                 query, _iterate_join_tree(subquery_child), current_assignment
             )
@@ -514,11 +581,12 @@ class QEPsNode:
             next_table = (
                 next_join.inner_child.base_table
                 if next_join.inner_child.is_scan()
-                else next_join.inner_child.outer_child.base_table
+                else next_join.outer_child.base_table
             )
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._recommend_operator_for(next_join, current_assignment)
         qeps_child_node.recommend_operators(query, remaining_joins, current_assignment)
 
     def integrate_costs(
@@ -562,17 +630,18 @@ class QEPsNode:
             return
 
         next_node, *remaining_nodes = query_plan
-        if not next_node.is_join:
+        if not next_node.is_join():
             self.integrate_costs(query, remaining_nodes)
+            return
 
         first_child, second_child = (
             _left_query_plan_child(next_node),
             _right_query_plan_child(next_node),
         )
-        if next_node.is_bushy():
+        if _joins_intermediates(next_node):
             first_child, second_child = (
                 (second_child, first_child)
-                if second_child.plan_depth() < first_child.plan_depth()
+                if _join_depth(second_child) < _join_depth(first_child)
                 else (first_child, second_child)
             )
             qeps_subquery_id = QepsIdentifier(first_child.tables())
@@ -643,26 +712,14 @@ class QEPsNode:
         if not join_order:
             return
 
-        if not self.is_root_node() and not self._parent.is_root_node():
-            own_unknown_ops = frozenset(
-                [
-                    operator
-                    for operator in allowed_operators
-                    if operator not in self.operator_costs
-                ]
-            )
-            unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
-
         next_join, *remaining_joins = join_order
-        if next_join.is_bushy():
-            subquery_child = (
-                next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
-                else next_join.inner_child
-            )
+        if _joins_intermediates(next_join):
+            subquery_child = _subquery_branch(next_join)
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
             qeps_subquery_node = self.child_nodes[qeps_subquery_id]
+            qeps_subquery_node._detect_unknown_costs_for(
+                next_join, allowed_operators, unknown_ops
+            )
             qeps_subquery_node.subquery_root.detect_unknown_costs(
                 query,
                 _iterate_join_tree(subquery_child),
@@ -708,6 +765,9 @@ class QEPsNode:
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
+        qeps_child_node._detect_unknown_costs_for(
+            next_join, allowed_operators, unknown_ops
+        )
         qeps_child_node.detect_unknown_costs(
             query, remaining_joins, allowed_operators, unknown_ops
         )
@@ -786,6 +846,49 @@ class QEPsNode:
         inspect_entries = [cost_str, subquery_str, child_str]
         return "\n".join(entry for entry in inspect_entries if entry)
 
+    def _recommend_operator_for(
+        self, join: JoinTree, assignment: PhysicalOperatorAssignment
+    ) -> None:
+        """Adds the best operator of this node to an assignment, if there is one.
+
+        Parameters
+        ----------
+        join : JoinTree
+            The join that corresponds to this node. Its tables are those of the actual query, including all aliases.
+        assignment : PhysicalOperatorAssignment
+            The assignment that should be extended
+        """
+        recommendation = self.current_recommendation()
+        if recommendation:
+            assignment.set_join_operator(
+                JoinOperatorAssignment(recommendation, join.tables())
+            )
+
+    def _detect_unknown_costs_for(
+        self,
+        join: JoinTree,
+        allowed_operators: frozenset[JoinOperator],
+        unknown_ops: dict[frozenset[TableReference], frozenset[JoinOperator]],
+    ) -> None:
+        """Collects the operators that do not have cost information at this node.
+
+        Parameters
+        ----------
+        join : JoinTree
+            The join that corresponds to this node. Its tables are those of the actual query, including all aliases.
+        allowed_operators : frozenset[JoinOperator]
+            Operators for which cost information should exist
+        unknown_ops : dict[frozenset[TableReference], frozenset[JoinOperator]]
+            The unknown operators that have been detected so far
+        """
+        own_unknown_ops = frozenset(
+            operator
+            for operator in allowed_operators
+            if operator not in self.operator_costs
+        )
+        if own_unknown_ops:
+            unknown_ops[frozenset(join.tables())] = own_unknown_ops
+
     def _init_qeps(self, identifier: QepsIdentifier) -> QEPsNode:
         """Generates a new QEP-S node with a specific identifier.
 
-- 
2.43.0


From 4dc4771785330d12767e63e6271fc5533a597e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:08 +0000
Subject: [PATCH 094/108] fix: WorkloadShifter: random removal deleted all rows
 of tables with key sample_id; fractional marker shares

---
 postbound/postgres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 8eedbd4..31aca93 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4681,7 +4681,8 @@ class WorkloadShifter:
                                                LIMIT {cnt}
                                            )
                                            DELETE FROM {table}
-                                           WHERE EXISTS (SELECT 1 FROM delete_samples WHERE sample_id = {col})
+                                           WHERE EXISTS (SELECT 1 FROM delete_samples
+                                                         WHERE delete_samples.sample_id = {table}.{col})
                                            """)
         removal_query = removal_template.format(
             table=table_name, col=pk_column.name, cnt=n_rows
@@ -4822,7 +4823,7 @@ class WorkloadShifter:
                                                   {marker_column} {target_column_type}
                                               );
                                               """)
-        marker_pct = round(marker_pct * 100)
+        marker_pct = marker_pct * 100
         marker_inflate_query = textwrap.dedent(f"""
                                                INSERT INTO {marker_table}({marker_column})
                                                SELECT {target_column}
-- 
2.43.0


From cf45f4a73ca7971d168be78ab5b6853330533315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:11 +0000
Subject: [PATCH 095/108] fix: rename tables in queries with table functions

---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index dab15b0..7f9d357 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2347,7 +2347,7 @@ class _TableReferenceRenamer(
                 renamed_alias = self._rename_table(alias)
                 return ValuesTableSource(rows, alias=renamed_alias, columns=columns)
 
-            case FunctionTableSource(function, alias):
+            case FunctionTableSource(function, target_table=alias):
                 renamed_function = function.accept_visitor(self)
                 renamed_alias = self._rename_table(alias) if alias else ""
                 return FunctionTableSource(renamed_function, alias=renamed_alias)
-- 
2.43.0


From 60c662aa0b52ac464d39f00974e7982667d3072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 096/108] fix: plan analysis: join depth, bottom-up similarity,
 plan comparison, plan space bound, text diff and star query cardinalities

---
 postbound/opt/_analysis.py | 43 ++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index ace8cbd..d00f5c0 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import collections
+import itertools
 import math
 from collections.abc import Collection
 from dataclasses import dataclass
@@ -60,9 +61,10 @@ def possible_plans_bound(
     """
     n_tables = len(query.tables())
 
-    join_orders = util.stats.catalan_number(n_tables)
-    joins = (n_tables - 1) * len(join_operators)
-    scans = n_tables * len(scan_operators)
+    # all binary trees with n leaves, for all assignments of tables to leaves
+    join_orders = util.stats.catalan_number(n_tables - 1) * math.factorial(n_tables)
+    joins = len(join_operators) ** (n_tables - 1)
+    scans = len(scan_operators) ** n_tables
 
     return join_orders * joins * scans
 
@@ -88,7 +90,11 @@ def actual_plan_cost(
     """
     if not analyze_plan.is_analyze():
         raise ValueError("The provided plan is not an ANALYZE plan")
-    database = database if database is not None else DatabasePool().get_instance()
+    database = (
+        database
+        if database is not None
+        else DatabasePool.get_instance().current_database()
+    )
     hinted_query = database.hinting().generate_hints(
         query, analyze_plan.with_actual_card()
     )
@@ -117,12 +123,12 @@ def text_diff(left: str, right: str, *, sep: str = " | ") -> str:
     left_lines = left.splitlines()
     right_lines = right.splitlines()
 
-    max_left_len = max(len(line) for line in left_lines)
-    left_lines_padded = [line.ljust(max_left_len) for line in left_lines]
-
+    max_left_len = max((len(line) for line in left_lines), default=0)
     merged_lines = [
-        f"{left_line}{sep}{right_line}"
-        for left_line, right_line in zip(left_lines_padded, right_lines)
+        f"{left_line.ljust(max_left_len)}{sep}{right_line}"
+        for left_line, right_line in itertools.zip_longest(
+            left_lines, right_lines, fillvalue=""
+        )
     ]
     return "\n".join(merged_lines)
 
@@ -192,7 +198,7 @@ def star_query_cardinality(
     if query.predicates().filters_for(fact_table):
         filter_clause = Where(query.predicates().filters_for(fact_table))
         id_vals_query = transform.add_clause(id_vals_query, filter_clause)
-    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query)
+    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query, raw=True)
 
     base_query_fragments: dict[AbstractPredicate, SqlQuery] = {}
     for join_pred in query.predicates().joins_for(fact_table):
@@ -337,8 +343,10 @@ def jointree_similarity_bottomup(a: JoinTree, b: JoinTree) -> float:
     -----
     TODO: add discussion of the algorithm
     """
-    a_subtrees = {join.tables() for join in a.iterjoins()}
-    b_subtrees = {join.tables() for join in b.iterjoins()}
+    a_subtrees = {frozenset(join.tables()) for join in a.iterjoins()}
+    b_subtrees = {frozenset(join.tables()) for join in b.iterjoins()}
+    if not a_subtrees and not b_subtrees:
+        return 1 if a.tables() == b.tables() else 0
     return util.jaccard(a_subtrees, b_subtrees)
 
 
@@ -403,7 +411,7 @@ def _traverse_join_tree_depth(
     if current_node.is_scan():
         return _DepthState(1, current_depth.depths | {current_node.base_table: 1})
 
-    if current_node.is_join():
+    if not current_node.is_join():
         raise TypeError("Unknown current node type: " + str(current_node))
 
     inner_child, outer_child = current_node.inner_child, current_node.outer_child
@@ -423,7 +431,7 @@ def _traverse_join_tree_depth(
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
         updated_depth = inner_depth.current_level + 1
         return _DepthState(
-            updated_depth, inner_depth.depths | {outer_child.table: updated_depth}
+            updated_depth, inner_depth.depths | {outer_child.base_table: updated_depth}
         )
     else:
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
@@ -510,8 +518,7 @@ class PlanChangeEntry:
                 right_str = [tab.identifier() for tab in self.right_state]
                 return f"Different subtrees: left={left_str} right={right_str}"
             case "join-direction":
-                left_str = [tab.identifier() for tab in self.left_state]
-                right_str = [tab.identifier() for tab in self.right_state]
+                left_str, right_str = str(self.left_state), str(self.right_state)
                 return f"Swapped join direction: left={left_str} right={right_str}"
             case "physical-op":
                 return f"Different physical operators on node {self.context}: left={self.left_state} right={self.right_state}"
@@ -625,7 +632,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
             )
         )
     if left_cost != right_cost and not (
-        math.isnan(left_cost) and math.isnan(left_cost)
+        math.isnan(left_cost) and math.isnan(right_cost)
     ):
         changes.append(
             PlanChangeEntry(
@@ -667,7 +674,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
                 compare_query_plans(left.inner_child, right.inner_child).changes
             )
             changes.extend(
-                compare_query_plans(left.outer_child, right.inner_child).changes
+                compare_query_plans(left.outer_child, right.outer_child).changes
             )
 
     return PlanChangeset(changes)
-- 
2.43.0


From 287d903233f452351e7e4ff9f10c40ffc0c8e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 097/108] fix: MySQL catalog queries are restricted to the
 current database and the connection settings are typed

---
 postbound/mysql.py | 101 +++++++++++++++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 32 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index ec4ad2f..f670eda 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -27,6 +27,7 @@ Therefore, the generation of join order hints only works for linear join orders
 
 from __future__ import annotations
 
+import collections
 import configparser
 import dataclasses
 import json
@@ -318,7 +319,7 @@ class MysqlSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        return True in index_map.get(column.name, set())
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
@@ -327,12 +328,9 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
 
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        # The index map contains an entry for each attribute that actually has an index. For each of these indexes, the
+        # entry denotes whether it is the primary key index. Notice that there might be further indexes on the primary key.
+        return False in index_map.get(column.name, set())
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -341,9 +339,12 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT index_name FROM information_schema.statistics "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return {index[0] for index in result_set}
@@ -354,16 +355,23 @@ class MysqlSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         query_template = (
-            "SELECT referenced_table_name, referenced_column_name "
+            "SELECT referenced_table_schema, referenced_table_name, referenced_column_name "
             "FROM information_schema.key_column_usage "
-            "WHERE table_name = %s AND column_name = %s AND referenced_column_name IS NOT NULL"
+            "WHERE table_name = %s AND column_name = %s AND referenced_column_name IS NOT NULL "
+            "AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return {
-            BoundColumnReference(col, TableReference(table))
-            for table, col in result_set
+            BoundColumnReference(
+                col,
+                TableReference(table, schema=schema if column.table.schema else ""),
+            )
+            for schema, table, col in result_set
         }
 
     def datatype(self, column: ColumnReference) -> str:
@@ -373,9 +381,12 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT column_type FROM information_schema.columns "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         return str(result_set[0])
@@ -387,32 +398,43 @@ class MysqlSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         query_template = (
             "SELECT is_nullable FROM information_schema.columns "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(query_template, (column.table.full_name, column.name))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         return result_set[0] == "YES"
 
     def _fetch_columns(self, table: TableReference) -> list[str]:
         query_template = (
-            "SELECT column_name FROM information_schema.columns WHERE table_name = %s"
+            "SELECT column_name FROM information_schema.columns "
+            "WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE())"
+        )
+        self._db.cursor().execute(
+            query_template, (table.full_name, table.schema or None)
         )
-        self._db.cursor().execute(query_template, (table.full_name,))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _fetch_indexes(self, table: TableReference) -> dict[str, set[bool]]:
+        # multiple columns of the same index differ in their sequence number
         index_query = textwrap.dedent("""
-            SELECT column_name, column_key = 'PRI'
-            FROM information_schema.columns
-            WHERE table_name = %s AND column_key <> ''
+            SELECT MAX(column_name), index_name = 'PRIMARY'
+            FROM information_schema.statistics
+            WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE())
+            GROUP BY index_name
+            HAVING COUNT(*) = 1
         """)
-        self._db.cursor().execute(index_query, (table.full_name,))
+        self._db.cursor().execute(index_query, (table.full_name, table.schema or None))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
-        index_map = dict(result_set)
+        index_map: dict[str, set[bool]] = collections.defaultdict(set)
+        for column, is_primary in result_set:
+            index_map[column].add(bool(is_primary))
         return index_map
 
 
@@ -422,9 +444,10 @@ class MysqlStatisticsInterface(DatabaseStatistics):
 
     def _retrieve_total_rows_from_stats(self, table: TableReference) -> Optional[int]:
         count_query = (
-            "SELECT table_rows FROM information_schema.tables WHERE table_name = %s"
+            "SELECT table_rows FROM information_schema.tables "
+            "WHERE table_name = %s AND table_schema = COALESCE(%s, DATABASE())"
         )
-        self._db.cursor().execute(count_query, (table.full_name,))
+        self._db.cursor().execute(count_query, (table.full_name, table.schema or None))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         count = result_set[0]
@@ -435,9 +458,13 @@ class MysqlStatisticsInterface(DatabaseStatistics):
     ) -> Optional[int]:
         stats_query = (
             "SELECT cardinality FROM information_schema.statistics "
-            "WHERE table_name = %s AND column_name = %s"
+            "WHERE table_name = %s AND column_name = %s AND table_schema = COALESCE(%s, DATABASE()) "
+            "AND seq_in_index = 1"
+        )
+        self._db.cursor().execute(
+            stats_query,
+            (column.table.full_name, column.name, column.table.schema or None),
         )
-        self._db.cursor().execute(stats_query, (column.table.full_name, column.name))
         distinct_vals = self._db.cursor().fetchone()
         if distinct_vals is None and not self.enable_emulation_fallback:
             return distinct_vals
@@ -750,7 +777,7 @@ class MysqlOptimizer(OptimizerInterface):
 
 
 def _parse_mysql_connection(config_file: str) -> MysqlConnectionArguments:
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_file)
     if "MYSQL" not in config:
         raise ValueError("Malformed MySQL config file: no [MYSQL] section found.")
@@ -776,7 +803,17 @@ def _parse_mysql_connection(config_file: str) -> MysqlConnectionArguments:
     ]:
         if key not in mysql_config:
             continue
-        optional_settings[util.camel_case2snake_case(key)] = mysql_config[key]
+        match key:
+            case "Port":
+                value = mysql_config.getint(key)
+            case "UseUnicode" | "AutoCommit":
+                value = mysql_config.getboolean(key)
+            case _:
+                value = mysql_config[key]
+        arg_name = (
+            "autocommit" if key == "AutoCommit" else util.camel_case2snake_case(key)
+        )
+        optional_settings[arg_name] = value
     return MysqlConnectionArguments(user, database, **optional_settings)
 
 
-- 
2.43.0


From baf3f1a6652c733fa3c5b1ff4bb9ee31f109de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:35 +0000
Subject: [PATCH 098/108] fix: Postgres settings: escaped values, setting
 objects in configuration updates, runtime-changeable settings

---
 postbound/postgres.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 31aca93..738b38e 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -182,7 +182,7 @@ _SignificantPostgresSettings = {
     "jit",
     "join_collapse_limit",
     "plan_cache_mode",
-    "recursive_worktable_factor"
+    "recursive_worktable_factor",
     # Automatic Vacuuming (https://www.postgresql.org/docs/current/runtime-config-autovacuum.html)
     "autovacuum",
     "autovacuum_max_workers",
@@ -219,6 +219,7 @@ All settings are up-to-date as of Postgres version 16.
 _RuntimeChangeablePostgresSettings = {
     setting for setting in _SignificantPostgresSettings
 } - {
+    "autovacuum",
     "autovacuum_max_workers",
     "autovacuum_naptime",
     "autovacuum_threshold",
@@ -269,7 +270,8 @@ class PostgresSetting(str):
 
     def __new__(cls, parameter: str, value: object):
         value = "on" if value is True else "off" if value is False else value
-        return super().__new__(cls, f"SET {parameter} = '{value}';")
+        escaped = str(value).replace("'", "''")
+        return super().__new__(cls, f"SET {parameter} = '{escaped}';")
 
     __match_args__ = ("parameter", "value")
 
@@ -409,7 +411,7 @@ class PostgresConfiguration(collections.UserString):
         PostgresConfiguration
             The updated configuration. The original config is not modified.
         """
-        if isinstance(setting, str):
+        if isinstance(setting, str) and not isinstance(setting, PostgresSetting):
             setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
@@ -461,10 +463,10 @@ class PostgresConfiguration(collections.UserString):
             The updated configuration. The original config is not modified.
         """
         match setting:
-            case str():
-                setting = PostgresSetting(setting, value)
             case PostgresSetting(name, _):
                 setting = PostgresSetting(name, value)
+            case str():
+                setting = PostgresSetting(setting, value)
 
         target_settings = dict(self._settings)
         target_settings[setting.parameter] = setting
@@ -479,7 +481,7 @@ class PostgresConfiguration(collections.UserString):
         dict[str, object]
             The settings. Changes to this dictionary will not be reflected in the configuration object.
         """
-        return dict(self._settings)
+        return {setting.parameter: setting.value for setting in self.settings}
 
     def _format(self) -> str:
         """Provides the string representation of the configuration.
@@ -494,10 +496,12 @@ class PostgresConfiguration(collections.UserString):
     def __getitem__(self, index):
         if isinstance(index, str):
             return self._settings[index]
-        return super().__getitem__(index)
+        return self.data[index]
 
     def __setitem__(self, key: str, value: object) -> None:
-        self._settings[key] = value
+        self._settings[key] = (
+            value if isinstance(value, PostgresSetting) else PostgresSetting(key, value)
+        )
         self.data = self._format()
 
 
-- 
2.43.0


From cedda9ca35d2df7f811d6bf2253aa85f0d408e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:38 +0000
Subject: [PATCH 099/108] fix: Postgres connection strings are escaped and read
 completely, infinite timestamps can be written

---
 postbound/postgres.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 738b38e..3734bdb 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -593,10 +593,13 @@ class _PsycopgTimestampLoader(psycopg_datetime.TimestampLoader):
 
 
 class _PsycopgTimestampTzDumper(psycopg_datetime.DatetimeDumper):
+    def upgrade(self, obj, format):
+        return self if obj.tzinfo else _PsycopgTimestampDumper(self.cls)
+
     def dump(self, obj):
-        if obj == datetime.datetime.max:
+        if obj == datetime.datetime.max.replace(tzinfo=datetime.timezone.utc):
             return b"infinity"
-        elif obj == datetime.datetime.min:
+        elif obj == datetime.datetime.min.replace(tzinfo=datetime.timezone.utc):
             return b"-infinity"
 
         return super().dump(obj)
@@ -3044,7 +3047,7 @@ def _reconnect(name: str, *, pool: DatabasePool) -> PostgresInterface:
 
 
 def _ini_config_reader(file: TextIO, *, path: Path) -> dict[str, str]:
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read_file(file)
     if len(config.sections()) != 1:
         raise ValueError(
@@ -3058,7 +3061,7 @@ def _read_connection_from_file(config_file: Path) -> str:
     extension = config_file.suffix.lower()
     if extension == "":
         with open(config_file, "r") as f:
-            return f.readline().strip()
+            return f.read().strip()
 
     match extension:
         case ".toml":
@@ -3082,8 +3085,16 @@ def _read_connection_from_file(config_file: Path) -> str:
 
     with open(config_file, mode) as f:
         config_data = reader(f)
-    parts = (f"{param} = '{value}'" for param, value in config_data.items())
-    return " ".join(parts)
+    return _make_connect_string(config_data)
+
+
+def _make_connect_string(params: dict[str, Any]) -> str:
+    """Generates a libpq connect string from connection parameters, escaping all special characters in their values."""
+    escaped = {
+        param: str(value).replace("\\", "\\\\").replace("'", "\\'")
+        for param, value in params.items()
+    }
+    return " ".join(f"{param} = '{value}'" for param, value in escaped.items())
 
 
 def connect(
@@ -3195,7 +3206,7 @@ def connect(
         connect_string = _read_connection_from_file(config_file)
     elif Path(".psycopg_connection").is_file():
         with open(".psycopg_connection", "r") as f:
-            connect_string = f.readline().strip()
+            connect_string = f.read().strip()
     elif os.getenv("PGDATABASE"):
         warnings.warn(
             "Using environment variables to construct connection string.", stacklevel=2
@@ -3208,13 +3219,13 @@ def connect(
             "PGPASSWORD": "password",
             "PGPASSFILE": "passfile",
         }
-        components: list[str] = []
+        components: dict[str, str] = {}
         for var, key in env_vars.items():
             val = os.getenv(var)
             if not val:
                 continue
-            components.append(f"{key} = '{val}'")
-        connect_string = " ".join(components)
+            components[key] = val
+        connect_string = _make_connect_string(components)
     else:
         raise ValueError(
             "Failed to obtain a database connection. Please either supply the connect string directly to the "
-- 
2.43.0


From 9500fa4f264e9964147e8675c3d3536838e3d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 100/108] fix: Postgres catalog questions and native statistics
 respect schemas, compound indexes and most common values

---
 postbound/postgres.py | 105 +++++++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 38 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 3734bdb..2de25fc 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -50,6 +50,7 @@ from ._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from ._hints import (
     HintType,
@@ -1008,7 +1009,9 @@ class PostgresInterface(Database):
         if not tables:
             return
         tables = set(
-            tab.full_name for tab in tables if not tab.virtual
+            TableReference(tab.full_name, schema=tab.schema)
+            for tab in tables
+            if not tab.virtual
         )  # eliminate duplicates if tables are selected multiple times
 
         table_indexes = (
@@ -1022,8 +1025,11 @@ class PostgresInterface(Database):
             if (primary and include_primary_index)
             or (not primary and include_secondary_indexes)
         }
+        table_names = {tab.qualified_name() for tab in tables}
         tables = (
-            indexes_to_prewarm if exclude_table_pages else tables | indexes_to_prewarm
+            indexes_to_prewarm
+            if exclude_table_pages
+            else table_names | indexes_to_prewarm
         )
         if not tables:
             return
@@ -1083,7 +1089,9 @@ class PostgresInterface(Database):
         if not tables:
             return
         tables = set(
-            tab.full_name for tab in tables
+            TableReference(tab.full_name, schema=tab.schema)
+            for tab in tables
+            if not tab.virtual
         )  # eliminate duplicates if tables are selected multiple times
 
         table_indexes = (
@@ -1097,8 +1105,11 @@ class PostgresInterface(Database):
             if (primary and include_primary_index)
             or (not primary and include_secondary_indexes)
         }
+        table_names = {tab.qualified_name() for tab in tables}
         tables = (
-            indexes_to_cooldown if exclude_table_pages else tables | indexes_to_cooldown
+            indexes_to_cooldown
+            if exclude_table_pages
+            else table_names | indexes_to_cooldown
         )
         if not tables:
             return
@@ -1221,7 +1232,9 @@ class PostgresInterface(Database):
             loaded_shared_objects = util.system.open_files(
                 self._connection.info.backend_pid
             )
-            return any(so.endswith(shared_object_name) for so in loaded_shared_objects)
+            return any(
+                Path(so).name == shared_object_name for so in loaded_shared_objects
+            )
         else:
             self._cursor.execute("SELECT extname FROM pg_extension;")
             return any(ext[0] == extension_name for ext in self._cursor.fetchall())
@@ -1312,11 +1325,15 @@ class PostgresInterface(Database):
                                          FROM pg_index idx
                                             JOIN pg_class cls ON idx.indexrelid = cls.oid
                                             JOIN pg_class owner_cls ON idx.indrelid = owner_cls.oid
-                                         WHERE owner_cls.relname = %s;
+                                         WHERE owner_cls.relname = %s
+                                            AND owner_cls.relnamespace = %s::regnamespace;
                                          """)
-        table = table.full_name if isinstance(table, TableReference) else table
-        self._cursor.execute(query_template, (table,))  # type: ignore
-        return list(self._cursor.fetchall())
+        table = table if isinstance(table, TableReference) else TableReference(table)
+        self._cursor.execute(query_template, (table.full_name, table.schema or "public"))  # type: ignore
+        return [
+            (TableReference(index, schema=table.schema).qualified_name(), primary)
+            for index, primary in self._cursor.fetchall()
+        ]
 
     def _assert_active_extension(
         self, extension_name: str, *, is_shared_object: bool = False
@@ -1423,7 +1440,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        return True in index_map.get(column.name, set())
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
@@ -1432,12 +1449,9 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
 
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        # The index map contains an entry for each attribute that actually has an index. For each of these indexes, the
+        # entry denotes whether it is the primary key index. Notice that there might be further indexes on the primary key.
+        return False in index_map.get(column.name, set())
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -1485,6 +1499,7 @@ class PostgresSchemaInterface(DatabaseSchema):
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid AND rel.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
+            ORDER BY array_position(idx.indkey::int2[], att.attnum)
         """)
 
         self._db.cursor().execute(query_template, (index, schema))
@@ -1510,7 +1525,7 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         schema = column.table.schema or "public"
         query_template = textwrap.dedent("""
-            SELECT target.table_name, target.column_name
+            SELECT target.table_schema, target.table_name, target.column_name
             FROM information_schema.key_column_usage AS fk_sources
                 JOIN information_schema.table_constraints AS all_constraints
                 ON fk_sources.constraint_name = all_constraints.constraint_name
@@ -1531,7 +1546,13 @@ class PostgresSchemaInterface(DatabaseSchema):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0])) for row in result_set
+            BoundColumnReference(
+                target_column,
+                TableReference(
+                    target_table, schema=target_schema if column.table.schema else ""
+                ),
+            )
+            for target_schema, target_table, target_column in result_set
         }
 
     def datatype(self, column: ColumnReference) -> str:
@@ -1599,7 +1620,7 @@ class PostgresSchemaInterface(DatabaseSchema):
 
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _fetch_indexes(self, table: TableReference) -> dict[str, set[bool]]:
         """Retrieves all index structures for a given table based on the PG metadata catalogs.
 
         Parameters
@@ -1611,7 +1632,8 @@ class PostgresSchemaInterface(DatabaseSchema):
         -------
         dict
             Contains a key for each column that has an index. The column keys map to booleans that indicate whether
-            the corresponding index is a primary key index. Columns without any index do not appear in the dictionary.
+            the corresponding indexes are primary key indexes. Columns without any index do not appear in the dictionary.
+            The same holds for columns that are only part of compound indexes.
 
         Raises
         ------
@@ -1631,13 +1653,16 @@ class PostgresSchemaInterface(DatabaseSchema):
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
+                AND idx.indnatts = 1
         """)
 
         self._db.cursor().execute(index_query, (table_name, schema))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        index_map = dict(result_set)
+        index_map: dict[str, set[bool]] = collections.defaultdict(set)
+        for column, is_primary in result_set:
+            index_map[column].add(is_primary)
         return index_map
 
     def __eq__(self, other: object) -> bool:
@@ -1698,7 +1723,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         query_template = """
             SELECT relpages
             FROM pg_class
-            WHERE oid = %s::regclass
+            WHERE relname = %s
                 AND relnamespace = %s::regnamespace
         """
 
@@ -1841,8 +1866,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                     continue
 
                 stats_target_query = textwrap.dedent(f"""
-                                                     ALTER TABLE {column.table.full_name}
-                                                     ALTER COLUMN {column.name}
+                                                     ALTER TABLE {column.table.qualified_name()}
+                                                     ALTER COLUMN {quote(column.name)}
                                                      SET STATISTICS {n_distinct};
                                                      """)
                 # This query might issue a warning if the requested stats target is larger than the allowed maximum value
@@ -1852,11 +1877,11 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 self._db.cursor().execute(stats_target_query)
 
         columns_str = {
-            table: ", ".join(col for col in columns)
+            table: ", ".join(quote(col) for col in columns)
             for table, columns in columns_map.items()
         }
         tables_and_columns = ", ".join(
-            f"{table.full_name}({cols})" for table, cols in columns_str.items()
+            f"{table.qualified_name()}({cols})" for table, cols in columns_str.items()
         )
 
         util.logging.print_if(
@@ -1872,15 +1897,15 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         for column, n_distinct in distinct_values.items():
             assert column.table is not None, "Unbound table"
             distinct_update_query = textwrap.dedent(f"""
-                                                    ALTER TABLE {column.table.full_name}
-                                                    ALTER COLUMN {column.name}
+                                                    ALTER TABLE {column.table.qualified_name()}
+                                                    ALTER COLUMN {quote(column.name)}
                                                     SET (n_distinct = {n_distinct});
                                                     """)
             self._db.cursor().execute(distinct_update_query)
 
     def _retrieve_total_rows_from_stats(self, table: TableReference) -> Optional[int]:
         schema = table.schema or "public"
-        count_query = "SELECT reltuples FROM pg_class WHERE oid = %s::regclass AND relnamespace = %s::regnamespace"
+        count_query = "SELECT reltuples FROM pg_class WHERE relname = %s AND relnamespace = %s::regnamespace"
         self._db.cursor().execute(count_query, (table.full_name, schema))
         result_set = self._db.cursor().fetchone()
         if not result_set:
@@ -1946,7 +1971,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
             SELECT UNNEST(most_common_vals::text::{conv}),
                 UNNEST(most_common_freqs) * (SELECT reltuples
                                              FROM pg_class
-                                             WHERE oid = %s::regclass
+                                             WHERE relname = %s
                                              AND relnamespace = %s::regnamespace)
             FROM pg_stats
             WHERE tablename = %s
@@ -1993,9 +2018,10 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         n_rows = self._retrieve_total_rows_from_stats(column.table)
         assert n_rows
 
-        bucket_freq = n_rows // len(bounds)
-
-        mcvs = self._retrieve_most_common_values_from_stats(column, k=None)
+        # MCVs are sorted by their frequency and they are not part of the histogram
+        mcvs = sorted(self._retrieve_most_common_values_from_stats(column, k=None))
+        n_hist_rows = max(n_rows - sum(freq for _, freq in mcvs), 0)
+        bucket_freq = n_hist_rows // len(bounds)
 
         normalized_bounds = []
         normalized_frequencies = []
@@ -2012,8 +2038,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
 
             if lo is None:
                 lo = min(
-                    filter(None, [cur_hist, cur_mcv_val]),
-                    default=None,
+                    val for val in (cur_hist, cur_mcv_val) if val is not None
                 )
 
             if cur_hist is None:
@@ -2057,10 +2082,14 @@ class PostgresStatisticsInterface(DatabaseStatistics):
 
     def _array_cast(self, column: BoundColumnReference) -> str:
         # determine the attributes data type to figure out how it should be converted
-        attribute_query = "SELECT data_type FROM information_schema.columns WHERE table_name = %s AND column_name = %s"
+        schema = column.table.schema or "public"
+        attribute_query = (
+            "SELECT data_type FROM information_schema.columns "
+            "WHERE table_name = %s AND column_name = %s AND table_schema = %s"
+        )
 
         self._db.cursor().execute(
-            attribute_query, (column.table.full_name, column.name)
+            attribute_query, (column.table.full_name, column.name, schema)
         )
         result_set = self._db.cursor().fetchone()
         assert result_set
@@ -2069,7 +2098,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         converter = _DTypeArrayConverters.get(attribute_dtype)
         if not converter:
             raise ValueError(
-                "Cannot cast column array of type {attribute_dtype} - no converter found."
+                f"Cannot cast column array of type {attribute_dtype} - no converter found."
             )
         return converter
 
-- 
2.43.0


From 6518d6f936ebc393c5c0ff41f1cb7e6296ed9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 101/108] fix: native cost model: costs of materialized,
 memoized and sorted inputs

---
 postbound/opt/native.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 3862a6c..a09f137 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -249,8 +249,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Materialize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Materialize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
@@ -355,8 +355,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Memoize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Memoize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
@@ -399,7 +399,7 @@ class NativeCostModel(CostModel):
                     and col.column in target_columns
                 )
             )
-            orderby_cols.append(col)
+            orderby_cols.append(col.column)
         orderby_clause = OrderBy.create_for(orderby_cols)
         query_fragment = transform.add_clause(query_fragment, orderby_clause)
 
-- 
2.43.0


From 34dc71f7cec6c7425ac05a6880110254f8166755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:52 +0000
Subject: [PATCH 102/108] fix: query plans: swap NaN cardinalities on request

---
 postbound/_qep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index b0f32b1..30ef7c7 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1666,7 +1666,7 @@ class QueryPlan:
             A new query plan with the actual cardinality as the estimated cardinality and the actual execution time as the
             estimated cost. The current plan is not changed.
         """
-        if self.actual_cardinality:
+        if self.actual_cardinality or not ignore_nan:
             updated_cardinality = (
                 self.estimated_cardinality
                 if ignore_nan and self.actual_cardinality.isnan()
-- 
2.43.0


From 8085f4317c0e15dc137eeb820e349c9b18bb4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 103/108] fix: join predicates: keep all predicates between the
 same tables in join graphs and lookups

---
 postbound/opt/_joingraph.py |   8 +--
 postbound/qal/_qal.py       | 102 ++++++++++++++++++------------------
 2 files changed, 57 insertions(+), 53 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index a2a186e..53934cf 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -994,8 +994,10 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             # these two tables might have nothing to do with each other (e.g. different components in the join graph)
             return
 
+        # the join predicate might also reference tables that are still free
+        joined_tables = self.joined_tables()
         partner_tables = {col.table for col in join_edge.join_partners_of(table)}
-        for partner_table in partner_tables:
+        for partner_table in partner_tables & joined_tables:
             pk_fk_join = self.is_pk_fk_join(table, partner_table)
             fk_pk_join = self.is_pk_fk_join(partner_table, table)
 
@@ -1003,6 +1005,8 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                 continue
 
             for col1, col2 in join_edge.join_partners():
+                if not {col1.table, col2.table} <= joined_tables:
+                    continue
                 joined_col, partner_col = (
                     (col1, col2) if col1.table == table else (col2, col1)
                 )
@@ -1014,8 +1018,6 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
                     self._invalidate_index(partner_col)
                     self._invalidate_index(joined_col)
 
-            joined_tables = self.joined_tables()
-
             if not fk_pk_join:
                 # The tuples of the intermediate are multiplied by the join, their keys are no longer unique
                 for joined_table in joined_tables - {table}:
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index eaf2e0d..968f68f 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -4492,17 +4492,19 @@ class QueryPredicates:
                 filter_predicates = self.filters_for(table)
                 join_graph.add_node(table, predicate=filter_predicates)
 
-            for join in self.joins():
-                for first_col, second_col in join.join_partners():
-                    join_graph.add_edge(
-                        first_col.table, second_col.table, predicate=join
-                    )
+            for tables, joins in self._joins_per_table_pair().items():
+                first_tab, second_tab = tables
+                join_graph.add_edge(
+                    first_tab,
+                    second_tab,
+                    predicate=CompoundPredicate.create_and(joins),
+                )
 
             return join_graph
 
         table2alias = collections.defaultdict(set)
         for tab in self._root.tables():
-            table2alias[tab.drop_alias()].add(tab)
+            table2alias[tab if tab.virtual else tab.drop_alias()].add(tab)
 
         table2preds = {
             tab: {alias: self.filters_for(alias) for alias in aliased}
@@ -4511,23 +4513,38 @@ class QueryPredicates:
         for table, preds in table2preds.items():
             join_graph.add_node(table, predicate=preds, aliases=table2alias[table])
 
-        col2join: dict[frozenset[ColumnReference], AbstractPredicate] = {}
-        for join in self.joins():
-            for first_col, second_col in join.join_partners():
-                partners = frozenset([first_col, second_col])
-                col2join[partners] = join
-
-        tab2join = collections.defaultdict(dict)
-        for partners, join in col2join.items():
-            tabs = frozenset([col.drop_table_alias() for col in partners])
-            tab2join[tabs][partners] = join
+        tab2join: dict[
+            frozenset[TableReference], dict[frozenset[TableReference], AbstractPredicate]
+        ] = collections.defaultdict(dict)
+        for partners, joins in self._joins_per_table_pair().items():
+            tabs = frozenset(
+                tab if tab.virtual else tab.drop_alias() for tab in partners
+            )
+            tab2join[tabs][partners] = CompoundPredicate.create_and(joins)
 
         for tabs, joins in tab2join.items():
-            first_tab, second_tab = tabs
+            # if different aliases of the same table are joined, only one table remains
+            first_tab, *other_tab = tabs
+            second_tab = other_tab[0] if other_tab else first_tab
             join_graph.add_edge(first_tab, second_tab, predicate=joins)
 
         return join_graph
 
+    def _joins_per_table_pair(
+        self,
+    ) -> dict[frozenset[TableReference], list[AbstractPredicate]]:
+        """Collects the join predicates that are specified between each pair of tables."""
+        joins_per_pair: dict[frozenset[TableReference], list[AbstractPredicate]] = {}
+        for join in self.joins():
+            for first_col, second_col in join.join_partners():
+                if first_col.table is None or second_col.table is None:
+                    continue
+                pair = frozenset([first_col.table, second_col.table])
+                pair_joins = joins_per_pair.setdefault(pair, [])
+                if join not in pair_joins:
+                    pair_joins.append(join)
+        return joins_per_pair
+
     @functools.cache
     def filters_for(self, table: TableReference) -> Optional[AbstractPredicate]:
         """Provides all filter predicates that reference a specific table.
@@ -4839,18 +4856,10 @@ class QueryPredicates:
         if self.is_empty():
             return {}
 
-        predicate_map: dict[frozenset[TableReference], AbstractPredicate] = {}
-        for table in self._root.tables():
-            join_partners = self.joins_for(table)
-            for join_predicate in join_partners:
-                partner_tables = {
-                    partner.table for partner in join_predicate.join_partners_of(table)
-                }
-                map_key = frozenset(partner_tables | {table})
-                if map_key in predicate_map:
-                    continue
-                predicate_map[map_key] = join_predicate
-        return predicate_map
+        return {
+            tables: CompoundPredicate.create_and(joins)
+            for tables, joins in self._joins_per_table_pair().items()
+        }
 
     def _legacy_joins_between(
         self,
@@ -4923,29 +4932,22 @@ class QueryPredicates:
         join_graph = self.join_graph()
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
 
-        if len(first_table) > 1:
-            first_first_table, *remaining_first_tables = first_table
-            for remaining_first_table in remaining_first_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_first_table, remaining_first_table
-                )
-            first_hook = first_first_table
-        else:
-            first_hook = util.simplify(first_table)
-
-        if len(second_table) > 1:
-            first_second_table, *remaining_second_tables = second_table
-            for remaining_second_table in remaining_second_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_second_table, remaining_second_table
-                )
-            second_hook = first_second_table
-        else:
-            second_hook = util.simplify(second_table)
+        join_predicates: list[AbstractPredicate] = []
+        for first, second in itertools.product(first_table, second_table):
+            if not join_graph.has_edge(first, second):
+                continue
+            edge_predicate = join_graph.edges[first, second]["predicate"]
+            is_conjunction = (
+                isinstance(edge_predicate, CompoundPredicate)
+                and edge_predicate.operation == CompoundOperator.And
+            )
+            for join in edge_predicate.children if is_conjunction else [edge_predicate]:
+                if join not in join_predicates:
+                    join_predicates.append(join)
 
-        if (first_hook, second_hook) not in join_graph.edges:
+        if not join_predicates:
             return None
-        return join_graph.edges[first_hook, second_hook]["predicate"]
+        return CompoundPredicate.create_and(join_predicates)
 
     def _map_based_joins_between(
         self,
-- 
2.43.0


From 08fd6bdadfdc18f4c392471d3d03d56261545d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:39 +0000
Subject: [PATCH 104/108] fix: bind unqualified columns to tables in the right
 schema

---
 postbound/parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index b1fc23c..f901ce3 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -151,7 +151,9 @@ class SchemaCache:
 
     def __init__(self, schema: Optional[DatabaseSchema] = None) -> None:
         self._schema = schema
-        self._lookup_cache: dict[str, tuple[list[str], set[str]]] = {}
+        self._lookup_cache: dict[
+            tuple[str, str], tuple[list[str], set[str]]
+        ] = {}
 
     def initialize_with(self, schema: Optional[DatabaseSchema]) -> None:
         """Sets the catalog if necessary"""
@@ -212,8 +214,13 @@ class SchemaCache:
         tuple[list[str], set[str]]
             The columns of the table in their defined order, as well as the same columns as a set.
         """
-        table = table.full_name if isinstance(table, TableReference) else table
-        cached_res = self._lookup_cache.get(table)
+        # different schemas can contain tables of the same name
+        if isinstance(table, TableReference):
+            table = table.drop_alias()
+            cache_key = (table.schema, table.full_name)
+        else:
+            cache_key = ("", table)
+        cached_res = self._lookup_cache.get(cache_key)
         if cached_res:
             return cached_res
         if not self._schema:
@@ -221,7 +228,7 @@ class SchemaCache:
 
         cols: list[str] = [col.name for col in self._schema.columns(table)]
         cols_set = set(cols)
-        self._lookup_cache[table] = cols, cols_set
+        self._lookup_cache[cache_key] = cols, cols_set
         return cols, cols_set
 
 
-- 
2.43.0


From 776ab91ea74bb6f3c804656cdb2e22b6466c655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:41 +0000
Subject: [PATCH 105/108] fix: extract parameters of join trees without
 annotations

---
 postbound/_hints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 27eb030..5cd3561 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1851,6 +1851,8 @@ def parameters_from_plan(
 
     if isinstance(query_plan, LogicalJoinTree):
         card = query_plan.annotation
+        if card is None:  # join trees do not need to be annotated
+            card = Cardinality.unknown()
         parallel_workers = None
     else:
         if target_cardinality == "estimated":
-- 
2.43.0


From 6f57690d3bd9691bd2958ef6e2e904e341b16ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:44 +0000
Subject: [PATCH 106/108] fix: reject locking clauses and database names
 instead of dropping them

---
 postbound/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index f901ce3..ac5f7c3 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1500,6 +1500,7 @@ def _pglast_parse_rangevar(rangevar: dict) -> TableReference:
     name = rangevar["relname"]
     alias = rangevar["alias"]["aliasname"] if "alias" in rangevar else None
     _reject_unsupported(rangevar.get("alias", {}), "colnames", context="table alias")
+    _reject_unsupported(rangevar, "catalogname", context=f"table {name}")
     if not rangevar.get("inh", False):
         raise ParserError(f"Unsupported feature of table {name}: ONLY")
     schema = rangevar.get("schemaname", "")
@@ -2186,7 +2187,7 @@ def _pglast_parse_query(
         The parsed query
     """
     _reject_unsupported(
-        stmt, "intoClause", "windowClause", context="query"
+        stmt, "intoClause", "windowClause", "lockingClause", context="query"
     )
     if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
         raise ParserError("Unsupported feature of query: WITH TIES")
-- 
2.43.0


From 5b95d52810aa9799f9507affed9ea55ad29f8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:48 +0000
Subject: [PATCH 107/108] fix: report texts without a query as empty

---
 postbound/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ac5f7c3..0f0e0c9 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2479,7 +2479,9 @@ def parse_query(
                 db_schema = pool.any_database().schema()
 
     pglast_data = json.loads(pglast.parser.parse_sql_json(query))
-    stmts = pglast_data["stmts"]
+    stmts = pglast_data.get("stmts", [])
+    if not stmts:
+        raise ParserError("Empty query")
 
     set_cmds, stmts = _pglast_parse_set_commands(stmts)
     if len(stmts) != 1:
-- 
2.43.0


From bb1d3aa9088aa829934ed3764776d068205a07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:51 +0000
Subject: [PATCH 108/108] fix: remove rows from the table in the requested
 schema

---
 postbound/postgres.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 2de25fc..2f1da11 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4709,9 +4709,9 @@ class WorkloadShifter:
         --------
         Notice that deletions in the given table can trigger further deletions in other tables through cascades in the schema.
         """
-        table_name = table.full_name if isinstance(table, TableReference) else table
-        n_rows = self._determine_row_cnt(table_name, n_rows, row_pct)
-        pk_column = self.pg_instance.schema().primary_key_column(table_name)
+        table_name = self._qualified_name(table)
+        n_rows = self._determine_row_cnt(table, n_rows, row_pct)
+        pk_column = self.pg_instance.schema().primary_key_column(table)
         if pk_column is None:
             raise ValueError(
                 f"Cannot perform random removal on table '{table_name}': No primary key found"
@@ -4775,15 +4775,16 @@ class WorkloadShifter:
         """
 
         if isinstance(column, str):
-            table_name, col_name = column.split(".")
+            table, col_name = column.split(".")
         elif isinstance(column, ColumnReference) and column.table is not None:
-            table_name, col_name = column.table.full_name, column.name
+            table, col_name = column.table, column.name
         elif isinstance(column, ColumnReference):
             raise UnboundColumnError(column)
         else:
             raise TypeError("Unknown column type: " + str(column))
-        n_rows = self._determine_row_cnt(table_name, n_rows, row_pct)
-        pk_column = self.pg_instance.schema().primary_key_column(table_name)
+        table_name = self._qualified_name(table)
+        n_rows = self._determine_row_cnt(table, n_rows, row_pct)
+        pk_column = self.pg_instance.schema().primary_key_column(table)
         if pk_column is None:
             raise ValueError(
                 f"Cannot perform ordered removal on table '{table_name}': No primary key found"
@@ -5073,14 +5074,23 @@ class WorkloadShifter:
             cursor.close()
             conn.close()
 
+    def _qualified_name(self, table: TableReference | str) -> str:
+        """Provides the name of a table including its schema (if there is one)."""
+        if isinstance(table, str):
+            return table
+        return f"{table.schema}.{table.full_name}" if table.schema else table.full_name
+
     def _determine_row_cnt(
-        self, table: str, n_rows: Optional[int], row_pct: Optional[float]
+        self,
+        table: TableReference | str,
+        n_rows: Optional[int],
+        row_pct: Optional[float],
     ) -> int:
         """Calculates the absolute number of rows to delete while also performing sanity checks.
 
         Parameters
         ----------
-        table : str
+        table : TableReference | str
             The table from which rows should be deleted. This is necessary to determine the current row count.
         n_rows : Optional[int]
             The absolute number of rows to delete.
@@ -5118,10 +5128,12 @@ class WorkloadShifter:
             raise ValueError("Not a valid row percentage: " + str(row_pct))
 
         total_n_rows = self.pg_instance.statistics().total_rows(
-            TableReference(table), cache_enabled=False, emulated=True
+            table.drop_alias() if isinstance(table, TableReference) else TableReference(table),
+            cache_enabled=False,
+            emulated=True,
         )
         if total_n_rows is None:
             raise StateError(
-                "Could not determine total number of rows for table " + table
+                f"Could not determine total number of rows for table {table}"
             )
         return round(row_pct * total_n_rows)
-- 
2.43.0

