"""P18: relational algebra trees, evaluated operator by operator, and their edit histories."""
import re

import quacklab

from postbound import ColumnReference, TableReference, qal, relalg
from postbound.parser import parse_query

from lib import algebra
from lib import db as dbl
from lib.vlib import Scenario

PROPERTY = "P18"
TECHNIQUE = ("trace oracle over real executions of the parser: every produced operator tree is evaluated operator by operator (each operator becomes one SQL fragment over its inputs only) and its rows are compared with those of the query on live "
             "DuckDB data; an evaluation monitor reports operators that consume expressions no input provides or claim expressions they do not have; edit histories of operator trees are checked against a specification model with monitors on "
             "parent/sideways links, hashes and the previous versions of the tree")
RULE = ("random queries (1-5 sources, CTEs, derived tables, correlated/nested EXISTS, IN, NOT IN, scalar subqueries, AND/OR/NOT, NULLs, aggregation, HAVING, DISTINCT, ORDER BY, set operations) on random data, distinct by operator set x query features; "
        "random operator trees and DAGs of all 16 operators with 5 random edits each, distinct by operator x edited attributes x as_root")
REQUIRE = {"evaluated": 2400, "nonempty": 550, "feature:correlated": 1000, "feature:or-sub": 250, "feature:not-in": 250, "feature:cte": 400, "feature:aggregate": 700, "feature:setop": 350, "mutations": 3000, "links": 70000, "dependent": 800, "nested-initiator": 25}
ASSUMPTIONS = ["operators work on bags: Union keeps all tuples of both inputs, Intersection and Difference keep the multiplicities of the left input, DuplicateElimination removes duplicates",
               "within a subquery, operators of the surrounding query designate its current tuple", "ORDER BY is compared by its sort operator, results of INTERSECT/EXCEPT as sets",
               "LIMIT, explicit JOIN syntax, window functions, subqueries in the SELECT clause and queries without FROM are outside the supported part of the translation"]
LEVEL_NOTE = "operator-by-operator evaluation of seeded random queries on real data; model-based edit histories"

INT = {t: [c for c, ty in d["cols"] if ty == "int" and c not in ("select", "group")] for t, d in dbl.SCHEMA.items() if t != "Odd Table"}
NUM = {t: [c for c, ty in d["cols"] if ty in ("int", "num")] for t, d in dbl.SCHEMA.items() if t != "Odd Table"}
TEXT = {t: [c for c, ty in d["cols"] if ty == "text"] for t, d in dbl.SCHEMA.items() if t != "Odd Table"}
NOTNULL = {t: d["pk"] for t, d in dbl.SCHEMA.items()}


class Gen:
    def __init__(self, rng):
        self.rng, self.n, self.feat = rng, 0, set()
        self.ctes, self.used = [], set()

    def alias(self):
        self.n += 1
        return f"{self.rng.choice('abxyz')}{self.n}"

    def source(self, depth):
        """-> (FROM item, {kind: [columns]})"""
        rng = self.rng
        if depth and rng.random() < 0.12:
            self.feat.add("derived")
            return self.derived(depth)
        t = rng.choice(sorted(INT))
        a = self.alias()
        return f"{t} AS {a}", {"int": [f"{a}.{c}" for c in INT[t]], "num": [f"{a}.{c}" for c in NUM[t]], "text": [f"{a}.{c}" for c in TEXT[t]], "key": [f"{a}.{c}" for c in NOTNULL[t]]}

    def derived(self, depth):
        a = self.alias()
        sql, names = self.virtual(depth)
        return f"({sql}) AS {a}", {"int": [f"{a}.{n}" for n in names], "num": [f"{a}.{n}" for n in names], "text": [], "key": []}

    def virtual(self, depth):
        """a query with named integer outputs"""
        rng = self.rng
        srcs = [self.source(0) for _ in range(rng.choice([1, 1, 2]))]
        frm, cols, where = self.join(srcs, depth - 1)
        names, sel = [], []
        if rng.random() < 0.25:
            g = rng.choice(cols["int"])
            sel = [f"{g} AS g{self.n}", f"COUNT(*) AS n{self.n}"]
            names = [f"g{self.n}", f"n{self.n}"]
            return f"SELECT {', '.join(sel)} FROM {frm}{where} GROUP BY {g}", names
        for c in rng.sample(cols["int"], min(len(cols["int"]), rng.choice([1, 2]))):
            self.n += 1
            e = c if rng.random() < 0.7 else f"{c} + 1"
            sel.append(f"{e} AS v{self.n}")
            names.append(f"v{self.n}")
        return f"SELECT {'DISTINCT ' if self.flag('distinct', 0.1) else ''}{', '.join(sel)} FROM {frm}{where}", names

    def flag(self, name, p):
        if self.rng.random() < p:
            self.feat.add(name)
            return True
        return False

    def join(self, srcs, depth, outer=()):
        rng = self.rng
        preds, cols = [], {"int": [], "num": [], "text": [], "key": []}
        for k, (item, c) in enumerate(srcs):
            if k and rng.random() < 0.92:
                other = rng.choice(srcs[:k])[1]
                left, right = rng.choice(other["int"]), rng.choice(c["int"])
                if self.flag("join-expr", 0.12):
                    left = f"{left} + 1"
                if self.flag("join-expr", 0.06):
                    right = f"ABS({right})"
                op = "=" if rng.random() < 0.85 else rng.choice(["<", ">=", "<>"])
                pair = [left, right]
                rng.shuffle(pair)
                preds.append(f"{pair[0]} {op} {pair[1]}")
                if op != "=":
                    self.feat.add("theta")
                if self.flag("double-join", 0.12):
                    preds.append(f"{rng.choice(other['int'])} = {rng.choice(c['int'])}")
            elif k:
                self.feat.add("cross")
            for kind in cols:
                cols[kind] += c[kind]
        for item, c in srcs:
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                preds.append(self.filter(c))
        if self.flag("constant", 0.03):
            preds.append("1 = 1")
        if len(srcs) > 1 and self.flag("multi-filter", 0.2):
            a, b = (rng.choice(s[1]["int"]) for s in rng.sample(srcs, 2))
            preds.append(rng.choice([f"{a} + {b} > {rng.randint(-1, 5)}", f"({a} = {rng.randint(0, 4)} OR {b} > {rng.randint(0, 4)})", f"COALESCE({a}, {b}) <> 2", f"{a} BETWEEN {b} AND 5", f"{a} IN ({b}, 3)"]))
        if depth > 0 and self.rng.random() < 0.55:
            for _ in range(rng.choice([1, 1, 2])):
                preds.append(self.subquery_filter(cols, depth))
        if outer:
            for o in outer:
                preds.append(rng.choice([f"{rng.choice(cols['int'])} = {o}", f"{o} = {rng.choice(cols['int'])}", f"{rng.choice(cols['int'])} < {o}"]))
        rng.shuffle(preds)
        return ", ".join(s[0] for s in srcs), cols, f" WHERE {' AND '.join(preds)}" if preds else ""

    def filter(self, c, depth=1):
        rng = self.rng
        r = rng.random()
        if depth and r < 0.12:
            self.feat.add("or")
            return f"({' OR '.join(self.filter(c, 0) for _ in range(rng.choice([2, 2, 3, 4])))})"
        if depth and r < 0.2:
            self.feat.add("not")
            return f"NOT ({self.filter(c, 0)}{' AND ' + self.filter(c, 0) if rng.random() < 0.4 else ''})"
        n = rng.choice(c["num"])
        i = rng.choice(c["int"])
        opts = [f"{n} {rng.choice(['=', '<', '>', '<=', '>=', '<>'])} {rng.randint(-1, 5)}", f"{i} BETWEEN {rng.randint(-1, 2)} AND {rng.randint(2, 6)}", f"{i} IN ({rng.randint(0, 3)}, {rng.randint(3, 6)})",
                f"{n} IS NOT NULL", f"{n} IS NULL", f"{n} + 1 > {rng.randint(0, 5)}", f"ABS({n}) < {rng.randint(1, 5)}", f"{i} < {rng.choice(c['int'])}", f"CAST({i} AS TEXT) = '{rng.randint(0, 4)}'"]
        if c["text"]:
            t = rng.choice(c["text"])
            opts += [f"{t} LIKE 'a%'", f"{t} IN ('a', 'b')", f"LENGTH({t}) > 1"]
        return rng.choice(opts)

    def subquery_filter(self, cols, depth):
        rng = self.rng
        kind = rng.choice(["exists", "exists", "not-exists", "in", "in", "not-in", "scalar", "scalar", "scalar", "or-sub", "not-sub"])
        self.feat.add(kind)
        if kind == "not-sub":
            parts = [self.subquery_filter_kind(cols, depth, rng.choice(["exists", "in", "scalar", "not-in"])), self.filter(cols)]
            rng.shuffle(parts)
            return f"NOT ({f' {rng.choice(["AND", "OR"])} '.join(parts[:rng.choice([1, 2])])})"
        if kind == "or-sub" and rng.random() < 0.3:
            return f"({self.subquery_filter_kind(cols, depth, 'exists')} OR {self.subquery_filter_kind(cols, depth, rng.choice(['in', 'not-exists', 'scalar']))})"
        if kind == "or-sub":
            a, b = self.filter(cols), self.subquery_filter_kind(cols, depth, rng.choice(["exists", "in", "scalar"]))
            parts = [a, b] + [self.filter(cols, 0) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            rng.shuffle(parts)
            return f"({' OR '.join(parts)})"
        return self.subquery_filter_kind(cols, depth, kind)

    def subquery_filter_kind(self, cols, depth, kind):
        rng = self.rng
        corr = [rng.choice(cols["int"])] if rng.random() < 0.55 else []
        if corr and rng.random() < 0.2:
            corr.append(rng.choice(cols["int"]))
        if corr:
            self.feat.add("correlated")
        srcs = [self.source(0) for _ in range(rng.choice([1, 1, 2]))]
        frm, inner, where = self.join(srcs, depth - 1, corr)
        if kind in ("exists", "not-exists"):
            return f"{'NOT ' if kind == 'not-exists' else ''}EXISTS (SELECT {rng.choice(['1', rng.choice(inner['int'])])} FROM {frm}{where})"
        if kind == "in" and not corr and self.flag("in-setop", 0.15):
            op = rng.choice(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"])
            return f"{rng.choice(cols['int'])} IN (SELECT {rng.choice(inner['int'])} FROM {frm}{where} {op} {self.select(0, width=1)})"
        if kind == "in":
            if self.flag("in-distinct", 0.15):
                return f"{rng.choice(cols['int'])} + 1 IN (SELECT DISTINCT {rng.choice(inner['int'])} FROM {frm}{where})"
            return f"{rng.choice(cols['int'])} IN (SELECT {rng.choice(inner['int'])} FROM {frm}{where})"
        if kind == "not-in":
            return f"{rng.choice(cols['int'])} NOT IN (SELECT {rng.choice(inner['int'])} FROM {frm}{where})"
        agg = rng.choice(["MAX", "MIN", "COUNT", "AVG"])
        extra = rng.choice(["", "", " + 1"])
        left = rng.choice(cols["int"])
        text = [left, f"(SELECT {agg}({rng.choice(inner['int'])}){extra} FROM {frm}{where})"]
        if self.flag("scalar-math", 0.15):
            text[1] = f"{text[1]} {rng.choice(['+ 1', '* 2'])}"
        if rng.random() < 0.3:
            text.reverse()
        if self.flag("scalar-between", 0.1):
            return f"{left} BETWEEN {rng.randint(-2, 1)} AND {text[1] if text[0] == left else text[0]}"
        return f"{text[0]} {rng.choice(['=', '<', '>', '<>'])} {text[1]}"

    def expression(self, cols):
        rng = self.rng
        i, n = rng.choice(cols["int"]), rng.choice(cols["num"])
        opts = [i, i, i, n, f"{i} + 1", f"ABS({n})", f"{i} * {rng.choice(cols['int'])}", f"CAST({i} AS TEXT)", f"CASE WHEN {i} > 2 THEN 1 ELSE 0 END", f"COALESCE({i}, {rng.choice(cols['int'])}, 0)", str(rng.randint(0, 9)), f"ABS({i} + 1) * 2"]
        if cols["text"]:
            t = rng.choice(cols["text"])
            opts += [t, f"UPPER({t})", f"LENGTH({t}) + 1"]
        return rng.choice(opts)

    def select(self, depth, srcs=None, width=None):
        rng = self.rng
        if srcs is None:
            srcs = [self.source(depth) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            for name, names in self.ctes:
                if rng.random() < 0.8:
                    a, item = name, name
                    if name in self.used or rng.random() < 0.4:
                        # names of tables are unique within the entire query
                        a = self.alias()
                        item = f"{name} AS {a}"
                    self.used.add(name)
                    srcs.append((item, {"int": [f"{a}.{n}" for n in names], "num": [f"{a}.{n}" for n in names], "text": [], "key": []}))
            rng.shuffle(srcs)
        frm, cols, where = self.join(srcs, depth)
        self.plain = False
        if width is None and self.flag("aggregate", 0.35):
            groups = rng.sample(cols["int"], min(len(cols["int"]), rng.choice([0, 1, 1, 2])))
            if groups and self.flag("group-expr", 0.2):
                groups[0] = f"{groups[0]} + 1"
            aggs = [rng.choice(["COUNT(*)", f"SUM({rng.choice(cols['int'])})", f"MAX({rng.choice(cols['num'])})", f"MIN({rng.choice(cols['int'])} + 1)", f"COUNT(DISTINCT {rng.choice(cols['int'])})", f"SUM({rng.choice(cols['int'])}) + 1", f"COUNT({rng.choice(cols['int'])})"]) for _ in range(rng.choice([1, 1, 2]))]
            if groups and rng.random() < 0.15:
                aggs = []
            sel = groups + aggs
            rng.shuffle(sel)
            having = ""
            if groups and self.flag("having-group", 0.15):
                having = f" HAVING {rng.choice(groups)} > {rng.randint(-1, 3)} AND COUNT(*) < 20"
            elif self.flag("having-sub", 0.1):
                src = self.source(0)
                having = f" HAVING COUNT(*) {rng.choice(['>', '<', '='])} (SELECT {rng.choice(['MIN', 'COUNT'])}({rng.choice(src[1]['int'])}) FROM {src[0]})"
            elif self.flag("having", 0.35):
                having = f" HAVING {rng.choice(['COUNT(*)', 'MAX(' + rng.choice(cols['int']) + ')'])} {rng.choice(['>', '<', '<>'])} {rng.randint(0, 3)}"
            order = f" ORDER BY {', '.join(rng.sample(groups, len(groups)) + rng.sample(['COUNT(*)', 'MAX(' + cols['int'][0] + ') DESC'], rng.choice([0, 0, 1])))}" if groups and self.flag("order", 0.3) else ""
            return f"SELECT {', '.join(sel)} FROM {frm}{where}" + (f" GROUP BY {', '.join(groups)}" if groups else "") + having + order
        sel = [self.expression(cols) for _ in range(width or rng.choice([1, 2, 3]))] if width is None else [rng.choice(cols["int"]) for _ in range(width)]
        distinct = "DISTINCT " if self.flag("distinct", 0.15) else ""
        order = ""
        if width is None and not distinct and self.flag("order", 0.2):
            items = [rng.choice(cols["int"] + [f"{rng.choice(cols['int'])} + 1"]) for _ in range(rng.choice([1, 2]))]
            order = " ORDER BY " + ", ".join(x + rng.choice([" ASC", " DESC"]) for x in dict.fromkeys(items))
        return f"SELECT {distinct}{', '.join(sel)} FROM {frm}{where}{order}"

    def query(self):
        rng = self.rng
        head = ""
        if self.flag("cte", 0.2):
            for _ in range(rng.choice([1, 1, 2])):
                sql, names = self.virtual(1)
                self.n += 1
                self.ctes.append((f"cte{self.n}", names))
                head += (", " if head else "WITH ") + f"cte{self.n} AS ({sql})"
            head += " "
        if self.flag("setop", 0.15):
            op = rng.choice(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"])
            w = rng.choice([1, 2])
            self.feat.add(op)
            return f"{head}{self.select(1, width=w)} {op} {self.select(1, width=w)}"
        return head + self.select(2)


def queries(mon, rng):
    con = quacklab.connect()
    dbl.create_tables(con)
    dbl.fill_random(con, rng, max_rows=6)
    for _ in range(12):
        g = Gen(rng)
        sql = g.query()
        try:
            want = con.execute(sql).fetchall()
        except quacklab.Error as e:
            mon.count("invalid")
            mon.sample("invalid", f"{sql}: {e}"[:400])
            continue
        query = parse_query(sql, bind_columns=False)
        tree = relalg.parse_relalg(query)
        ctx = lambda: f"{sql}\n{tree.inspect()}"
        ev = algebra.Evaluator(dbl.q)
        try:
            text, cols, out = ev.rel(tree)
        except algebra.Unavailable as e:
            mon.fail("unavailable", f"{e}: {ctx()}")
            continue
        linkage(mon, tree, "parsed-links")
        for n in distinct(tree):
            if isinstance(n, (relalg.SemiJoin, relalg.AntiJoin)):
                sub = str(n.subquery_node.subquery)
                outside = set(re.findall(r"\b([abxyz]\d+|cte\d+)\.", sub)) - set({x for m in re.findall(r" AS ([abxyz]\d+)\b|\b(cte\d+)(?![.\d]| AS)", sub) for x in m})
                mon.eq(n.is_dependent(), bool(outside), "dependent", sub)
                mon.count("dependent", int(bool(outside)))
        if not query.is_set_query():
            order, n = query.orderby_clause, tree
            while isinstance(n, (relalg.DuplicateElimination, relalg.Projection, relalg.Map)) and order is not None:
                n = n.input_node
            if order is None:
                mon.check(not any(isinstance(x, relalg.Sort) for x in distinct(tree)), "sort", lambda: f"sorted without ORDER BY: {ctx()}")
            elif mon.check(isinstance(n, relalg.Sort), "sort", lambda: f"ORDER BY is missing: {ctx()}"):
                mon.eq([(str(e), d) for e, d in n.sorting], [(str(o.column), "asc" if o.ascending in (None, True) else "desc") for o in order.expressions], "sort", sql)
        for node, exprs in ev.excess[:1]:
            mon.fail(f"provided:{node.node_type}", f"{node} does not provide {exprs}: {ctx()}")
        names = out if out is not None else []
        try:
            got = con.execute(f"SELECT {', '.join(names)} FROM ({text}) AS result").fetchall()
        except quacklab.InternalException:
            # DuckDB cannot execute its own plan for the SQL form of the tree, the database is invalid afterwards
            mon.count("engine-crash")
            con.close()
            return
        except quacklab.Error as e:
            mon.fail("engine", f"{e}: {ctx()}\n{text}")
            continue
        want, got = dbl.norm_rows(want), dbl.norm_rows(got)
        if g.feat & {"INTERSECT", "EXCEPT"}:
            want, got = sorted(set(want), key=repr), sorted(set(got), key=repr)
        mon.check(want == got, "rows", lambda: f"{want} expected, algebra computes {got}: {ctx()}\n{text}")
        mon.count("evaluated")
        mon.count("nonempty", int(bool(want)))
        for f in g.feat:
            mon.count("feature:" + f)
        for o in ev.ops:
            mon.count("operator:" + o)
        if rng.random() < 0.01:
            mon.sample("query", {"sql": sql, "tree": tree.inspect().splitlines(), "rows": len(want)})
        mon.ok(f"rows:{sorted(ev.ops)}:{sorted(g.feat)}")
    con.close()


# --- operators as data structures --------------------------------------------------------------------------------------------

NODES = ("Selection", "CrossProduct", "Union", "Intersection", "Difference", "Relation", "ThetaJoin", "Projection", "Grouping", "Rename", "Sort", "Map", "DuplicateElimination", "SemiJoin", "AntiJoin", "SubqueryScan")
VISITS = {"Selection": "visit_selection", "CrossProduct": "visit_cross_product", "Union": "visit_union", "Intersection": "visit_intersection", "Difference": "visit_difference", "Relation": "visit_base_relation", "ThetaJoin": "visit_theta_join",
          "Projection": "visit_projection", "Grouping": "visit_grouping", "Rename": "visit_rename", "Sort": "visit_sort", "Map": "visit_map", "DuplicateElimination": "visit_duplicate_elim", "SemiJoin": "visit_semijoin",
          "AntiJoin": "visit_antijoin", "SubqueryScan": "visit_subquery"}
ATTRS = {"Selection": ["predicate"], "ThetaJoin": ["predicate"], "Relation": ["table", "provided_columns"], "Projection": ["targets"], "Grouping": ["group_columns", "aggregates"], "Rename": ["mapping"], "Sort": ["sorting"], "Map": ["mapping"],
         "SemiJoin": ["predicate"], "AntiJoin": ["predicate"], "SubqueryScan": ["subquery"]}
INPUTS = {"Selection": ["input_node"], "CrossProduct": ["left_input", "right_input"], "Union": ["left_input", "right_input"], "Intersection": ["left_input", "right_input"], "Difference": ["left_input", "right_input"],
          "ThetaJoin": ["left_input", "right_input"], "Projection": ["input_node"], "Grouping": ["input_node"], "Rename": ["input_node"], "Sort": ["input_node"], "Map": ["input_node"], "DuplicateElimination": ["input_node"],
          "SemiJoin": ["input_node", "subquery_node"], "AntiJoin": ["input_node", "subquery_node"], "SubqueryScan": ["input_node"], "Relation": ["subquery_input"]}


class Builder:
    """random operator trees; a specification is (type, {attribute: value}, [specifications of the inputs])"""

    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def col(self):
        self.n += 1
        return ColumnReference(f"c{self.n}", TableReference(f"t{self.rng.randint(1, 4)}"))

    def expr(self):
        c = qal.ColumnExpression(self.col())
        return c if self.rng.random() < 0.6 else qal.MathExpression(qal.MathOperator.Add, c, qal.StaticValueExpression(self.n))

    def pred(self):
        return qal.as_predicate(self.col(), self.rng.choice([qal.LogicalOperator.Equal, qal.LogicalOperator.Less]), self.rng.choice([self.col(), self.rng.randint(0, 9)]))

    def attr(self, kind, name):
        rng = self.rng
        if name == "predicate":
            return self.pred()
        if name == "table":
            self.n += 1
            return TableReference(f"r{self.n}")
        if name == "provided_columns":
            return [self.col() for _ in range(rng.randint(0, 3))]
        if name in ("targets", "group_columns"):
            return [self.expr() for _ in range(rng.randint(1, 3))]
        if name == "aggregates":
            args = [self.expr() for _ in range(rng.randint(0, 2))]
            return {frozenset([a]): frozenset(qal.FunctionExpression(f, [a]) for f in rng.sample(["SUM", "MAX", "COUNT"], rng.randint(1, 2))) for a in args}
        if name == "mapping" and kind == "Rename":
            return {self.col(): self.col() for _ in range(rng.randint(1, 2))}
        if name == "mapping":
            return {frozenset([self.expr() for _ in range(rng.randint(1, 2))]): frozenset([self.expr() for _ in range(rng.randint(1, 2))]) for _ in range(rng.randint(1, 2))}
        if name == "sorting":
            return [(self.expr(), rng.choice(["asc", "desc"])) for _ in range(rng.randint(1, 3))]
        if name == "subquery":
            self.n += 1
            return parse_query(f"SELECT {rng.choice(['s.a', 'MAX(s.a)', 's.b'])} FROM s WHERE s.id = {self.n}{rng.choice(['', ' AND s.x = s.y'])}", bind_columns=False)
        raise AssertionError(name)

    def tree(self, size, shared):
        """a node of about the given size; parts can be used several times"""
        rng = self.rng
        if shared and rng.random() < 0.15:
            return rng.choice(shared)
        kind = "Relation" if size <= 1 else rng.choice([k for k in NODES if k != "Relation"] + ["Relation"] * (rng.random() < 0.4))
        attrs = {a: self.attr(kind, a) for a in ATTRS.get(kind, [])}
        if kind in ("SemiJoin", "AntiJoin"):
            if rng.random() < 0.4:
                attrs["predicate"] = None
            left = self.tree(size // 2, shared)
            scan = relalg.SubqueryScan(self.tree(size // 2 - 1, shared), self.attr("SubqueryScan", "subquery"))
            kids = {"input_node": left, "subquery_node": scan}
        elif kind == "Relation":
            kids = {"subquery_input": self.tree(size - 1, shared)} if size > 2 else {}
        else:
            kids = {}
            for k in INPUTS[kind]:
                kids[k] = self.tree((size - 1) // len(INPUTS[kind]), shared)
        node = getattr(relalg, kind)(**kids, **attrs)
        shared.append(node)
        return node


def norm(kind, name, value):
    """the value of an attribute as its property reports it"""
    expr = lambda e: qal.ColumnExpression(e) if isinstance(e, ColumnReference) else e
    if value is None:
        return None
    if name == "provided_columns":
        return frozenset(expr(c) for c in value)
    if name in ("targets", "group_columns", "sorting"):
        return tuple(value)
    if name in ("aggregates",):
        return frozenset((k, frozenset(v)) for k, v in value.items())
    if name == "mapping":
        return frozenset((k, frozenset(v) if kind == "Map" else v) for k, v in value.items())
    return value


def attribute(node, name):
    kind = type(node).__name__
    if name == "provided_columns":
        return frozenset(node.provided_expressions())
    if name == "targets":
        return tuple(node.columns)
    return norm(kind, name, getattr(node, name))


def spec(node, replaced=None, seen=None):
    """what the public interface reports about a tree"""
    if replaced is not None and node is replaced[0]:
        return replaced[1]
    kind = type(node).__name__
    return (kind, tuple((a, attribute(node, a)) for a in ATTRS.get(kind, [])), tuple(spec(c, replaced) for c in node.children()))


def distinct(node, seen=None):
    seen = {} if seen is None else seen
    if id(node) not in seen:
        seen[id(node)] = node
        for c in node.children():
            distinct(c, seen)
    return list(seen.values())


def _visit(name):
    return lambda self, node: (name, node)


Recorder = type("Recorder", (relalg.RelNodeVisitor,), {m: _visit(m) for m in VISITS.values()})


def linkage(mon, root, mech):
    """every consumer of a node is either its parent or receives its output sideways"""
    nodes = distinct(root)
    consumers = {id(n): [] for n in nodes}
    for n in nodes:
        for c in n.children():
            consumers[id(c)].append(n)
    mon.check(root.parent_node is None, f"{mech}:root", f"root {root} has parent {root.parent_node}: {root.inspect()}")
    for n in nodes:
        if n is root:
            continue
        linked = [n.parent_node] + list(n.sideways_pass)
        mon.check(n.parent_node is not None and any(n.parent_node is c for c in consumers[id(n)]), f"{mech}:parent", lambda: f"parent of {n} is {n.parent_node!r} instead of one of {consumers[id(n)]}")
        for c in consumers[id(n)]:
            mon.check(any(c is x for x in linked), f"{mech}:consumers", lambda: f"{n} does not know its consumer {c}: {linked}")
        for x in n.sideways_pass:
            mon.check(any(x is c for c in consumers[id(n)]), f"{mech}:sideways", lambda: f"{n} is passed to {x!r} which does not use it")
        mon.check(n.root() is root, f"{mech}:root()", lambda: f"root of {n} is {n.root()!r}")
    mon.count("links", len(nodes))


def preorder(node):
    yield node
    for c in node.children():
        yield from preorder(c)


def names(sp, ignore):
    """tables of a specification"""
    kind, attrs, kids = sp
    if kind == "Relation":
        own = {dict(attrs)["table"]}
        return own if ignore else own.union(*(names(k, ignore) for k in kids))
    if kind == "SubqueryScan" and ignore:
        return set()
    return set().union(*(names(k, ignore) for k in kids))


def nodes(mon, rng):
    b = Builder(rng)
    state = rng.getstate()
    root = b.tree(rng.choice([3, 6, 10, 16]), [])
    rng.setstate(state)
    twin = Builder(rng).tree(rng.choice([3, 6, 10, 16]), [])
    mon.check(root == twin and hash(root) == hash(twin), "equal", lambda: f"identical trees differ:\n{root.inspect()}\n{twin.inspect()}")
    base = root.mutate()
    mon.eq(spec(base), spec(root), "copy", "mutate() without arguments")
    linkage(mon, base, "copy-links")
    mon.check(base == root and hash(base) == hash(root), "copy-equal", lambda: f"copy differs from {root.inspect()}")
    mon.check(not ({id(n) for n in distinct(base)} & {id(n) for n in distinct(root)}), "copy-shared", lambda: f"copy shares nodes with {root.inspect()}")
    root = base
    history = [root]
    for step in range(5):
        all_nodes = distinct(root)
        for n in all_nodes:
            kind = type(n).__name__
            mon.eq(n.node_type, kind, "node-type", "")
            name, got = n.accept_visitor(Recorder())
            mon.check(name == VISITS[kind] and got is n, f"visitor:{kind}", f"{kind} calls {name} with {got}")
            mon.eq(n.tables(), names(spec(n), False), f"tables:{kind}", lambda: n.inspect())
            mon.eq(n.tables(ignore_subqueries=True), names(spec(n), True), f"main-tables:{kind}", lambda: n.inspect())
            walked = list(n.dfs_walk())
            want = list(preorder(n))
            mon.check(len(walked) == len(want) and all(x is y for x, y in zip(walked, want)), "dfs", lambda: f"{walked} instead of {want}")
            leaf = n
            while leaf is not None and leaf.children():
                leaf = leaf.children()[0] if len(leaf.children()) == 1 else None
            mon.check(n.leaf() is leaf, "leaf", lambda: f"leaf of {n!r} is {n.leaf()!r} instead of {leaf!r}")
            mon.eq(len(n.inspect().splitlines()), len(want), "inspect", lambda: n.inspect())
            mon.count("node:" + kind)
        for x, y in zip(rng.choices(all_nodes, k=8), rng.choices(all_nodes, k=8)):
            mon.eq(x == y, spec(x) == spec(y), "node-equality", lambda: f"{x.inspect()} and {y.inspect()}")
        old_spec, old_ids = spec(root), [id(n) for n in all_nodes]
        old_hashes = [hash(n) for n in all_nodes]
        target = rng.choice(all_nodes)
        kind = type(target).__name__
        args, want_attrs, want_kids = {}, dict(spec(target)[1]), list(spec(target)[2])
        for a in ATTRS.get(kind, []):
            if rng.random() < 0.6:
                v = b.attr(kind, a)
                if kind == "Grouping" and not (v or a == "aggregates"):
                    continue
                args[a], want_attrs[a] = v, norm(kind, a, v)
        for i, k in enumerate(INPUTS[kind][:len(target.children())]):
            if rng.random() < 0.4:
                old = target.children()[i]
                r = rng.random()
                if k == "subquery_node":
                    new = relalg.SubqueryScan(old.input_node if r < 0.5 else b.tree(3, []), b.attr("SubqueryScan", "subquery"))
                elif r < 0.35:
                    new = b.tree(4, [])
                elif r < 0.6:
                    new = relalg.Selection(old, b.pred())
                elif r < 0.75 and old.children() and type(old).__name__ != "SubqueryScan":
                    new = old.children()[0]
                elif r < 0.9:
                    new = relalg.CrossProduct(old, b.tree(2, []))
                else:
                    new = rng.choice([n for n in distinct(target)])
                    if new is target and target is root:
                        # the root has a parent afterwards
                        continue
                    if new is target:
                        mon.count("nested-initiator")
                        new = relalg.Selection(target, b.pred())
                args[k], want_kids[i] = new, spec(new)
        as_root, before = rng.random() < 0.25, spec(target)
        want_target = (kind, tuple((a, want_attrs[a]) for a in ATTRS.get(kind, [])), tuple(want_kids))
        want_root = want_target if as_root else spec(root, (target, want_target))
        describe = lambda: f"{kind}.mutate({', '.join(f'{k}={v}' for k, v in args.items())}, as_root={as_root}) in\n{root.inspect()}"
        got = target.mutate(**args, as_root=as_root)
        mon.check(spec(got) == want_target, f"mutate:{kind}:{'+'.join(sorted(args)) or 'nothing'}", lambda: f"{describe()}\n=> {got.inspect()}")
        mon.eq(got == target, want_target == before, "edited-equality", lambda: f"{got.inspect()} and {target.inspect()}")
        mon.check(type(got) is type(target) and got is not target, "mutate-type", lambda: f"{describe()} => {got!r}")
        new_root = got.root()
        mon.check((got is new_root) == (as_root or target is root), "as-root", lambda: f"{describe()}\n=> {new_root.inspect()}")
        mon.check(spec(new_root) == want_root, "mutate-tree", lambda: f"{describe()}\n=> {new_root.inspect()}")
        linkage(mon, new_root, "mutate-links")
        for k, v in args.items():
            if isinstance(v, relalg.RelNode):
                mon.check(all(v is not n for n in distinct(new_root)), "argument-adopted", describe)
        # the old tree is still in use
        mon.check(spec(root) == old_spec and [id(n) for n in distinct(root)] == old_ids and [hash(n) for n in all_nodes] == old_hashes, "old-tree", lambda: f"{describe()} changed the original tree")
        for n in all_nodes:
            if n is not root:
                mon.check(n.root() is root or any(n is x for v in args.values() if isinstance(v, relalg.RelNode) for x in distinct(v)), "old-links", lambda: f"root of {n} in the old tree is {n.root()!r} after {describe()}")
        mon.count("mutations")
        mon.ok(f"mutate:{kind}:{sorted(args)}:{as_root}")
        root = new_root
        history.append((new_root, want_root))
    for r, w in history[1:]:
        mon.check(spec(r) == w, "history", lambda: f"a previous tree changed: {r.inspect()}")


SCENARIOS = [Scenario(queries, quick=400, thorough=12000, cpu=60, name="queries"), Scenario(nodes, quick=1200, thorough=24000, cpu=60, name="nodes")]
