"""Evaluation of relational algebra trees: every operator becomes one SQL fragment over its inputs, independent of the query the tree came from."""
import itertools

from postbound import qal, relalg
from postbound._core import ColumnReference


class Unavailable(Exception):
    """an operator consumes an expression that none of its inputs provides"""


class Unsupported(Exception):
    pass


def scope(node):
    """the operators of the same query, i.e. without the contents of its subqueries"""
    if isinstance(node, relalg.SubqueryScan):
        return frozenset()
    if isinstance(node, relalg.Relation):
        return frozenset([node])
    return frozenset([node]).union(*(scope(c) for c in node.children()))


class Evaluator:
    """strict: complex expressions have to be computed by an operator below their consumer"""

    def __init__(self, quote, strict=True):
        self.q, self.strict = quote, strict
        self.ids = itertools.count()
        self.ops = {}
        self.excess = []

    def new(self, prefix):
        return f"{prefix}{next(self.ids)}"

    # --- expressions ----------------------------------------------------------------------------------------------------

    def lookup(self, e, envs):
        for env in envs:
            if e in env:
                return env[e]
        return None

    def expr(self, e, envs, top=True):
        """SQL text of an expression that is consumed by an operator with the given inputs"""
        hit = self.lookup(e, envs)
        if hit is not None:
            return hit
        if isinstance(e, qal.StaticValueExpression):
            return str(e)
        if isinstance(e, qal.StarExpression):
            return "*"
        if isinstance(e, qal.ColumnExpression):
            raise Unavailable(f"column {e}")
        if isinstance(e, qal.FunctionExpression) and e.is_aggregate():
            raise Unavailable(f"aggregate {e}")
        if isinstance(e, qal.SubqueryExpression):
            raise Unavailable(f"subquery {e}")
        if isinstance(e, qal.AbstractPredicate):
            return self.pred(e, envs)
        if top and self.strict:
            raise Unavailable(f"expression {e}")
        return self.compute(e, envs)

    def compute(self, e, envs):
        sub = lambda x: self.expr(x, envs, False)
        match e:
            case qal.MathExpression():
                second = e.second_arg if isinstance(e.second_arg, (list, tuple)) else [e.second_arg] if e.second_arg is not None else []
                if not second:
                    return f"({e.operator.value} {sub(e.first_arg)})"
                return "(" + f" {e.operator.value} ".join([sub(e.first_arg)] + [sub(x) for x in second]) + ")"
            case qal.CastExpression():
                return f"CAST({sub(e.casted_expression)} AS {e.target_type})"
            case qal.FunctionExpression():
                return self.function(e, envs, False)
            case qal.CaseExpression():
                parts = [f"WHEN {self.pred(c, envs) if isinstance(c, qal.AbstractPredicate) else sub(c)} THEN {sub(r)}" for c, r in e.cases]
                tail = f" ELSE {sub(e.else_expression)}" if e.else_expression is not None else ""
                simple = f"{sub(e.simple_expression)} " if getattr(e, "simple_expression", None) is not None else ""
                return f"(CASE {simple}{' '.join(parts)}{tail} END)"
            case qal.AbstractPredicate():
                return self.pred(e, envs)
            case _:
                return self.expr(e, envs, False)

    def function(self, e, envs, top):
        args = ", ".join(self.expr(a, envs, top) for a in e.arguments)
        dist = "DISTINCT " if e.distinct else ""
        flt = f" FILTER (WHERE {self.pred(e.filter_where, envs)})" if e.filter_where is not None else ""
        return f"{e.function}({dist}{args}){flt}"

    def pred(self, p, envs, top=True):
        hit = self.lookup(p, envs)
        if hit is not None:
            return hit
        ex = lambda x: self.expr(x, envs, top)
        match p:
            case qal.BinaryPredicate():
                return f"({ex(p.first_argument)} {p.operation.value} {ex(p.second_argument)})"
            case qal.BetweenPredicate():
                return f"({ex(p.column)} BETWEEN {ex(p.interval_start)} AND {ex(p.interval_end)})"
            case qal.InPredicate():
                return f"({ex(p.column)} IN ({', '.join(ex(v) for v in p.values)}))"
            case qal.UnaryPredicate():
                col = p.column
                if p.operation == qal.LogicalOperator.Exists:
                    raise Unavailable(f"predicate {p}")
                return f"({self.expr(col, envs, top)})"
            case qal.CompoundPredicate():
                if p.operation == qal.CompoundOperator.Not:
                    return f"(NOT {self.pred(p.children, envs, top)})"
                glue = " AND " if p.operation == qal.CompoundOperator.And else " OR "
                return "(" + glue.join(self.pred(c, envs, top) for c in p.children) + ")"
        raise Unsupported(f"predicate {type(p).__name__} {p}")

    # --- operators ------------------------------------------------------------------------------------------------------

    def rel(self, node, outer=(), bound=frozenset()):
        """-> (SQL of the node, {expression: column}, [columns of the output in order] or None)"""
        self.ops[node.node_type] = self.ops.get(node.node_type, 0) + 1
        if node in bound:
            # a part of the outer query within a dependent subquery designates its current tuple
            return "SELECT 1 AS one", {}, None
        sql, cols, out = getattr(self, "op_" + type(node).__name__)(node, outer, bound)
        # every expression that the node claims to provide has to be part of its output (or of the current tuple of the outer query)
        bogus = [str(e) for e in node.provided_expressions() if e not in cols and self.lookup(e, outer) is None and not isinstance(e, (qal.SubqueryExpression, qal.StaticValueExpression))]
        if bogus:
            self.excess.append((node, sorted(bogus)))
        return sql, cols, out

    def sub(self, node, outer, bound):
        sql, cols, out = self.rel(node, outer, bound)
        t = self.new("t")
        return f"({sql}) AS {t}", {e: f"{t}.{c}" for e, c in cols.items()}, t, cols, out

    def op_Relation(self, node, outer, bound):
        cols, sel = {}, []
        if node.subquery_input is not None:
            frm, env, t, _, out = self.sub(node.subquery_input, outer, bound)
            if out is None:
                raise Unsupported("subquery without projection")
            scan = node.subquery_input
            names = [tgt.target_name or (tgt.expression.column.name if isinstance(tgt.expression, qal.ColumnExpression) else None) for tgt in scan.subquery.select_clause.targets] if not scan.subquery.is_set_query() else self.set_names(scan.subquery)
            by = dict(zip(names, out))
            for c in sorted(node._provided_cols, key=str):
                n = self.new("c")
                if c.column.name not in by:
                    raise Unavailable(f"column {c} of a subquery")
                sel.append(f"{t}.{by[c.column.name]} AS {n}")
                cols[c] = n
        else:
            t = self.new("t")
            frm = f"{self.q(node.table.full_name)} AS {t}"
            for c in sorted(node._provided_cols, key=str):
                n = self.new("c")
                sel.append(f"{t}.{self.q(c.column.name)} AS {n}")
                cols[c] = n
        return f"SELECT {', '.join(sel) or '1 AS one'} FROM {frm}", cols, None

    def set_names(self, query):
        while query.is_set_query():
            query = query.left_query
        return [tgt.target_name or (tgt.expression.column.name if isinstance(tgt.expression, qal.ColumnExpression) else None) for tgt in query.select_clause.targets]

    def op_Selection(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        return f"SELECT {t}.* FROM {frm} WHERE {self.pred(node.predicate, (env,) + outer)}", cols, out

    def product(self, node, outer, bound):
        lf, lenv, lt, lcols, _ = self.sub(node.left_input, outer, bound)
        scalar = isinstance(node.right_input, relalg.SubqueryScan)
        inner = bound | scope(node.left_input) if scalar else bound
        rf, renv, rt, rcols, _ = self.sub(node.right_input, ((lenv,) + outer) if scalar else outer, inner)
        lateral = "LATERAL " if scalar else ""
        env = {**{e: v for e, v in renv.items()}, **lenv}
        cols, sel = {}, []
        for e, v in env.items():
            n = self.new("c")
            cols[e] = n
            sel.append(f"{v} AS {n}")
        return f"SELECT {', '.join(sel) or '1 AS one'} FROM {lf}, {lateral}{rf}", cols, env

    def op_CrossProduct(self, node, outer, bound):
        sql, cols, _ = self.product(node, outer, bound)
        return sql, cols, None

    def op_ThetaJoin(self, node, outer, bound):
        sql, cols, env = self.product(node, outer, bound)
        return f"{sql} WHERE {self.pred(node.predicate, (env,) + outer)}", cols, None

    def setop(self, node, outer, bound):
        ls, lc, lo = self.rel(node.left_input, outer, bound)
        rs, rc, ro = self.rel(node.right_input, outer, bound)
        if lo is not None or ro is not None:
            if lo is None or ro is None or len(lo) != len(ro):
                raise Unsupported(f"inputs of {node.node_type} with different structure")
            pairs = list(zip(lo, ro))
            keys = {e: lo.index(c) for e, c in lc.items() if c in lo}
        else:
            common = [e for e in lc if e in rc]
            pairs = [(lc[e], rc[e]) for e in common]
            keys = {e: i for i, e in enumerate(common)}
        names = [self.new("c") for _ in pairs]
        a, b = self.new("t"), self.new("t")
        left = f"SELECT {', '.join(f'{a}.{l} AS {n}' for (l, _), n in zip(pairs, names)) or '1 AS one'} FROM ({ls}) AS {a}"
        right = f"SELECT {', '.join(f'{b}.{r} AS {n}' for (_, r), n in zip(pairs, names)) or '1 AS one'} FROM ({rs}) AS {b}"
        return left, right, {e: names[i] for e, i in keys.items()}, (names if lo is not None else None), names

    def op_Union(self, node, outer, bound):
        left, right, cols, out, _ = self.setop(node, outer, bound)
        return f"{left} UNION ALL {right}", cols, out

    def member(self, node, outer, bound, neg):
        ls, lc, lo = self.rel(node.left_input, outer, bound)
        rs, rc, ro = self.rel(node.right_input, outer, bound)
        if lo is not None or ro is not None:
            if lo is None or ro is None or len(lo) != len(ro):
                raise Unsupported(f"inputs of {node.node_type} with different structure")
            pairs = list(zip(lo, ro))
        else:
            pairs = [(lc[e], rc[e]) for e in lc if e in rc]
        a, b = self.new("t"), self.new("t")
        cond = " AND ".join(f"{a}.{l} IS NOT DISTINCT FROM {b}.{r}" for l, r in pairs) or "TRUE"
        return f"SELECT {a}.* FROM ({ls}) AS {a} WHERE {neg}EXISTS (SELECT 1 FROM ({rs}) AS {b} WHERE {cond})", lc, lo

    def op_Intersection(self, node, outer, bound):
        return self.member(node, outer, bound, "")

    def op_Difference(self, node, outer, bound):
        return self.member(node, outer, bound, "NOT ")

    def op_Projection(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        res, sel, order = {}, [], []
        for e in node.columns:
            n = self.new("c")
            res.setdefault(e, n)
            order.append(n)
            sel.append(f"{self.expr(e, (env,) + outer)} AS {n}")
        return f"SELECT {', '.join(sel)} FROM {frm}", res, order

    def op_Grouping(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        res, sel, keys = {}, [], []
        for e in node.group_columns:
            n = self.new("c")
            txt = self.expr(e, (env,) + outer)
            res[e] = n
            keys.append(txt)
            sel.append(f"{txt} AS {n}")
        for args, funcs in node.aggregates.items():
            for f in sorted(funcs, key=str):
                n = self.new("c")
                res[f] = n
                sel.append(f"{self.function(f, (env,) + outer, True)} AS {n}")
        return f"SELECT {', '.join(sel)} FROM {frm}" + (f" GROUP BY {', '.join(keys)}" if keys else ""), res, None

    def op_Rename(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        rename = lambda e: qal.ColumnExpression(node.mapping[e.column]) if isinstance(e, qal.ColumnExpression) and e.column in node.mapping else e
        return f"SELECT {t}.* FROM {frm}", {rename(e): c for e, c in cols.items()}, out

    def op_Sort(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        for e, _ in node.sorting:
            if out is None:
                self.expr(e, (env,) + outer)
        return f"SELECT {t}.* FROM {frm}", cols, out

    def op_Map(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        todo = [(args, e) for args, targets in node.mapping.items() for e in targets]
        env, res, sel = dict(env), dict(cols), [f"{t}.*"]
        while todo:
            ready = []
            for args, e in todo:
                inputs = [a for a in (args if isinstance(args, frozenset) else [args])]
                if all(self.lookup(a, (env,) + outer) is not None or isinstance(a, qal.AbstractPredicate) for a in inputs):
                    ready.append((args, e))
            if not ready:
                raise Unavailable(f"arguments of {node}")
            for item in ready:
                todo.remove(item)
                e = item[1]
                n = self.new("c")
                txt = self.compute(e, (env,) + outer) if not self.lookup(e, (env,)) else env[e]
                sel.append(f"{txt} AS {n}")
                env[e] = txt
                res[e] = n
        return f"SELECT {', '.join(sel)} FROM {frm}", res, out

    def op_DuplicateElimination(self, node, outer, bound):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        return f"SELECT DISTINCT {t}.* FROM {frm}", cols, out

    def match(self, node, outer, bound, neg):
        frm, env, t, cols, out = self.sub(node.input_node, outer, bound)
        inner = bound | scope(node.input_node)
        sfrm, senv, st, _, _ = self.sub(node.subquery_node, (env,) + outer, inner)
        cond = f" WHERE {self.pred(node.predicate, (env, senv) + outer)}" if node.predicate is not None else ""
        return f"SELECT {t}.* FROM {frm} WHERE {neg}EXISTS (SELECT 1 FROM {sfrm}{cond})", cols, out

    def op_SemiJoin(self, node, outer, bound):
        return self.match(node, outer, bound, "")

    def op_AntiJoin(self, node, outer, bound):
        return self.match(node, outer, bound, "NOT ")

    def op_SubqueryScan(self, node, outer, bound):
        sql, cols, out = self.rel(node.input_node, outer, bound)
        if out is not None and len(out) == 1:
            cols = {**cols, qal.SubqueryExpression(node.subquery): out[0]}
        return sql, cols, out
