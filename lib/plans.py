"""Abstract models of join trees and query plans, and conversions from/to PostBOUND's objects (public API only)."""
from __future__ import annotations

import math

import postbound as pb
from postbound import IntermediateOperator, JoinOperator, ScanOperator, TableReference
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey, Subplan
from postbound.parser import parse_query

SCANS, JOINS, INTER = list(ScanOperator), list(JoinOperator), list(IntermediateOperator)
AUX_TYPES = ["Aggregate", "Hash", "Gather", "Limit", "Sort", "Materialize", "Memoize", "Unique"]


def pool(rng, n, fancy=True):
    """n tables with distinct identifiers, some aliased, some sharing a base table, some with schema."""
    out = []
    for i in range(n):
        r = rng.random()
        if out and r < 0.15 and fancy:
            base = rng.choice(out).full_name
            out.append(TableReference(base, f"a{i}"))
        elif r < 0.5:
            out.append(TableReference(f"t{i}", f"a{i}"))
        elif r < 0.6 and fancy:
            out.append(TableReference(f"t{i}", f"a{i}" if rng.random() < 0.5 else "", schema="other"))
        else:
            out.append(TableReference(f"t{i}"))
    return out


def tkey(t):
    return (t.schema, t.full_name, t.alias, t.virtual)


def num(x):
    """comparable representation of a possibly unknown number"""
    if x is None:
        return None
    f = float(x)
    return "nan" if math.isnan(f) else f


# --- join orders as nested pairs -------------------------------------------------------------------------------------
def random_order(rng, tables, shape=None):
    """nested pairs over all tables"""
    tables = list(tables)
    rng.shuffle(tables)
    shape = shape or rng.choice(["bushy", "left", "right", "zigzag", "bushy"])
    parts = list(tables)
    if shape == "bushy":
        while len(parts) > 1:
            a = parts.pop(rng.randrange(len(parts)))
            b = parts.pop(rng.randrange(len(parts)))
            parts.append((a, b))
        return parts[0]
    cur = parts[0]
    for t in parts[1:]:
        left = shape == "left" or (shape == "zigzag" and rng.random() < 0.5)
        cur = (cur, t) if left else (t, cur)
    return cur


def leaves(o):
    return [o] if not isinstance(o, tuple) else leaves(o[0]) + leaves(o[1])


def subtrees(o):
    """preorder"""
    return [o] if not isinstance(o, tuple) else [o] + subtrees(o[0]) + subtrees(o[1])


# --- plans -----------------------------------------------------------------------------------------------------------
class Node:
    """model of one plan node"""
    __slots__ = ("kind", "type", "op", "table", "kids", "est", "cost", "act", "time", "workers", "index", "filter", "sort", "lookup", "subplan", "subname",
                 "extra_p", "extra_e", "extra_m", "hits", "misses")

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        self.kids = []
        self.workers, self.index, self.subname = 0, "", ""
        self.sort = []
        self.extra_p, self.extra_e, self.extra_m = {}, {}, {}
        for k, v in kw.items():
            setattr(self, k, v)

    def copy(self):
        c = Node(self.kind)
        for s in self.__slots__:
            setattr(c, s, getattr(self, s))
        c.kids = [k.copy() for k in self.kids]
        c.sort = list(self.sort)
        c.subplan = self.subplan.copy() if self.subplan else None
        c.extra_p, c.extra_e, c.extra_m = dict(self.extra_p), dict(self.extra_e), dict(self.extra_m)
        return c

    def nodes(self):
        """preorder, without subplans"""
        return [self] + [n for k in self.kids for n in k.nodes()]

    def nodes_sub(self):
        """preorder, subplan after the children"""
        out = [self]
        for k in self.kids:
            out += k.nodes_sub()
        if self.subplan:
            out += self.subplan.nodes_sub()
        return out

    def post(self):
        return [n for k in self.kids for n in k.post()] + [self]

    def scans(self):
        return [n.table for n in self.nodes() if n.kind == "scan"]

    def tabs(self):
        """tables that the node covers, including those of subplans"""
        s = set(self.scans())
        for n in self.nodes():
            if n.subplan:
                s |= n.subplan.tabs()
                if n.subname:
                    s.add(TableReference.create_virtual(n.subname))
        return frozenset(s)

    def has_join(self):
        return any(n.kind == "join" for n in self.nodes())

    def snap(self):
        return (self.type, self.op, tkey(self.table) if self.table else None, self.filter, tuple(self.sort), self.workers, self.index, self.lookup,
                num(math.nan if self.est is None else self.est), num(math.nan if self.cost is None else self.cost),
                num(math.nan if self.act is None else self.act), num(math.nan if self.time is None else self.time), self.hits, self.misses,
                tuple(sorted(self.extra_p.items())), tuple(sorted(self.extra_e.items())), tuple(sorted(self.extra_m.items())),
                tuple(k.snap() for k in self.kids), (self.subplan.snap(), self.subname) if self.subplan else None)


PARAM_KEYS = {"base_table", "filter_predicate", "sort_keys", "parallel_workers", "index", "lookup_key"}


def snapshot(plan: QueryPlan):
    """all observable content of a plan"""
    p = plan.params
    return (plan.node_type, plan.operator, tkey(plan.base_table) if plan.base_table else None,
            str(plan.filter_predicate) if plan.filter_predicate else None,
            tuple((tuple(sorted(str(c) for c in k.equivalence_class)), k.ascending) for k in plan.sort_keys),
            plan.parallel_workers, p.index, str(plan.lookup_key) if plan.lookup_key else None,
            num(plan.estimated_cardinality), num(plan.estimated_cost), num(plan.actual_cardinality), num(plan.execution_time),
            plan.measures.cache_hits, plan.measures.cache_misses,
            tuple(sorted((k, v) for k, v in p.items() if k not in PARAM_KEYS)), tuple(sorted(plan.estimates.additional_estimates.items())),
            tuple(sorted(plan.measures.additional_measures.items())),
            tuple(snapshot(c) for c in plan.children), (snapshot(plan.subplan.root), plan.subplan.target_name) if plan.subplan else None)


def random_plan(rng, tables, order=None, aux=0.25, subplans=0.0, filters=True, measures=None, known_est=True, depth=0):
    order = order if order is not None else random_order(rng, tables)
    measures = rng.choice(["all", "none", "some"]) if measures is None else measures

    def decorate(n, tabs):
        n.est = None if (not known_est and rng.random() < 0.2) else rng.choice([0, 1, 7, 42, 1000, 10 ** 9])
        n.cost = None if rng.random() < 0.1 else rng.choice([0.0, 1.5, 1000.25])
        if measures == "all" or (measures == "some" and rng.random() < 0.5):
            n.act, n.time = rng.choice([0, 1, 5, 99, 12345]), rng.choice([0.0, 0.125, 3.5])
            if rng.random() < 0.4:
                n.hits, n.misses = rng.choice([0, 3]), rng.choice([0, 8])
            if rng.random() < 0.2:
                n.extra_m = {"loops": rng.randint(1, 3)}
        if rng.random() < 0.25:
            n.workers = rng.randint(1, 4)
        if filters and tabs and rng.random() < 0.4:
            if n.kind == "scan":
                t = rng.choice(tabs)
                n.filter = f"{t.identifier()}.v > {rng.randint(0, 9)}"
            elif n.kind == "join":
                n.filter = "JOIN"
        if rng.random() < 0.15 and tabs:
            cols = sorted({f"{rng.choice(tabs).identifier()}.{rng.choice('uvw')}" for _ in range(rng.randint(1, 2))})
            n.sort = [(tuple(cols), rng.random() < 0.7)]
        if rng.random() < 0.1:
            n.extra_p = {"note": rng.choice(["x", "y"])}
        if rng.random() < 0.15:
            n.extra_e = {"width": rng.randint(1, 64)}
        if subplans and depth < 2 and rng.random() < subplans:
            sub = [TableReference(f"s{depth}_{rng.randrange(10 ** 6)}") for _ in range(rng.randint(1, 3))]
            n.subplan = random_plan(rng, sub, aux=aux, subplans=subplans, filters=filters, measures=measures, known_est=known_est, depth=depth + 1)
            n.subname = rng.choice(["", "", "sp"])
        return n

    def wrap(n, tabs):
        while rng.random() < aux:
            t = rng.choice(AUX_TYPES)
            op = {"Sort": IntermediateOperator.Sort, "Materialize": IntermediateOperator.Materialize, "Memoize": IntermediateOperator.Memoize}.get(t)
            n = decorate(Node("aux", type=t if op is None else op.name, op=op, kids=[n]), tabs)
        return n

    def build(o):
        if not isinstance(o, tuple):
            op = rng.choice(SCANS)
            n = Node("scan", type=op.name, op=op, table=o)
            if op != ScanOperator.SequentialScan and rng.random() < 0.6:
                n.index = f"idx_{o.full_name}"
                if rng.random() < 0.5:
                    n.lookup = f"{o.identifier()}.u"
            decorate(n, [o])
            return wrap(n, [o])
        a, b = build(o[0]), build(o[1])
        op = rng.choice(JOINS)
        n = Node("join", type=op.name, op=op, kids=[a, b])
        la, lb = leaves(o[0]), leaves(o[1])
        decorate(n, la + lb)
        if n.filter == "JOIN":
            n.filter = f"{rng.choice(la).identifier()}.u = {rng.choice(lb).identifier()}.u"
        return wrap(n, la + lb)
    return build(order)


def sql_tables(tables):
    return ", ".join(str(t) for t in tables)


def make_predicate(text, tables):
    used = [t for t in tables if any(w in text for w in (t.identifier() + ".",))]
    q = parse_query(f"SELECT 1 FROM {sql_tables(used)} WHERE {text}", bind_columns=False)
    return q.where_clause.predicate


def make_expr(text, tables):
    used = [t for t in tables if t.identifier() == text.split(".")[0]]
    q = parse_query(f"SELECT {text} FROM {sql_tables(used)}", bind_columns=False)
    return q.select_clause.targets[0].expression


def to_plan(n: Node, split=True) -> QueryPlan:
    """build the plan through the public constructor (individual keyword arguments, or component objects)"""
    tabs = n.scans()
    pred = make_predicate(n.filter, tabs) if n.filter else None
    keys = [SortKey.for_equivalence_class([make_expr(c, tabs) for c in cols], ascending=asc) for cols, asc in n.sort]
    lookup = make_expr(n.lookup, tabs) if n.lookup else None
    est = pb.Cardinality.unknown() if n.est is None else pb.Cardinality(n.est)
    act = pb.Cardinality.unknown() if n.act is None else pb.Cardinality(n.act)
    cost, time = math.nan if n.cost is None else n.cost, math.nan if n.time is None else n.time
    kids = [to_plan(k, split) for k in n.kids]
    sub = Subplan(to_plan(n.subplan, split), n.subname) if n.subplan else None
    args = dict(operator=n.op, children=kids)
    if split and not n.extra_e and not n.extra_m:
        args |= dict(base_table=n.table, filter_predicate=pred, sort_keys=keys or None, parallel_workers=n.workers or None, index=n.index or None, lookup_key=lookup,
                     estimated_cardinality=est, estimated_cost=cost, actual_cardinality=act, execution_time=time, cache_hits=n.hits, cache_misses=n.misses,
                     **n.extra_p)
        if sub:
            args |= dict(subplan_root=sub.root, subplan_target_name=sub.target_name)
        return QueryPlan(n.type, **args)
    return QueryPlan(n.type, **args, plan_params=PlanParams(base_table=n.table, filter_predicate=pred, sort_keys=keys or None, parallel_workers=n.workers or None,
                                                            index=n.index or None, lookup_key=lookup, **n.extra_p),
                     estimates=PlanEstimates(cardinality=est, cost=cost, **n.extra_e),
                     measures=PlanMeasures(cardinality=act, execution_time=time, cache_hits=n.hits, cache_misses=n.misses, **n.extra_m), subplan=sub)
