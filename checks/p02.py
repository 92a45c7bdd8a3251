"""P02: JSON serialization round-trips preserve every object."""
import datetime
import json
import math
import pathlib

import postbound as pb
from postbound import JoinTree, LogicalJoinTree, TableReference, ColumnReference, parser, util
from postbound._hints import PhysicalOperatorAssignment, PlanParameterization, JoinOperatorAssignment, ScanOperatorAssignment, DirectionalJoinOperatorAssignment
from postbound.opt import read_jointree_json, read_operator_assignment_json, read_operator_json, read_plan_params_json, read_query_plan_json
from postbound.opt._helpers import parse_nested_table_sequence
from postbound.parser import load_column_json, load_expression_json, load_predicate_json, load_table_json, parse_query
from postbound.qal import AbstractPredicate

from lib import sqlgen
from lib.plans import INTER, JOINS, SCANS, leaves, num, pool, random_order, random_plan, snapshot, tkey, to_plan
from lib.vlib import Scenario

PROPERTY = "P02"
TECHNIQUE = ("round-trip monitor: every generated object is written with the library's encoder, read back with the library's readers, and compared component by component "
             "with the original and with the model it was generated from; the JSON text itself has to be valid")
RULE = ("random tables/columns (schemas, aliases, virtual, quoted names), every expression and predicate inside random queries, whole queries, generic and logical join "
        "trees (also empty), operator assignments with workers and directions, plan parameters, query plans with subplans/sort keys/lookup keys; distinct by type and text")
ASSUMPTIONS = ["JSON NaN/Infinity literals are accepted, as by Python's json module", "annotations and extra plan properties are JSON values themselves",
               "cardinalities below 2**53",
               "expressions with subqueries over CTEs of the enclosing query are not self-contained and therefore not decoded in isolation"]
REQUIRE = {"tables": 500, "expressions": 3000, "predicates": 200, "queries": 250, "jointrees": 300, "assignments": 300, "params": 300, "plans": 300}

NAMES = ["t", "Movie Info", "select", "a.b", "ä", 'q"t', "it's", "X", "t1", "order"]


def text(obj, rng, mon):
    s = util.to_json(obj)
    mon.check(isinstance(s, str), "encoder-text", lambda: f"{obj!r} -> {s!r}")
    data = json.loads(s)
    return s if rng.random() < 0.5 else data


def random_table(rng):
    k = rng.random()
    name, alias, schema = rng.choice(NAMES), rng.choice(["", "", *NAMES]), rng.choice(["", "", "s", "Other"])
    if k < 0.2:
        return TableReference("", rng.choice(NAMES), virtual=True)
    if k < 0.3:
        return TableReference(name, rng.choice(NAMES), virtual=True, schema=schema)
    return TableReference(name, alias, schema=schema)


def tables(mon, rng):
    for _ in range(4):
        t = random_table(rng)
        r = load_table_json(text(t, rng, mon))
        mon.check(r == t and tkey(r) == tkey(t) and str(r) == str(t), "table", lambda: f"{t!r} -> {r!r}", key=("table", tkey(t)))
        mon.count("tables")
        c = ColumnReference(rng.choice(NAMES), t if rng.random() < 0.8 else None)
        r = load_column_json(text(c, rng, mon))
        mon.check(r == c and r.name == c.name and (r.table is None) == (c.table is None) and (not c.table or tkey(r.table) == tkey(c.table)), "column",
                  lambda: f"{c!r} -> {r!r}", key=("col", c.name, tkey(t)))
    mon.check(load_table_json(None) is None and load_column_json("") is None, "empty", "empty input is None")
    order = random_order(rng, [random_table(rng) for _ in range(rng.randint(1, 4))])

    def lists(o):
        return [lists(x) for x in o] if isinstance(o, tuple) else o

    def keys(o):
        return [keys(x) for x in o] if isinstance(o, (list, tuple)) else tkey(o)
    mon.eq(keys(parse_nested_table_sequence(json.loads(util.to_json(lists(order))))), keys(order), "table-sequence", f"{order}", key=("seq", len(leaves(order))))


def walk(e):
    yield e
    for c in e.iterchildren():
        yield from walk(c)


def virtuals(e):
    return {(t.full_name, t.alias, t.virtual, t.schema) for c in e.itercolumns() if (t := c.table)}


def expressions(mon, rng):
    g = sqlgen.Gen(rng, sqlgen.Opts(ctes=rng.random() < 0.3))
    sql = g.query().sql
    try:
        q = parse_query(str(parse_query(sql, bind_columns=False)), bind_columns=False)
    except parser.ParserError:
        return
    selects = [q]
    todo = list(q.subqueries()) if hasattr(q, "subqueries") else []
    selects += todo
    for s in selects:
        for clause in s.clauses():
            if "Hint" in type(clause).__name__ or "Explain" in type(clause).__name__:
                continue
            for top in clause.iterexpressions():
                for e in walk(top):
                    if rng.random() < 0.3:
                        continue
                    one(mon, rng, e, sql)


def one(mon, rng, e, sql):
    if str(e) == "*" or (sql.startswith("WITH") and "SELECT" in str(e)):  # a subquery over CTEs of the enclosing query is not self-contained
        return
    data = text(e, rng, mon)
    if isinstance(e, AbstractPredicate):
        r = load_predicate_json(data)
        mon.count("predicates")
        what = "predicate"
    else:
        r = load_expression_json(data)
        mon.count("expressions")
        what = "expression"
    mon.check(type(r) is type(e) and r == e and hash(r) == hash(e) and str(r) == str(e), what, lambda: f"{e!s} ({type(e).__name__}) -> {r!s} ({type(r).__name__})\nin {sql}",
              key=(what, type(e).__name__, str(e)[:80]))
    mon.check(r.tables() == e.tables() and r.columns() == e.columns(), f"{what}-tables", lambda: f"{e!s}: {e.tables()} vs {r.tables()}\nin {sql}")
    if "SELECT" not in str(e):
        mon.check(virtuals(r) == virtuals(e), f"{what}-virtual", lambda: f"{e!s}: {virtuals(e)} vs {virtuals(r)}\nin {sql}")


def queries(mon, rng):
    g = sqlgen.Gen(rng, sqlgen.Opts())
    sql = g.query().sql
    q = parse_query(str(parse_query(sql, bind_columns=False)), bind_columns=False)
    if rng.random() < 0.3:
        q = pb.transform.add_clause(q, pb.qal.Hint("SET x TO 1;", "/*+ Leading(r s) */"))
    enc = util.to_json(q)
    r = parse_query(json.loads(enc), bind_columns=False)
    mon.count("queries")
    third = parse_query(str(r), bind_columns=False)
    mon.check(str(r) == str(q) and third == r and (r == q or r.hints), "query", lambda: f"{sql}\n{q}\n{r}", key=("query", sql[:200]))


def jointrees(mon, rng):
    tabs = [random_table(rng) for _ in range(rng.randint(1, 6))]
    logical = rng.random() < 0.5
    cls = LogicalJoinTree if logical else JoinTree

    def ann():
        if logical:
            return rng.choice([None, *[pb.Cardinality(x) for x in (0, 1, 12345, 10 ** 12, math.inf, math.nan)]])
        return rng.choice([None, 1, "x", [1, 2], {"a": 1}])

    def build(o):
        return cls.join(build(o[0]), build(o[1]), annotation=ann()) if isinstance(o, tuple) else cls.scan(o, annotation=ann())
    tree = cls.empty() if rng.random() < 0.05 else build(random_order(rng, tabs))
    r = read_jointree_json(text(tree, rng, mon))

    def same(a, b):
        if a.is_empty() or b.is_empty():
            return a.is_empty() and b.is_empty()
        x, y = a.annotation, b.annotation
        if logical:
            if (x is None) != (y is None) or num(x) != num(y) or not (y is None or isinstance(y, pb.Cardinality)):
                return False
        elif x != y:
            return False
        if a.is_scan() or b.is_scan():
            return a.is_scan() and b.is_scan() and tkey(a.base_table) == tkey(b.base_table)
        return same(a.outer_child, b.outer_child) and same(a.inner_child, b.inner_child)
    mon.check(type(r) is cls and r == tree and same(tree, r), "jointree", lambda: f"{tree!r} -> {r!r} ({type(r)})", key=("jt", logical, len(tabs), tree.is_empty()))
    mon.count("jointrees")


def opsig(a):
    return (type(a).__name__, a.operator, getattr(a, "table", None) and tkey(a.table), frozenset(map(tkey, getattr(a, "join", []))),
            frozenset(map(tkey, getattr(a, "inner", []))), frozenset(map(tkey, getattr(a, "outer", []))), num(a.parallel_workers))


def assignments(mon, rng):
    tabs = [random_table(rng) for _ in range(rng.randint(2, 5))]
    a = PhysicalOperatorAssignment()
    for _ in range(rng.randint(0, 8)):
        w = rng.choice([math.nan, 0, 1, 4])
        k = rng.randrange(5)
        s = list(set(rng.sample(tabs, rng.randint(2, len(tabs)))))
        if k == 0:
            x = ScanOperatorAssignment(rng.choice(SCANS), rng.choice(tabs), w)
            a.add(x)
        elif k == 1 and len(s) > 1:
            x = JoinOperatorAssignment(rng.choice(JOINS), s, parallel_workers=w)
            a.add(x)
        elif k == 2 and len(s) > 1:
            x = DirectionalJoinOperatorAssignment(rng.choice(JOINS), s[:1], s[1:], parallel_workers=w)
            a.add(x)
        elif k == 3:
            x = rng.choice(INTER)
            a.set_intermediate_operator(x, s)
        else:
            x = rng.choice(SCANS + JOINS + INTER)
            a.set(x, rng.random() < 0.5)
        r = read_operator_json(text(x, rng, mon))
        if isinstance(x, (ScanOperatorAssignment, JoinOperatorAssignment)):
            mon.check(r == x and opsig(r) == opsig(x), "operator", lambda: f"{opsig(x)} -> {opsig(r)}", key=("op", opsig(x)))
        else:
            mon.check(r is x, "operator", lambda: f"{x} -> {r}", key=("op", x))
    r = read_operator_assignment_json(text(a, rng, mon))
    mon.count("assignments")
    mon.check({k: opsig(v) for k, v in r.scan_operators.items()} == {k: opsig(v) for k, v in a.scan_operators.items()}
              and {k: opsig(v) for k, v in r.join_operators.items()} == {k: opsig(v) for k, v in a.join_operators.items()}
              and r.intermediate_operators == a.intermediate_operators and r.global_settings == a.global_settings, "assignment", lambda: f"{a} -> {r}",
              key=("asg", len(a.scan_operators), len(a.join_operators), len(a.intermediate_operators), len(a.global_settings)))
    mon.check(r == a and hash(r) == hash(a), "assignment-eq", lambda: f"{a} -> {r}")


def params(mon, rng):
    tabs = [random_table(rng) for _ in range(rng.randint(1, 5))]
    p = PlanParameterization()
    for _ in range(rng.randint(0, 6)):
        s = rng.sample(tabs, rng.randint(1, len(tabs)))
        k = rng.randrange(4)
        if k == 0:
            p.add_cardinality(s, rng.choice([0, 1, 42, 10 ** 14, math.inf]))
        elif k == 1:
            p.set_workers(s, rng.randint(0, 9))
        elif k == 2:
            p.set_system_settings(rng.choice(["work_mem", "jit"]), rng.choice(["4MB", 1, False, None, 0.5]))
        else:
            p.execution_mode = rng.choice(["sequential", "parallel", None])
    r = read_plan_params_json(text(p, rng, mon))
    mon.count("params")
    mon.check(r.cardinalities == p.cardinalities and all(isinstance(c, pb.Cardinality) for c in r.cardinalities.values()) and r.parallel_workers == p.parallel_workers
              and r.system_settings == p.system_settings and r.execution_mode == p.execution_mode, "plan-params", lambda: f"{p} {p.execution_mode} -> {r} {r.execution_mode}",
              key=("par", len(p.cardinalities), len(p.parallel_workers), len(p.system_settings), p.execution_mode))
    mon.check({frozenset(map(tkey, s)) for s in r.cardinalities} == {frozenset(map(tkey, s)) for s in p.cardinalities}, "plan-params-tables", lambda: f"{p} {r}")


def plans(mon, rng):
    tabs = pool(rng, rng.randint(1, 6))
    m = random_plan(rng, tabs, aux=rng.choice([0, 0.3]), subplans=rng.choice([0, 0.2]), known_est=rng.random() < 0.6)
    plan = to_plan(m, split=rng.random() < 0.5)
    r = read_query_plan_json(text(plan, rng, mon))
    mon.count("plans")
    mon.check(r == plan and hash(r) == hash(plan), "plan-eq", lambda: f"{plan} -> {r}")
    a, b = snapshot(plan), snapshot(r)
    mon.eq(a, m.snap(), "plan-original", str(plan))
    mon.eq(b, a, "plan", str(plan), key=("plan", len(m.nodes()), str(plan)[:80]))
    for x, y in zip(plan, r):
        mon.check(isinstance(y.estimated_cardinality, pb.Cardinality) and type(x.operator) is type(y.operator), "plan-types", str(plan))
        if x.filter_predicate:
            mon.check(x.filter_predicate == y.filter_predicate and set(map(tkey, x.filter_predicate.tables())) == set(map(tkey, y.filter_predicate.tables())),
                      "plan-predicate", lambda: f"{x.filter_predicate!r} {y.filter_predicate!r}")


def cardinalities(mon, rng):
    for v in (0, 1, rng.randint(0, 2 ** 53), math.inf, math.nan, rng.random() * 1000):
        c = pb.Cardinality(v)
        r = pb.Cardinality(json.loads(util.to_json(c)))
        mon.check(r == c and r.is_valid() == c.is_valid() and r.isnan() == c.isnan() and r.isinf() == c.isinf(), "cardinality", lambda: f"{c!r} -> {r!r}", key=("card", str(v)[:6]))
    d = {"p": pathlib.Path("/a/b"), "d": datetime.date(2020, 1, 2), "t": datetime.timedelta(seconds=90), "op": rng.choice(SCANS), "s": {1}, "f": frozenset(["x"])}
    got = json.loads(util.to_json(d))
    mon.eq(got, {"p": "/a/b", "d": "2020-01-02", "t": 90.0, "op": d["op"].value, "s": [1], "f": ["x"]}, "encoder-values", "")


SCENARIOS = [Scenario(tables, quick=200, thorough=3000), Scenario(expressions, quick=300, thorough=4000), Scenario(queries, quick=400, thorough=5000),
             Scenario(jointrees, quick=400, thorough=5000), Scenario(assignments, quick=400, thorough=5000), Scenario(params, quick=400, thorough=4000),
             Scenario(plans, quick=450, thorough=6000), Scenario(cardinalities, quick=60, thorough=400)]
