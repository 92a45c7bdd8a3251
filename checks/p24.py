"""P24: EXPLAIN documents against an independent walk over the same document."""
import json
import math
import random
import warnings

import postbound as pb
from postbound import _qep, duckdb, mysql, postgres
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound.parser import parse_query

from lib import db as dbl
from lib import sqlgen
from lib.vlib import Scenario

PROPERTY = "P24"
TECHNIQUE = ("differential monitoring: EXPLAIN documents (generated in the Postgres, MySQL and DuckDB formats, and reported live by DuckDB) are given to the real extraction code and "
             "every node of the returned plan is compared in lockstep with an independent walk over the raw document")
RULE = ("random plan trees with all documented Postgres node types (scans, bitmap trees, joins, hash/materialize/memoize/sort, append, subquery scans, gather, init plans, sub plans, CTEs), with and without ANALYZE and BUFFERS; "
        "DuckDB operator trees and live plans of random queries; MySQL nested loops with wrappers and derived tables; distinct by system x tree shape")
ASSUMPTIONS = ["Postgres and MySQL documents are synthetic: no server is available here", "timings are the numbers of the document (no multiplication by loops)",
               "MySQL documents with several statement trees below one query block (unions, sub-queries of the SELECT list) and messages instead of plans are not generated",
               "DuckDB's EXPLAIN reports no aliases: tables of self joins are judged only if they bind at all", "sort keys and names of sub-plan targets are not judged"]
LEVEL_NOTE = "exact lockstep comparison of every plan node against the raw document on seeded random plan trees"
REQUIRE = {"pg-plans": 600, "pg-nodes": 6000, "pg-analyze": 200, "pg-parallel": 100, "pg-subplans": 150, "pg-optimizer": 100, "duck-synth": 300, "duck-live": 80, "duck-analyze": 40, "duck-live-joins": 60, "mysql-plans": 300, "mysql-derived": 30}


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, Cardinality) or isinstance(b, Cardinality):
        fa, fb = float(a), float(b)
    else:
        fa, fb = a, b
    if isinstance(fa, float) and math.isnan(fa):
        return isinstance(fb, float) and math.isnan(fb)
    return fa == fb or (not isinstance(fb, str) and math.isclose(fa, fb, rel_tol=1e-9))


def card(x):
    return Cardinality(x)


# ------------------------------------------------------------------ Postgres

PG_SCANS = {"Seq Scan": ScanOperator.SequentialScan, "Index Scan": ScanOperator.IndexScan, "Index Only Scan": ScanOperator.IndexOnlyScan, "Bitmap Heap Scan": ScanOperator.BitmapScan}
PG_JOINS = {"Nested Loop": JoinOperator.NestedLoopJoin, "Hash Join": JoinOperator.HashJoin, "Merge Join": JoinOperator.SortMergeJoin}
PG_AUX = {"Materialize": IntermediateOperator.Materialize, "Memoize": IntermediateOperator.Memoize, "Sort": IntermediateOperator.Sort}
PG_OPS = PG_SCANS | PG_JOINS | PG_AUX


class PgGen:
    def __init__(self, rng, analyze, buffers, multi=False):
        self.r, self.analyze, self.buffers, self.multi = rng, analyze, buffers, multi
        self.n = 0
        self.feats = set()
        self.subplans = 0

    def base(self, ntype, rel):
        r = self.r
        total = round(r.choice([0.0, r.uniform(0, 5), r.uniform(0, 1e6)]), 2)
        d = {"Node Type": ntype}
        if rel:
            d["Parent Relationship"] = rel
        d["Parallel Aware"] = False
        d["Startup Cost"] = round(total * r.random(), 2)
        d["Total Cost"] = total
        d["Plan Rows"] = r.choice([1, 0, r.randint(1, 50), r.randint(1, 10 ** 7)])
        d["Plan Width"] = r.randint(0, 200)
        if self.analyze:
            loops = r.choice([1, 1, 1, 0, r.randint(2, 5000)])
            d["Actual Startup Time"] = round(r.uniform(0, 3), 3) if loops else 0.0
            d["Actual Total Time"] = round(d["Actual Startup Time"] + r.uniform(0, 900), 3) if loops else 0.0
            d["Actual Rows"] = r.choice([0, 1, r.randint(1, 10 ** 6)]) if loops else 0
            d["Actual Loops"] = loops
            if self.buffers:
                d["Shared Hit Blocks"] = r.choice([0, r.randint(1, 9999)])
                d["Shared Read Blocks"] = r.choice([0, r.randint(1, 9999)])
                d["Shared Dirtied Blocks"] = 0
                d["Shared Written Blocks"] = 0
                d["Temp Read Blocks"] = r.randint(0, 9)
                d["Temp Written Blocks"] = r.randint(0, 9)
        self.n += 1
        return d

    def rel(self, d):
        r = self.r
        name = r.choice(["title", "cast_info", "info_type", "Odd Name", "movie_keyword", "t"])
        d["Relation Name"] = name
        if r.random() < 0.3:
            d["Schema"] = "public"
        d["Alias"] = r.choice([name, name, "t", f"x{self.n}", f"{name}_1"])

    def scan(self, rel, depth):
        r = self.r
        kind = r.choice(["Seq Scan", "Seq Scan", "Index Scan", "Index Only Scan", "Bitmap Heap Scan", "Sample Scan", "Foreign Scan", "Tid Scan", "Function Scan", "Values Scan", "CTE Scan", "WorkTable Scan", "Result"]
                        if r.random() < 0.5 else ["Seq Scan", "Index Scan", "Index Only Scan", "Bitmap Heap Scan"])
        d = self.base(kind, rel)
        if kind in ("Seq Scan", "Index Scan", "Index Only Scan", "Bitmap Heap Scan", "Sample Scan", "Foreign Scan", "Tid Scan"):
            self.rel(d)
        elif kind in ("CTE Scan", "WorkTable Scan"):
            d["CTE Name"] = r.choice(["cte", "c2"])
            d["Alias"] = r.choice([d["CTE Name"], "q"])
        elif kind in ("Function Scan", "Values Scan"):
            d["Alias"] = "*VALUES*" if kind == "Values Scan" else "generate_series"
        if kind in ("Index Scan", "Index Only Scan"):
            d["Scan Direction"] = "Forward"
            d["Index Name"] = r.choice(["title_pkey", "idx_1", "Idx Odd"])
            if r.random() < 0.7:
                d["Index Cond"] = "(id = 5)"
        if kind != "Result" and r.random() < 0.4:
            d["Filter"] = "(x > 3)"
            if self.analyze:
                d["Rows Removed by Filter"] = r.randint(0, 99)
        if kind == "Bitmap Heap Scan":
            d["Recheck Cond"] = "(x = 3)"
            d["Plans"] = [self.bitmap("Outer", 2)]
        return d

    def bitmap(self, rel, depth):
        r = self.r
        if depth and r.random() < 0.3:
            d = self.base(r.choice(["BitmapAnd", "BitmapOr"]), rel)
            self.feats.add("bitmapop")
            d["Plans"] = [self.bitmap("Member", depth - 1) for _ in range(r.randint(2, 3))]
            return d
        d = self.base("Bitmap Index Scan", rel)
        d["Index Name"] = r.choice(["ci_idx", "mk_idx"])
        d["Index Cond"] = "(x = 3)"
        return d

    def node(self, depth, rel=None, par=False):
        r = self.r
        if depth <= 0:
            d = self.scan(rel, depth)
        else:
            kind = r.choices(["join", "unary", "append", "subquery", "gather", "scan"], [6, 4, 1, 1, 0 if par else 1.2, 1.5])[0]
            if kind == "join":
                jt = r.choice(list(PG_JOINS))
                d = self.base(jt, rel)
                d["Join Type"] = r.choice(["Inner", "Left", "Right", "Full", "Semi", "Anti"])
                outer = self.node(depth - 1, "Outer", par)
                inner = self.node(depth - 1, "Inner", par)
                if jt == "Hash Join":
                    h = self.base("Hash", "Inner")
                    inner["Parent Relationship"] = "Outer"
                    h["Plans"] = [inner]
                    inner = h
                    d["Hash Cond"] = "(a.x = b.y)"
                elif jt == "Nested Loop" and r.random() < 0.5:
                    h = self.base(r.choice(["Materialize", "Memoize"]), "Inner")
                    inner["Parent Relationship"] = "Outer"
                    h["Plans"] = [inner]
                    inner = h
                if r.random() < 0.3:
                    d["Join Filter"] = "(a.x < b.y)"
                d["Plans"] = [outer, inner]
            elif kind == "unary":
                k = r.choice(["Sort", "Incremental Sort", "Aggregate", "Materialize", "Memoize", "Limit", "Unique", "Group", "WindowAgg", "LockRows", "ProjectSet", "Result", "SetOp"])
                d = self.base(k, rel)
                if "Sort" in k:
                    d["Sort Key"] = ["a.x", "b.y DESC"]
                if k == "Aggregate":
                    d["Strategy"] = r.choice(["Plain", "Sorted", "Hashed"])
                    d["Partial Mode"] = "Simple"
                d["Plans"] = [self.node(depth - 1, "Outer", par)]
            elif kind == "append":
                d = self.base(r.choice(["Append", "Merge Append"]), rel)
                d["Plans"] = [self.node(depth - 1, "Member", par) for _ in range(r.randint(1, 4))]
                self.feats.add("append")
            elif kind == "subquery":
                d = self.base("Subquery Scan", rel)
                d["Alias"] = "dt"
                d["Plans"] = [self.node(depth - 1, "Subquery", par)]
                self.subplans += 1
                self.feats.add("subqueryscan")
            elif kind == "gather":
                d = self.base(r.choice(["Gather", "Gather Merge"]), rel)
                d["Workers Planned"] = r.randint(1, 5)
                if self.analyze:
                    d["Workers Launched"] = r.randint(1, d["Workers Planned"])
                d["Single Copy"] = False
                d["Plans"] = [self.node(depth - 1, "Outer", True)]
                self.feats.add("gather")
            else:
                d = self.scan(rel, depth)
        if d["Node Type"] != "Subquery Scan" and r.random() < 0.12 and depth >= 0:
            n = 2 if self.multi and r.random() < 0.5 else 1
            for i in range(n):
                rel2 = r.choice(["InitPlan", "SubPlan"])
                sub = self.node(min(depth - 1, 1), rel2, par)
                sub["Subplan Name"] = r.choice([f"InitPlan {i + 1} (returns $0)", "CTE cte", f"SubPlan {i + 1}"])
                kids = d.setdefault("Plans", [])
                if rel2 == "InitPlan":
                    kids.insert(0, sub)
                else:
                    kids.append(sub)
                self.subplans += 1
                self.feats.add(rel2)
            if n > 1:
                self.feats.add("multi")
        return d


def pg_check(mon, d, plan, payload, factor=1, loose=False):
    """d: raw node, plan: extracted node."""
    mon.count("pg-nodes")
    nt = d["Node Type"]

    def bad(what, got, want):
        mon.fail(f"pg-{what}", f"{nt}: {what} is {got!r}, but the document says {want!r}", payload)

    if plan.node_type != nt:
        bad("node-type", plan.node_type, nt)
    if plan.operator != PG_OPS.get(nt):
        bad("operator", plan.operator, PG_OPS.get(nt))
    if plan.is_scan() != (nt in PG_SCANS) or plan.is_join() != (nt in PG_JOINS):
        bad("kind", (plan.is_scan(), plan.is_join()), nt)
    want = None
    if d.get("Relation Name"):
        alias = d.get("Alias", "")
        want = (d["Relation Name"], "" if alias == d["Relation Name"] else alias)
    got = None if plan.base_table is None else (plan.base_table.full_name, plan.base_table.alias)
    if got != want:
        bad("table", got, want)
    rows = d["Plan Rows"]
    ok = [card(rows * factor)] + ([card(rows)] if loose else [])
    if not any(same(plan.estimated_cardinality, o) for o in ok):
        bad("estimate", plan.estimated_cardinality, ok)
    if not same(plan.estimated_cost, d["Total Cost"]):
        bad("cost", plan.estimated_cost, d["Total Cost"])
    if "Actual Rows" in d and nt not in ("BitmapAnd", "BitmapOr"):
        if not same(plan.actual_cardinality, card(d["Actual Rows"] * d["Actual Loops"])):
            bad("actual", plan.actual_cardinality, d["Actual Rows"] * d["Actual Loops"])
    elif "Actual Rows" not in d and not plan.actual_cardinality.isnan():
        bad("actual", plan.actual_cardinality, None)
    if "Actual Total Time" in d:
        if not same(plan.execution_time, d["Actual Total Time"] / 1000):
            bad("time", plan.execution_time, d["Actual Total Time"] / 1000)
    elif not math.isnan(plan.execution_time):
        bad("time", plan.execution_time, None)
    if plan.is_analyze() != ("Actual Rows" in d):
        bad("analyze", plan.is_analyze(), "Actual Rows" in d)
    wk = d.get("Workers Launched") or d.get("Workers Planned") or 0
    if (plan.parallel_workers or 0) != wk:
        bad("workers", plan.parallel_workers, wk)
    if (plan.params.index or "") != d.get("Index Name", ""):
        bad("index", plan.params.index, d.get("Index Name", ""))
    for attr, key in (("cache_hits", "Shared Hit Blocks"), ("cache_misses", "Shared Read Blocks")):
        if not same(getattr(plan.measures, attr), d.get(key)):
            bad(attr, getattr(plan.measures, attr), d.get(key))

    kids = d.get("Plans", [])
    direct = sorted((k for k in kids if k["Parent Relationship"] in ("Outer", "Inner", "Member")), key=lambda k: ["Outer", "Inner", "Member"].index(k["Parent Relationship"]))
    subs = [k for k in kids if k["Parent Relationship"] not in ("Outer", "Inner", "Member")]
    if len(plan.children) != len(direct):
        bad("children", [c.node_type for c in plan.children], [k["Node Type"] for k in direct])
    f = factor if factor > 1 else d.get("Workers Planned", 0) + 1
    for c, k in zip(plan.children, direct):
        pg_check(mon, k, c, payload, f, loose)
    if nt in PG_JOINS:
        if plan.outer_child is not plan.children[0] or plan.inner_child is not plan.children[1]:
            bad("inner/outer", None, None)
    if not subs:
        if plan.subplan is not None:
            bad("subplan", plan.subplan, None)
    elif plan.subplan is None or plan.subplan.root is None:
        bad("subplan", None, [k["Node Type"] for k in subs])
    elif len(subs) == 1:
        mon.count("pg-subplans")
        pg_check(mon, subs[0], plan.subplan.root, payload, f, loose or f > 1)
    else:
        # known finding several-subplans: just one of them survives; that one has to be intact
        mon.count("pg-multi-subplans")
        from lib.vlib import Violation
        err = None
        for s in reversed(subs):
            try:
                pg_check(mon, s, plan.subplan.root, payload, f, loose or f > 1)
                break
            except Violation as e:
                err = err or e
        else:
            raise err


def shape(d):
    return (d["Node Type"], tuple(shape(k) for k in d.get("Plans", [])))


class FakePg:
    """Answers EXPLAIN statements with a prepared document."""

    def __init__(self, doc):
        self.doc, self.seen = doc, []
        self._hinting_backend = self

    def format_query(self, query):
        return str(query)

    def execute_query(self, query, **kwargs):
        self.seen.append((str(query), kwargs))
        return [self.doc]


def pg_scenario(mon, rng):
    for _ in range(6):
        analyze = rng.random() < 0.5
        g = PgGen(rng, analyze, rng.random() < 0.5, multi=rng.random() < 0.1)
        root = g.node(rng.randint(0, 4))
        doc = {"Plan": root}
        if analyze or rng.random() < 0.2:
            doc["Planning Time"] = round(rng.uniform(0, 9), 3)
        if analyze:
            doc["Execution Time"] = round(rng.uniform(0, 999), 3)
        frozen = json.dumps(doc)
        payload = {"doc": doc}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            form = rng.choice([doc, [doc], [(doc,)], (doc,)])
            opt = postgres.PostgresOptimizer(None)
            route = rng.choice(["plan", "parse", "query", "analyze"])
            if route == "plan":
                ep = postgres.PostgresExplainPlan(rng.choice([doc, [doc]]))
                plan = ep.as_qep()
                mon.check(ep.is_analyze() == analyze, "pg-explain-analyze", "wrong analyze flag", payload)
                mon.check(same(ep.planning_time, doc.get("Planning Time", math.nan) / 1000) and same(ep.execution_time, doc.get("Execution Time", math.nan) / 1000),
                          "pg-explain-times", lambda: f"planning {ep.planning_time} execution {ep.execution_time}", payload)
                text = ep.inspect()
                mon.check(sum(1 for x in _walk(root)) == sum(1 for line in text.splitlines() if "(cost=" in line), "pg-inspect", "inspect does not list each node once", payload)
            elif route == "parse":
                plan = opt.parse_plan(form)
            else:
                fake = FakePg(doc)
                opt = postgres.PostgresOptimizer(fake)
                q = parse_query("SELECT * FROM t WHERE t.x = 1", bind_columns=False)
                arg = q if route == "analyze" or rng.random() < 0.5 else rng.choice(["SELECT * FROM t", "EXPLAIN (FORMAT JSON) SELECT * FROM t"])
                plan = opt.query_plan(arg) if route == "query" else opt.analyze_plan(q)
                sql = fake.seen[0][0].upper()
                mon.check(len(fake.seen) == 1 and sql.startswith("EXPLAIN") and sql.count("EXPLAIN") == 1 and "JSON" in sql and ("ANALYZE" in sql) == (route == "analyze") and not fake.seen[0][1].get("cache_enabled"),
                          "pg-explain-statement", lambda: f"sent {fake.seen}", payload)
                mon.count("pg-optimizer")
                if route == "query":
                    mon.check(same(opt.cardinality_estimate(arg), card(root["Plan Rows"])), "pg-cardinality-estimate", "wrong estimate", payload)
                    mon.check(same(opt.cost_estimate(arg), root["Total Cost"]), "pg-cost-estimate", "wrong cost", payload)
            pg_check(mon, root, plan, payload)
            mon.check(json.dumps(doc) == frozen, "pg-document-modified", "the document was modified", payload)
        mon.count("pg-plans")
        if analyze:
            mon.count("pg-analyze")
        if "gather" in g.feats:
            mon.count("pg-parallel")
        mon.ok(("pg", hash(shape(root)) % 100000, analyze))


def _walk(d):
    yield d
    for k in d.get("Plans", []):
        yield from _walk(k)


def known_several(mon):
    def sc(t, rel):
        return {"Node Type": "Seq Scan", "Parent Relationship": rel, "Relation Name": t, "Alias": t, "Total Cost": 1.0, "Plan Rows": 1}
    root = {"Node Type": "Result", "Total Cost": 1.0, "Plan Rows": 1, "Plans": [sc("a", "InitPlan"), sc("b", "InitPlan")]}
    plan = postgres.PostgresExplainPlan({"Plan": root}).as_qep()
    found = {t.full_name for n in plan.iternodes() for t in [n.base_table] if t} | ({t.full_name for t in plan.subplan.tables()} if plan.subplan else set())
    mon.check(found == {"a", "b"}, "several-subplans", lambda: f"two init plans scan a and b, the plan only knows {found}", root)


KNOWN = {"several-subplans": known_several}


# ------------------------------------------------------------------ DuckDB

DUCK_JOINS = {"HASH_JOIN": JoinOperator.HashJoin, "NESTED_LOOP_JOIN": JoinOperator.NestedLoopJoin, "BLOCKWISE_NL_JOIN": JoinOperator.NestedLoopJoin, "CROSS_PRODUCT": JoinOperator.NestedLoopJoin,
              "PIECEWISE_MERGE_JOIN": JoinOperator.SortMergeJoin, "IE_JOIN": JoinOperator.SortMergeJoin}


def duck_op(d):
    name = (d.get("name") or d.get("operator_name")).strip()
    if name in ("SEQ_SCAN", "TABLE_SCAN"):
        return {"Sequential Scan": ScanOperator.SequentialScan, "Index Scan": ScanOperator.IndexScan}.get(d.get("extra_info", {}).get("Type"))
    return DUCK_JOINS.get(name)


def duck_unwrap(d):
    while not (d.get("name") or d.get("operator_name")) or (d.get("name") or d.get("operator_name")) in ("EXPLAIN", "EXPLAIN_ANALYZE"):
        d = d["children"][0]
    return d


def duck_check(mon, d, plan, payload, tables=None, counter="duck-nodes"):
    mon.count(counter)
    name = d.get("name") or d.get("operator_name")
    op = duck_op(d)

    def bad(what, got, want):
        mon.fail(f"duck-{what}", f"{name}: {what} is {got!r}, but the document says {want!r}", payload)

    if plan.operator != op:
        bad("operator", plan.operator, op)
    if op is None and plan.node_type.strip() != name.strip():
        bad("node-type", plan.node_type, name)
    if op is not None and (plan.is_join() != (op in JoinOperator) or plan.is_scan() != (op in ScanOperator)):
        bad("kind", plan.node_type, name)
    extra = d.get("extra_info", {})
    if not same(plan.estimated_cardinality, card(float(extra.get("Estimated Cardinality", math.nan)))):
        bad("estimate", plan.estimated_cardinality, extra.get("Estimated Cardinality"))
    if not same(plan.actual_cardinality, card(d.get("operator_cardinality", math.nan))):
        bad("actual", plan.actual_cardinality, d.get("operator_cardinality"))
    want_t = duck_time(d)
    if not same(plan.execution_time, want_t):
        bad("time", plan.execution_time, want_t)
    if op in ScanOperator if op is not None else False:
        if tables is not None:
            cands = [t for t in tables if t[0] == extra.get("Table")]
            got = None if plan.base_table is None else (plan.base_table.full_name, plan.base_table.alias)
            if len(cands) == 1 and got != cands[0]:
                bad("table", got, cands[0])
            if got is not None and got not in cands:
                bad("table", got, cands)
    elif plan.base_table is not None:
        bad("table", plan.base_table, None)
    if len(plan.children) != len(d.get("children", [])):
        bad("children", [c.node_type for c in plan.children], [k.get("name") or k.get("operator_name") for k in d.get("children", [])])
    for c, k in zip(plan.children, d.get("children", [])):
        duck_check(mon, k, c, payload, tables, counter)
    if plan.is_join() and (plan.outer_child is not plan.children[0] or plan.inner_child is not plan.children[1]):
        bad("inner/outer", None, None)


def duck_time(d):
    return d.get("operator_timing", math.nan) + sum(duck_time(k) for k in d.get("children", []))


def duck_node(rng, depth, analyze, tabs):
    key = "operator_name" if analyze else "name"

    def mk(name, extra, kids):
        if rng.random() < 0.9:
            extra["Estimated Cardinality"] = str(rng.choice([0, 1, rng.randint(2, 10 ** 7)]))
        d = {key: name, "extra_info": extra, "children": kids}
        if analyze:
            d["operator_timing"] = rng.choice([0.0, rng.random(), 1e-7])
            d["operator_cardinality"] = rng.choice([0, 1, rng.randint(1, 10 ** 6)])
        return d

    def scan():
        if rng.random() < 0.15 or not tabs:
            return mk(rng.choice(["DUMMY_SCAN", "COLUMN_DATA_SCAN", "CTE_SCAN", "EMPTY_RESULT"]), {}, [])
        extra = {"Table": tabs.pop(), "Type": rng.choice(["Sequential Scan", "Sequential Scan", "Index Scan"])}
        if rng.random() < 0.5:
            extra["Filters"] = rng.choice(["x=3", ["x=3", "y>2"], ""])
        return mk("TABLE_SCAN" if analyze and rng.random() < 0.7 else rng.choice(["SEQ_SCAN ", "SEQ_SCAN"]), extra, [])

    if depth <= 0:
        return scan()
    k = rng.random()
    if k < 0.5:
        a = duck_node(rng, depth - 1, analyze, tabs)
        b = duck_node(rng, depth - 1, analyze, tabs)
        return mk(rng.choice(list(DUCK_JOINS)), {"Join Type": "INNER", "Conditions": "a = b"}, [a, b])
    if k < 0.85:
        return mk(rng.choice(["PROJECTION", "FILTER", "UNGROUPED_AGGREGATE", "PERFECT_HASH_GROUP_BY", "HASH_GROUP_BY", "TOP_N", "ORDER_BY", "WINDOW"]), {}, [duck_node(rng, depth - 1, analyze, tabs)])
    if k < 0.93:
        return mk("UNION", {}, [duck_node(rng, depth - 1, analyze, tabs) for _ in range(rng.randint(2, 3))])
    return scan()


def duck_shape(d):
    return (d.get("name") or d.get("operator_name"), tuple(duck_shape(k) for k in d.get("children", [])))


def duck_synth(mon, rng):
    for _ in range(6):
        analyze = rng.random() < 0.5
        names = rng.sample(["t1", "t2", "t3", "t4", "t5", "t6", "Odd T"], rng.randint(1, 5))
        tabs = list(names)
        root = duck_node(rng, rng.randint(0, 4), analyze, tabs)
        alias = {n: rng.choice(["", f"x{i}"]) for i, n in enumerate(names)}
        use_query = rng.random() < 0.8
        query = None
        if use_query:
            query = parse_query("SELECT * FROM " + ", ".join(dbl.q(n) + (f" AS {a}" if a else "") for n, a in alias.items()), bind_columns=False)
        doc = root
        if analyze:
            doc = {"latency": 0.1, "extra_info": {}, "children": [{"operator_name": "EXPLAIN_ANALYZE", "extra_info": {}, "operator_timing": 1e-7, "operator_cardinality": 0, "children": [root]}]}
        frozen = json.dumps(doc)
        form = rng.choice([doc, [doc], [("physical_plan", doc)], ("physical_plan", doc), [("physical_plan", json.dumps(doc))], ("physical_plan", json.dumps([doc])), [("physical_plan", json.dumps([doc]))], json.dumps(doc)])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plan = duckdb.DuckDBOptimizer(None).parse_plan(form, query=query)
        payload = {"doc": doc, "query": str(query), "form": type(form).__name__}
        duck_check(mon, root, plan, payload, list(alias.items()) if use_query else None)
        mon.check(json.dumps(doc) == frozen, "duck-document-modified", "the document was modified", payload)
        mon.count("duck-synth")
        mon.ok(("duck", hash(duck_shape(root)) % 100000, analyze))


def duck_live(mon, rng):
    iface, _ = dbl.postbound_db(f"{mon.tmp}/p24_{rng.randrange(10**9)}.db", rng)
    try:
        for _ in range(8):
            r = rng.random()
            if r < 0.6:
                sql, tabs, *_ = sqlgen.spj(rng, n_tables=rng.randint(1, 5), equi=rng.random() < 0.6)
            else:
                sql = sqlgen.Gen(rng, sqlgen.Opts(odd_names=False)).query().sql
            try:
                query = parse_query(sql, bind_columns=False)
            except Exception:
                mon.count("duck-unparsable")
                continue
            if not isinstance(query, pb.SqlQuery) or query.explain is not None or query.hints is not None:
                continue
            seen = []
            orig = iface.execute_query

            def spy(*a, **k):
                res = orig(*a, **k)
                seen.append(res)
                return res

            tables = [(t.full_name, t.alias) for t in query.tables() if not t.virtual]
            unique = tables if r < 0.6 else None
            payload = {"sql": sql}
            try:
                raw = iface.cursor().execute("EXPLAIN (FORMAT JSON) " + iface.hinting().format_query(query)).fetchall()
            except Exception as e:
                mon.count("duck-rejected")
                if "INTERNAL" in str(e).upper() or "Invalidated" in type(e).__name__:
                    return
                continue
            doc = json.loads(raw[0][1])
            doc = duck_unwrap(doc[0] if isinstance(doc, list) else doc)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                how = rng.choice(["query_plan", "parse_plan", "text"])
                if how == "query_plan":
                    plan = iface.optimizer().query_plan(query)
                elif how == "text":
                    plan = iface.optimizer().query_plan(iface.hinting().format_query(query))
                else:
                    plan = iface.optimizer().parse_plan(raw, query=query)
                duck_check(mon, doc, plan, payload, unique if how != "text" else None, "duck-live-nodes")
                mon.count("duck-live")
                if any(n.is_join() for n in plan.iternodes()):
                    mon.count("duck-live-joins")
                est = doc.get("extra_info", {}).get("Estimated Cardinality")
                if est is not None:
                    mon.check(same(iface.optimizer().cardinality_estimate(query), card(float(est))), "duck-cardinality-estimate", lambda: f"not {est}", payload)
                if rng.random() < 0.7:
                    try:
                        rows = iface.cursor().execute(iface.hinting().format_query(query)).fetchall()
                    except Exception as e:
                        mon.count("duck-failed")
                        if "INTERNAL" in str(e).upper() or "Invalidated" in type(e).__name__:
                            return
                        continue
                    iface.execute_query = spy
                    plan = None
                    try:
                        plan = iface.optimizer().analyze_plan(query) if rng.random() < 0.7 else iface.optimizer().analyze_plan(query, timeout=60)
                    except Exception:
                        # the engine answers some counts from its metadata and reports no plan at all
                        if seen and '"result": "error"' in str(seen[0]):
                            mon.count("duck-no-plan")
                            continue
                        raise
                    finally:
                        del iface.execute_query
                    mon.count("duck-analyze")
                    mon.check(plan is not None and plan.is_analyze(), "duck-analyze-flag", "no measurements", payload)
                    mon.check(unique is None or same(plan.actual_cardinality, card(len(rows))), "duck-root-rows", lambda: f"the plan produces {plan.actual_cardinality} rows, the query {len(rows)}", payload)
                    if len(seen) == 1:
                        rawdoc = seen[0]
                        while not isinstance(rawdoc, (str, dict)):
                            rawdoc = rawdoc[-1]
                        rawdoc = json.loads(rawdoc) if isinstance(rawdoc, str) else rawdoc
                        duck_check(mon, duck_unwrap(rawdoc[0] if isinstance(rawdoc, list) else rawdoc), plan, payload, unique, "duck-analyze-nodes")
            mon.ok(("live", hash(duck_shape(doc)) % 100000))
    finally:
        iface.close()


# ------------------------------------------------------------------ MySQL

MY_SCANS = {"system": None, "const": None, "eq_ref": ScanOperator.IndexScan, "ref": ScanOperator.IndexScan, "range": ScanOperator.IndexScan, "index": ScanOperator.IndexScan, "ref_or_null": ScanOperator.IndexScan,
            "index_merge": ScanOperator.BitmapScan, "ALL": ScanOperator.SequentialScan, "fulltext": ScanOperator.IndexScan}
MY_BUFFERS = {None: JoinOperator.NestedLoopJoin, "Block Nested Loop": JoinOperator.NestedLoopJoin, "Batched Key Access": JoinOperator.NestedLoopJoin, "Batched Key Access (unique)": JoinOperator.NestedLoopJoin, "hash join": JoinOperator.HashJoin}
WRAPPERS = ["grouping_operation", "ordering_operation", "duplicate_removal", "buffer_result"]


def my_table(rng, name, first):
    t = {"table_name": name, "access_type": rng.choice(list(MY_SCANS) + ["ALL", "ref"])}
    if t["access_type"] != "ALL":
        t["key"] = "PRIMARY"
    t["rows_examined_per_scan"] = rng.choice([1, rng.randint(1, 10 ** 6)])
    t["rows_produced_per_join"] = rng.choice([1, rng.randint(1, 10 ** 7)])
    t["filtered"] = rng.choice(["100.00", "33.33", "10.00", "0.05"])
    if not first and rng.random() < 0.5:
        t["using_join_buffer"] = rng.choice([b for b in MY_BUFFERS if b])
    if rng.random() < 0.9:
        t["cost_info"] = {"read_cost": f"{rng.uniform(0, 99):.2f}", "eval_cost": f"{rng.uniform(0.1, 99):.2f}", "prefix_cost": f"{rng.uniform(0.1, 9999):.2f}", "data_read_per_join": "1K"}
    t["used_columns"] = ["id"]
    return t


def my_block(rng, names, derived):
    tabs = []
    for i, n in enumerate(names):
        t = my_table(rng, n, i == 0)
        if n in derived:
            t["materialized_from_subquery"] = {"using_temporary_table": True, "dependent": False, "cacheable": True, "query_block": {"select_id": 2, "cost_info": {"query_cost": "3.00"}} | my_block(rng, derived[n], {})}
        tabs.append({"table": t})
    body = {"nested_loop": tabs} if len(tabs) > 1 else tabs[0]
    for _ in range(rng.choice([0, 0, 1, 2])):
        body = {rng.choice(WRAPPERS): {"using_filesort": rng.random() < 0.5, "using_temporary_table": False, "cost_info": {"sort_cost": "3.50"}} | body}
    return body


def my_check(mon, body, plan, names, payload):
    def bad(what, got, want):
        mon.fail(f"mysql-{what}", f"{what} is {got!r}, but the document says {want!r}", payload)

    mon.count("mysql-nodes")
    w = next((k for k in WRAPPERS if k in body), None)
    if w:
        if plan.operator is not None or plan.base_table is not None or len(plan.children) != 1 or plan.node_type.lower().replace(" ", "_") != w:
            bad("wrapper", (plan.node_type, plan.operator, len(plan.children)), w)
        return my_check(mon, body[w], plan.children[0], names, payload)
    if "nested_loop" in body and len(body["nested_loop"]) > 1:
        *former, last = body["nested_loop"]
        lt = last["table"]
        op = MY_BUFFERS[lt.get("using_join_buffer")]
        if plan.operator != op:
            bad("join-operator", plan.operator, op)
        if len(plan.children) != 2:
            bad("join-children", len(plan.children), 2)
        if not same(plan.estimated_cardinality, card(float(lt["rows_produced_per_join"]))):
            bad("join-estimate", plan.estimated_cardinality, lt["rows_produced_per_join"])
        cost = float(lt["cost_info"]["prefix_cost"]) if "cost_info" in lt else math.nan
        if not same(plan.estimated_cost, cost):
            bad("join-cost", plan.estimated_cost, cost)
        my_check(mon, {"nested_loop": former}, plan.outer_child, names, payload)
        return my_check(mon, last, plan.inner_child, names, payload)
    t = body["nested_loop"][0]["table"] if "nested_loop" in body else body["table"]
    if plan.operator != MY_SCANS[t["access_type"]]:
        bad("scan-operator", plan.operator, t["access_type"])
    got = None if plan.base_table is None else plan.base_table.identifier()
    if names is not None:
        if got != t["table_name"]:
            bad("table", got, t["table_name"])
        if t["table_name"] in names and names[t["table_name"]] != plan.base_table.full_name:
            bad("table", plan.base_table, names[t["table_name"]])
    est = card(float(t["filtered"]) / 100 * t["rows_examined_per_scan"])
    if not same(plan.estimated_cardinality, est):
        bad("scan-estimate", plan.estimated_cardinality, est)
    cost = float(t["cost_info"]["read_cost"]) + float(t["cost_info"]["eval_cost"]) if "cost_info" in t else math.nan
    if not same(plan.estimated_cost, cost):
        bad("scan-cost", plan.estimated_cost, cost)
    sub = t.get("materialized_from_subquery")
    kids = list(plan.children) + ([plan.subplan.root] if plan.subplan is not None else [])
    if (sub is None) != (not kids):
        bad("subquery", kids, sub and list(sub))
    if sub is not None:
        mon.count("mysql-derived")
        if len(kids) != 1:
            bad("subquery", kids, 1)
        my_check(mon, sub["query_block"], kids[0], names, payload)


def mysql_scenario(mon, rng):
    for _ in range(6):
        base = ["title", "cast_info", "info_type", "name"]
        n = rng.randint(1, 5)
        names, frm = {}, []
        order = []
        for i in range(n):
            t = rng.choice(base)
            alias = rng.choice(["", f"x{i}", rng.choice(base)])
            ident = alias or t
            if ident in names:
                ident = alias = f"y{i}"
            names[ident] = t
            order.append(ident)
            frm.append(t + (f" AS {alias}" if alias else ""))
        derived = {}
        if rng.random() < 0.3:
            inner = {f"d{i}": rng.choice(base) for i in range(rng.randint(1, 3))}
            names |= inner
            derived["dt"] = list(inner)
            frm.append("(SELECT * FROM " + ", ".join(f"{t} AS {a}" for a, t in inner.items()) + ") AS dt")
            order.append("dt")
        rng.shuffle(order)
        body = my_block(rng, order, derived)
        doc = {"query_block": {"select_id": 1, "cost_info": {"query_cost": f"{rng.uniform(1, 999):.2f}"}} | body}
        sql = "SELECT * FROM " + ", ".join(frm)
        query = parse_query(sql, bind_columns=False)
        payload = {"doc": doc, "sql": sql}
        frozen = json.dumps(doc)
        given = rng.random() < 0.85
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if rng.random() < 0.5:
                plan = mysql.parse_mysql_explain_plan(query if given else None, doc).as_qep()
            else:
                plan = mysql.MysqlOptimizer(None).parse_plan(doc, query=query if given else None)
        my_check(mon, doc["query_block"], plan, names if given else None, payload)
        mon.check(json.dumps(doc) == frozen, "mysql-document-modified", "the document was modified", payload)
        mon.count("mysql-plans")
        mon.ok(("mysql", n, bool(derived), tuple(k for k in WRAPPERS if k in json.dumps(doc))))


SCENARIOS = [Scenario(pg_scenario, quick=240, thorough=4000), Scenario(duck_synth, quick=120, thorough=2000), Scenario(duck_live, quick=40, thorough=500, cpu=120), Scenario(mysql_scenario, quick=120, thorough=2000)]
