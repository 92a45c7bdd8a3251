"""P31: the native stages return what the underlying database system says about exactly the requested plan."""
import math
import random
import warnings
import zlib

from postbound import ColumnReference, TableReference, parse_query
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound._hints import PhysicalOperatorAssignment, jointree_from_plan, operators_from_plan
from postbound._qep import QueryPlan, SortKey
from postbound.db import DatabaseServerError, DatabaseUserError
from postbound.opt import native
from postbound.postgres import PostgresInterface
from postbound.qal import ColumnExpression

from lib.vlib import Scenario

PROPERTY = "P31"
TECHNIQUE = ("model-based monitoring: the native stages run against a stand-in database whose engine model records every hinted query and prices exactly the plan in the hints; the returned costs and decisions are compared with "
             "independently computed costs of the plan, and the recorded queries with the tables, predicates and sort orders that belong to the plan")
RULE = ("random chain/star/cyclic join queries with filters, plans over connected subsets (scans, joins, index scans, sort, materialize and memoize at the root), estimated and actual cardinalities, an engine that refuses plain index scans, "
        "ignores hints or fails; distinct by root operator x number of tables x behaviour of the engine")
ASSUMPTIONS = ["the database is a stand-in: its answers follow the hints unless it is told to misbehave", "memoize nodes have a lookup key of their own input; sort keys are columns",
               "whether raise_on_error applies to materialize and memoize nodes is left open"]
LEVEL_NOTE = "exact comparison with the engine model on seeded random queries and plans"
REQUIRE = {"costs": 3000, "scan": 200, "join": 500, "index": 200, "index-count": 60, "materialize": 250, "memoize": 250, "sort": 250, "engine-errors": 150, "raised": 40, "ignored-hints": 60, "no-consumer": 30, "unsupported": 60, "actual-cards": 500,
           "stages": 600, "given-order": 150, "given-operators": 150}

JOINS = [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin]
SCANS = [ScanOperator.SequentialScan, ScanOperator.BitmapScan, ScanOperator.IndexScan, ScanOperator.IndexOnlyScan]
INDEX = (ScanOperator.IndexScan, ScanOperator.IndexOnlyScan)


def number(*parts):
    return 1 + zlib.crc32(repr(parts).encode()) % 100000 / 7


def names(tables):
    return sorted(t.identifier() for t in tables)


def card_of(node, actual):
    got, est = float(node.actual_cardinality), float(node.estimated_cardinality)
    return got if actual and not math.isnan(got) else est


def price(node, actual):
    own = number(node.node_type, names(node.tables()), card_of(node, actual), [names(c.tables()) for c in node.children], str(node.lookup_key), [str(k) for k in node.sort_keys])
    return own + sum(price(c, actual) for c in node.children)


def annotate(node):
    """What EXPLAIN returns for a plan that follows the hints."""
    return QueryPlan(node.node_type, operator=node.operator, children=[annotate(c) for c in node.children], plan_params=node.params, estimated_cardinality=node.estimated_cardinality, estimated_cost=price(node, False))


class Hinted:
    def __init__(self, query, plan=None, **kw):
        self.query, self.plan, self.kw = query, plan, kw


class Engine:
    """Hinting service, optimizer and schema of the stand-in at once."""

    def __init__(self, rng, columns):
        self.rng, self.columns_of = rng, columns
        self.hinted, self.mode, self.plain, self.asked = [], "follow", None, []

    # hinting
    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        h = Hinted(query, plan, join_order=join_order, physical_operators=physical_operators, plan_parameters=plan_parameters)
        self.hinted.append(h)
        return h

    # schema
    def columns(self, table):
        return {ColumnReference(c, table) for c in self.columns_of}

    # optimizer
    def fail(self):
        raise self.rng.choice([DatabaseServerError, DatabaseUserError])("stand-in")

    def cost_estimate(self, h):
        self.asked.append(h)
        if not isinstance(h, Hinted):
            return number(str(h))
        if self.mode == "error":
            self.fail()
        if self.mode in ("picky", "picky-ignore", "picky-error", "picky-other") and h.plan.operator in INDEX and "count(*)" not in str(h.query).lower():
            self.fail()
        order = [str(e) for e in h.query.orderby_clause.expressions] if h.query.orderby_clause else None
        return price(h.plan, False) + (number("order", order) if order else 0)

    def query_plan(self, h):
        self.asked.append(h)
        if not isinstance(h, Hinted) or h.plan is None:
            return self.plain
        if self.mode in ("error", "picky-error"):
            self.fail()
        root = annotate(h.plan)
        if self.mode in ("ignore", "picky-ignore", "picky-other"):
            def other(n):
                op = JoinOperator.HashJoin if n.is_join() else ScanOperator.SequentialScan
                if self.mode == "picky-other":
                    op = next(o for o in INDEX if o != n.operator)
                kids = [other(c) for c in n.children]
                if n.operator in (IntermediateOperator.Materialize, IntermediateOperator.Memoize):
                    return kids[0]
                return QueryPlan(op, children=kids, base_table=n.base_table, estimated_cost=number("other", names(n.tables())))
            root = other(root)
        if self.rng.random() < 0.5:
            root = QueryPlan(self.rng.choice(["Aggregate", "Gather"]), children=root, estimated_cost=price(root, False) + 3)
        return root


def make_db(base, engine):
    class Stub(base):
        def __init__(self):
            pass

        def hinting(self):
            return engine

        def optimizer(self):
            return engine

        def schema(self):
            return engine

        def describe(self):
            return {"name": "stand-in"}

        def __repr__(self):
            return "stand-in"

        def __hash__(self):
            return id(self)

        def __eq__(self, other):
            return self is other

        def __del__(self):
            pass
    return Stub()


COLS = ["id", "a", "b"]


def make_query(rng):
    n = rng.randint(2, 6)
    tabs = [TableReference(t, rng.choice([t[0] + str(i), ""])) for i, t in enumerate(rng.sample(["title", "cast_info", "info", "kind", "names", "link", "role"], n))]
    shape = rng.choice(["chain", "star", "random", "cycle"])
    edges = []
    for i in range(1, n):
        edges.append((i - 1 if shape in ("chain", "cycle") else 0 if shape == "star" else rng.randrange(i), i))
    if shape == "cycle" and n > 2:
        edges.append((0, n - 1))
    preds = []
    for a, b in edges:
        preds.append(({tabs[a], tabs[b]}, f"{tabs[a].identifier()}.{rng.choice(COLS)} = {tabs[b].identifier()}.{rng.choice(COLS)}"))
    for t in tabs:
        if rng.random() < 0.4:
            preds.append(({t}, f"{t.identifier()}.{rng.choice(COLS)} {rng.choice(['<', '>', '='])} {rng.randint(0, 9)}"))
    rng.shuffle(preds)
    tail = rng.choice(["", "", f" ORDER BY {tabs[0].identifier()}.id", ""])
    head = rng.choice(["*", "count(*)", f"{tabs[-1].identifier()}.a"]) if not tail else "*"
    sql = f"SELECT {head} FROM {', '.join(f'{t.full_name} AS {t.alias}' if t.alias else t.full_name for t in tabs)} WHERE {' AND '.join(p for _, p in preds)}{tail}"
    return parse_query(sql, bind_columns=False), sql, tabs, edges, preds


def connected(rng, tabs, edges, size):
    got = {rng.randrange(len(tabs))}
    while len(got) < size:
        got.add(rng.choice([y for a, b in edges for x, y in ((a, b), (b, a)) if x in got and y not in got]))
    return got


def build(rng, tabs, ids, edges, scans=SCANS, inner_aux=True):
    """Random plan over the connected tables `ids`."""
    cards = {}
    r = rng.random()
    if r < 0.8:
        cards["estimated_cardinality"] = Cardinality(rng.randint(1, 5000))
    if rng.random() < 0.4:
        cards["actual_cardinality"] = Cardinality(rng.randint(1, 5000))
    if len(ids) == 1:
        return QueryPlan(rng.choice(scans), base_table=tabs[next(iter(ids))], **cards)
    ids = set(ids)
    while True:
        left = connected(rng, tabs, [(a, b) for a, b in edges if a in ids and b in ids], 1) & ids or {next(iter(ids))}
        target = rng.randint(1, len(ids) - 1)
        for _ in range(50):
            if len(left) == target:
                break
            more = [y for a, b in edges for x, y in ((a, b), (b, a)) if x in left and y in ids and y not in left]
            if not more:
                break
            left.add(rng.choice(more))
        right = ids - left
        if right and is_connected(right, edges):
            break
    kids = [build(rng, tabs, left, edges, scans), build(rng, tabs, right, edges, scans)]
    op = rng.choice(JOINS)
    if inner_aux and op == JoinOperator.NestedLoopJoin and rng.random() < 0.3:
        kids[1] = QueryPlan(IntermediateOperator.Materialize, children=kids[1], estimated_cardinality=kids[1].estimated_cardinality, actual_cardinality=kids[1].actual_cardinality)
    return QueryPlan(op, children=kids, **cards)


def is_connected(ids, edges):
    seen, todo = set(), [next(iter(ids))]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [b if a == x else a for a, b in edges if x in (a, b) and (b if a == x else a) in ids]
    return seen == set(ids)


def texts(query):
    return sorted(" ".join(str(p).split()) for p in (query.predicates().root.base_predicates() if query.predicates() else []))


def judge_query(mon, query, tables, preds, what):
    mon.eq(names(query.tables()), names(tables), "fragment-tables", what)
    mon.eq(texts(query), sorted(" ".join(p.split()) for ts, p in preds if ts <= set(tables)), "fragment-predicates", what)


def costs(mon, rng):
    query, sql, tabs, edges, preds = make_query(rng)
    engine = Engine(rng, COLS)
    raising = rng.random() < 0.4
    for _ in range(6):
        kind = rng.choice(["scan", "join", "join", "index", "sort", "materialize", "memoize"])
        foreign = kind in ("materialize", "memoize") and rng.random() < 0.15
        db = make_db(object if foreign else PostgresInterface, engine)
        model = native.NativeCostModel(raise_on_error=raising, verbose=rng.random() < 0.5)
        model.initialize(db, query)
        n = 1 if kind in ("scan", "index") else rng.randint(2, len(tabs)) if kind == "join" else rng.randint(1, len(tabs))
        if kind in ("materialize", "memoize") and n == len(tabs):
            n -= 1
        ids = connected(rng, tabs, edges, n)
        tables = {tabs[i] for i in ids}
        plain = [ScanOperator.SequentialScan, ScanOperator.BitmapScan]
        base = build(rng, tabs, ids, edges, scans=list(INDEX) if kind == "index" else plain if n == 1 else SCANS)
        plan = base
        if kind == "sort":
            keys = []
            for t in rng.sample(sorted(tables), rng.randint(1, len(tables))):
                own = ColumnExpression(ColumnReference(rng.choice(COLS), t))
                more = [ColumnExpression(ColumnReference(rng.choice(COLS), x)) for x in tabs if x not in tables][:1] if rng.random() < 0.5 else []
                keys.append(SortKey.for_equivalence_class([own] + more))
            plan = QueryPlan(IntermediateOperator.Sort, children=base, sort_keys=keys, estimated_cardinality=base.estimated_cardinality)
        elif kind == "materialize":
            plan = QueryPlan(IntermediateOperator.Materialize, children=base, estimated_cardinality=base.estimated_cardinality)
        elif kind == "memoize":
            t = rng.choice(sorted(tables))
            plan = QueryPlan(IntermediateOperator.Memoize, children=base, lookup_key=ColumnExpression(ColumnReference(rng.choice(COLS), t)), estimated_cardinality=base.estimated_cardinality)
        engine.hinted, engine.asked = [], []
        engine.mode = rng.choice(["follow", "follow", "follow", "error", "ignore"])
        if kind == "index":
            engine.mode = rng.choice(["follow", "picky", "picky", "picky-ignore", "picky-error", "picky-other", "error"] if "count(*)" not in sql else ["follow", "error"])
        what = lambda: f"{kind} over {names(tables)} of {sql}, engine: {engine.mode}"
        mon.count("costs")
        mon.count(kind)
        raised = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                cost = model.estimate_cost(query, plan)
            except (DatabaseServerError, DatabaseUserError) as e:
                raised, cost = e, None
        actual = any(not math.isnan(float(x.actual_cardinality)) for x in plan.iternodes()) if hasattr(plan, "iternodes") else False
        mon.count("actual-cards", actual)
        mon.ok((kind, n, engine.mode, raising, foreign))
        if raised is not None:
            mon.count("raised")
            mon.check(raising and engine.mode not in ("follow", "picky"), "raised", lambda: f"{what()}: {raised!r}")
            continue
        for h in engine.hinted:
            if kind in ("materialize", "memoize") and not foreign:
                extra = h.query.tables() - tables
                mon.eq(len(extra), 1, "consumer", what)
                known = {tabs[a if tabs[b] in tables else b] for a, b in edges if (tabs[a] in tables) != (tabs[b] in tables)}
                mon.check(extra <= known, "consumer", lambda: f"{what()}: {extra} is not joined with the plan")
                judge_query(mon, h.query, tables | extra, preds, what)
            else:
                judge_query(mon, h.query, tables, preds, what)
        if kind in ("materialize", "memoize"):
            key = plan.lookup_key.column.table if kind == "memoize" else None
            partners = [tabs[b if tabs[a] in tables else a] for a, b in edges if (tabs[a] in tables) != (tabs[b] in tables) and (key is None or key in (tabs[a], tabs[b]))]
            if foreign or not partners:
                mon.count("unsupported" if foreign else "no-consumer")
                mon.check(cost == math.inf, "no-cost", lambda: f"{what()}: {cost} without a possible estimate")
            elif engine.mode != "follow":
                mon.count("ignored-hints" if engine.mode == "ignore" else "engine-errors")
                mon.check(cost == math.inf, "failed-cost", lambda: f"{what()}: {cost}")
            else:
                want = {price(plan, False), price(plan, True)}
                mon.check(any(math.isclose(cost, w) for w in want), "auxiliary-cost", lambda: f"{what()}: {cost} instead of {want}", {"plan": plan.explain()})
            continue
        if engine.mode in ("error", "picky-error", "picky-ignore", "picky-other"):
            mon.count("ignored-hints" if engine.mode in ("picky-ignore", "picky-other") else "engine-errors")
            mon.check(cost == math.inf and not raising, "failed-cost", lambda: f"{what()}: {cost}, raise_on_error={raising}")
            continue
        want = price(base, True)
        if kind == "index" and engine.mode == "picky":
            mon.count("index-count")
        if kind == "sort":
            order = [e for h in engine.asked for e in h.query.orderby_clause.expressions]
            mon.check(len(order) == len(plan.sort_keys) and all(e.column in k.equivalence_class and e.column.columns() <= {ColumnReference(c, t) for c in COLS for t in tables} for e, k in zip(order, plan.sort_keys)), "sort-order",
                      lambda: f"{what()}: {[str(e) for e in order]} instead of {plan.sort_keys}")
            mon.check(all(isinstance(c, ColumnReference) for h in engine.asked for c in h.query.orderby_clause.columns()), "sort-columns", lambda: f"{what()}: {engine.asked[0].query.orderby_clause.columns()}")
            want += number("order", [str(e) for e in order])
        elif query.orderby_clause and engine.asked and engine.asked[-1].query.orderby_clause:
            want += number("order", [str(e) for e in query.orderby_clause.expressions]) if engine.mode != "picky" else 0
        mon.check(math.isclose(cost, want), "cost", lambda: f"{what()}: {cost} instead of {want}", {"plan": plan.explain(), "cost-of-estimates": price(base, False)})
    if query.tables():
        full = build(rng, tabs, set(range(len(tabs))), edges)
        top = QueryPlan(rng.choice([IntermediateOperator.Materialize]), children=full)
        mon.raises(lambda: model.estimate_cost(query, top), "auxiliary-root", sql, ValueError)


def stages(mon, rng):
    query, sql, tabs, edges, preds = make_query(rng)
    engine = Engine(rng, COLS)
    db = make_db(PostgresInterface, engine)
    answer = build(rng, tabs, set(range(len(tabs))), edges)
    engine.plain = answer
    given_plan = build(rng, tabs, set(range(len(tabs))), edges)
    order = jointree_from_plan(given_plan) if rng.random() < 0.6 else None
    ops = operators_from_plan(given_plan) if rng.random() < 0.6 else None
    what = lambda: f"{sql}, order={order}, operators={ops}"
    mon.count("given-order", order is not None)
    mon.count("given-operators", ops is not None)

    class Follow(Engine):
        pass

    def ask(fn):
        engine.hinted, engine.asked = [], []
        mon.count("stages")
        got = fn()
        mon.eq(len(engine.asked), 1, "one-question", what)
        return got, engine.asked[0]

    def judge(q, order, ops):
        if order is None and ops is None:
            mon.check(q is query or q == query, "plain-query", lambda: f"{what()}: {q}")
        else:
            mon.check(isinstance(q, Hinted) and q.query == query, "hinted-query", lambda: f"{what()}: {q}")
            mon.check(q.kw["join_order"] == order and (order is not None or q.kw["join_order"] is None), "used-order", what)
            mon.check(q.kw["physical_operators"] == ops, "used-operators", what)
            mon.check(q.plan is None and q.kw["plan_parameters"] is None, "used-plan", what)

    got, q = ask(lambda: native.NativeJoinOrderOptimizer(db).optimize_join_order(query))
    judge(q, None, None)
    mon.eq(frames(got), frames(answer), "join-order", what)
    got, q = ask(lambda: native.NativePhysicalOperatorSelection(db).select_physical_operators(query, order))
    judge(q, order, None)
    for node in answer.iternodes():
        if node.is_scan():
            mon.check(got[node.base_table] is not None and got[node.base_table].operator == node.operator, "scan-operator", lambda: f"{what()}: {node.base_table}")
        elif node.is_join():
            mon.check(got[node.tables()] is not None and got[node.tables()].operator == node.operator, "join-operator", lambda: f"{what()}: {names(node.tables())}")
    got, q = ask(lambda: native.NativePlanParameterization(db).generate_plan_parameters(query, order, ops))
    judge(q, order, ops)
    want = {}
    for node in answer.iternodes():
        if not math.isnan(float(node.estimated_cardinality)):
            want.setdefault(frozenset(node.tables()), set()).add(float(node.estimated_cardinality))
    mon.eq({frozenset(k) for k in got.cardinalities}, set(want), "parameter-tables", what)
    mon.check(all(float(v) in want[frozenset(k)] for k, v in got.cardinalities.items()), "parameters", lambda: f"{what()}: {got.cardinalities} instead of {want}")
    got, q = ask(lambda: native.NativeOptimizer(db).optimize_query(query))
    judge(q, None, None)
    mon.check(got is answer or got == answer, "native-plan", what)
    mon.ok(("stages", order is None, ops is None, len(tabs)))
    est = native.NativeCardinalityEstimator(None)
    asked = []
    engine.cardinality_estimate = lambda q: asked.append(q) or Cardinality(17)
    est.initialize(db, query)
    ids = connected(rng, tabs, edges, rng.randint(1, len(tabs)))
    part = {tabs[i] for i in ids}
    mon.check(est.calculate_estimate(query, part if len(part) > 1 or rng.random() < 0.5 else next(iter(part))) == 17, "cardinality", what)
    judge_query(mon, asked[0], part, preds, what)
    for stage in (native.NativeJoinOrderOptimizer(db), native.NativePhysicalOperatorSelection(db), native.NativePlanParameterization(db), native.NativeOptimizer(db), est):
        mon.eq(stage.describe()["database_system"], {"name": "stand-in"}, "description", what)


def frames(node):
    if isinstance(node, QueryPlan):
        while not node.is_scan() and not node.is_join():
            node = node.input_node
        return node.base_table.identifier() if node.is_scan() else [frames(c) for c in node.children]
    return node.base_table.identifier() if node.is_scan() else [frames(node.outer_child), frames(node.inner_child)]


SCENARIOS = [Scenario(costs, quick=1500, thorough=40000, name="costs"), Scenario(stages, quick=400, thorough=10000, name="stages")]
