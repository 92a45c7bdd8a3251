"""P27: TONIC - learned operator recommendations against a prefix-tree model."""
import itertools
import json
import math
import os
import warnings

import postbound as pb
from postbound import JoinOperator, TableReference, util
from postbound._qep import PlanEstimates, PlanMeasures, QueryPlan
from postbound.parser import parse_query

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from postbound.opt import tonic

from lib import plans
from lib.vlib import Scenario

PROPERTY = "P27"
TECHNIQUE = ("history monitoring: random sequences of cost integrations, recommendations, exploration runs, resets and save/load cycles on the real synopsis next to an independent prefix-tree model; instrumented database stand-ins record every plan that is requested while exploring")
RULE = ("seeded histories over 1-6 aliased tables (self-joins, bushy/linear trees, auxiliary plan nodes, filters shared between differently aliased queries), filter-aware or not, gamma values, operators with and without costs, distinct by tree shape x history length x configuration")
ASSUMPTIONS = ["ties between operator costs may be broken arbitrarily", "the exploration runs on a database stand-in that executes the requested operators",
               "exploration with fewer samples than combinations may find fewer plans than requested"]
LEVEL_NOTE = "exact comparison of recommendations, unknown costs and stored costs with the model after every step of seeded histories"
REQUIRE = {"integrations": 4000, "recommendations": 4000, "recommended-joins": 2500, "final-joins": 1000, "bushy": 1000, "aliased": 2000, "unknown": 1500, "reloads": 500, "explorations": 300, "feedback": 300, "costs": 9000}

COLS = ["a", "b"]
NAMES = ["t", "u", "v", "w", "x", "y", "z"]
JOINS = list(JoinOperator)


class Model:
    def __init__(self, filter_aware, gamma):
        self.filter_aware, self.gamma, self.costs = filter_aware, gamma, {}

    def ident(self, case, t):
        return (frozenset([t.full_name]), case.filter_key(t) if self.filter_aware else None)

    def path(self, case, order, prefix=()):
        """[(tables, node key)] of all joins of a nested-pair join order"""
        spine, node = [], order
        while isinstance(node, tuple):
            spine.append(node)
            left, right = node
            node = left if depth(right) < depth(left) else right
        res = []
        for k, join in enumerate(reversed(spine)):
            left, right = join
            tabs = frozenset(plans.leaves(join))
            if k == 0:
                first, second = (right, left) if right < left else (left, right)
                prefix = prefix + (self.ident(case, first), self.ident(case, second))
                res.append((tabs, prefix))
                continue
            other = right if depth(right) < depth(left) else left
            if isinstance(other, tuple):
                prefix = prefix + ((frozenset(t.full_name for t in plans.leaves(other)), None),)
                res.append((tabs, prefix))
                res += self.path(case, other, prefix + ("subquery",))
            else:
                prefix = prefix + (self.ident(case, other),)
                res.append((tabs, prefix))
        return res

    def learn(self, case, order, ops):
        """updates in the order of execution along each path"""
        for tabs, key in self.path(case, order):
            op, cost = ops[tabs]
            node = self.costs.setdefault(key, {})
            node[op] = cost + self.gamma * node.get(op, 0.0)


def depth(o):
    return 0 if not isinstance(o, tuple) else 1 + max(depth(o[0]), depth(o[1]))


class Case:
    """a query, i.e. tables and filters"""
    def __init__(self, rng, n=None):
        n = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
        self.tables = []
        for i in range(n):
            base = rng.choice(NAMES[:4] if rng.random() < 0.6 else NAMES)
            used = {t.full_name for t in self.tables if not t.alias}
            alias = rng.choice(["", f"q{i}", f"a{rng.randint(0, 9)}{i}"]) if base not in {t.full_name for t in self.tables} else f"{rng.choice('mq')}{i}"
            self.tables.append(TableReference(base, alias))
        self.filters = {}
        for t in self.tables:
            pool = ["{}.a = 1", "{}.a = 2", "{}.b > 3", "{}.b IN (1, 2)", "{}.a IS NOT NULL", "({}.a = 1 OR {}.b = 2)", "{}.b BETWEEN 1 AND 4", "{}.a < {}.b"]
            self.filters[t] = [pool[i] for i in sorted(rng.sample(range(len(pool)), rng.choice([0, 0, 1, 1, 2])))]
        conds = [f.format(t.identifier(), t.identifier()) for t in self.tables for f in self.filters[t]]
        conds += [f"{self.tables[i].identifier()}.a = {rng.choice(self.tables[:i]).identifier()}.b" for i in range(1, n)]
        self.sql = "SELECT COUNT(*) FROM " + ", ".join(f"{t.full_name} AS {t.alias}" if t.alias else t.full_name for t in self.tables) + (f" WHERE {' AND '.join(conds)}" if conds else "")
        self.query = parse_query(self.sql)
        self.orders = [plans.random_order(rng, self.tables) for _ in range(2)]

    def filter_key(self, t):
        return tuple(sorted(self.filters[t])) or None

    def realiased(self, rng):
        """the same query with other aliases"""
        other = Case.__new__(Case)
        ren = {}
        used = set()
        for i, t in enumerate(self.tables):
            ren[t] = TableReference(t.full_name, f"n{i}" if any(o.full_name == t.full_name for o in self.tables if o != t) or rng.random() < 0.6 else "")
        other.tables = [ren[t] for t in self.tables]
        other.filters = {ren[t]: rng.sample(f, len(f)) for t, f in self.filters.items()}
        conds = [f.format(t.identifier(), t.identifier()) for t in other.tables for f in other.filters[t]]
        conds += [f"{other.tables[i].identifier()}.a = {rng.choice(other.tables[:i]).identifier()}.b" for i in range(1, len(other.tables))]
        other.sql = "SELECT COUNT(*) FROM " + ", ".join(f"{t.full_name} AS {t.alias}" if t.alias else t.full_name for t in other.tables) + (f" WHERE {' AND '.join(conds)}" if conds else "")
        other.query = parse_query(other.sql)
        sub = lambda o: (sub(o[0]), sub(o[1])) if isinstance(o, tuple) else ren[o]
        other.orders = [sub(o) for o in self.orders]
        return other


def tree(o):
    return pb.JoinTree.join(tree(o[0]), tree(o[1])) if isinstance(o, tuple) else pb.JoinTree.scan(o)


def plan(rng, o, ops, aux=0.3, cards=None):
    if not isinstance(o, tuple):
        node = QueryPlan("Seq Scan", operator=pb.ScanOperator.SequentialScan, base_table=o, estimates=PlanEstimates(cost=rng.randint(1, 9)), measures=PlanMeasures(cardinality=7))
    else:
        op, cost = ops[frozenset(plans.leaves(o))]
        node = QueryPlan(str(op.value), operator=op, children=[plan(rng, o[0], ops, aux), plan(rng, o[1], ops, aux)], estimates=PlanEstimates(cost=cost), measures=PlanMeasures(cardinality=11))
    while rng.random() < aux:
        node = QueryPlan(rng.choice(["Hash", "Materialize", "Gather"]), children=[node], estimates=PlanEstimates(cost=rng.randint(1, 99)), measures=PlanMeasures(cardinality=3))
    return node


def random_ops(rng, o):
    return {frozenset(plans.leaves(x)): (rng.choice(JOINS), rng.choice([float(rng.randint(0, 50)), rng.uniform(0, 100), 1e6])) for x in plans.subtrees(o) if isinstance(x, tuple)}


def joins_of(a):
    return {frozenset(k): v.operator for k, v in a.join_operators.items()}


def stored(node, prefix=()):
    """all costs in the JSON document of a synopsis"""
    res = {}
    if node is None:
        return res
    if node["costs"]:
        res[prefix] = {JoinOperator(k): v for k, v in node["costs"].items()}
    for c in node["children"]:
        pred = c["identifier"]["filter_predicate"]
        key = (frozenset(t["full_name"] for t in c["identifier"]["tables"]), json.dumps(pred["predicate"] if isinstance(pred, dict) else pred) if pred else None)
        res.update(stored(c["node"], prefix + (key,)))
    res.update(stored(node["subquery"], prefix + ("subquery",)))
    return res


def norm_filters(key):
    """filter identities without their text: only whether there are some"""
    return tuple(k if k == "subquery" else (tuple(sorted(k[0])), k[1] is not None) for k in key)


def check_costs(mon, model, sel, what):
    doc = json.loads(util.to_json(sel))
    flat = sorted((repr(norm_filters(k)), sorted((o.value, c) for o, c in v.items())) for k, v in stored(doc["root"]).items())
    want = sorted((repr(norm_filters(k)), sorted((o.value, c) for o, c in v.items())) for k, v in model.costs.items())
    mon.count("costs", len(want))
    mon.eq(flat, want, "stored-costs", what)


def check_recommendation(mon, rng, model, sel, case, order, how="recommend"):
    got = sel.select_physical_operators(case.query, tree(order))
    joins = joins_of(got)
    mon.count("recommendations")
    if any(t.alias for t in case.tables):
        mon.count("aliased")
    if isinstance(order, tuple) and not tree(order).is_linear():
        mon.count("bushy")
    path = model.path(case, order)
    for tabs, key in path:
        known = model.costs.get(key, {})
        if len(known) < 2:
            mon.check(tabs not in joins, f"{how}-unfounded", lambda: f"{case.sql}, join order {tree(order)}: {joins.get(tabs)} recommended for {sorted(map(str, tabs))}, but the known costs are {known}")
            continue
        mon.count("recommended-joins")
        if tabs == frozenset(case.tables):
            mon.count("final-joins")
        best = min(known.values())
        ok = [o for o, c in known.items() if c == best]
        mon.check(joins.get(tabs) in ok, f"{how}-operator", lambda: f"{case.sql}, join order {tree(order)}: {joins.get(tabs)} recommended for {sorted(map(str, tabs))}, the known costs are {known}")
    extra = set(joins) - {t for t, _ in path}
    mon.check(not extra, f"{how}-extra", lambda: f"{case.sql}, join order {tree(order)}: recommendations for {[sorted(map(str, e)) for e in extra]}")
    mon.check(not got.scan_operators and not got.intermediate_operators and not got.global_settings, f"{how}-other", lambda: f"{got.inspect()}")


class StubDb:
    """executes whatever operators are requested and records all calls"""
    def __init__(self, rng, supported):
        self.rng, self.supported, self.log, self.native, self.current = rng, supported, [], None, None

    def optimizer(self):
        return self

    def hinting(self):
        return self

    def supports_hint(self, op):
        return op in self.supported

    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, **kw):
        if plan is not None:
            self.log.append(("true-cards", plan))
            self.cost_plan = plan
        else:
            self.log.append(("hints", join_order, physical_operators))
            self.current = (join_order, physical_operators)
        return query

    def analyze_plan(self, query):
        self.log.append(("analyze", query))
        if self.current is None:
            return self.native
        order, ops = self.current
        self.last = plan(self.rng, nested(order), {k: (v, 5.0) for k, v in joins_of(ops).items()}, aux=0.2)
        return self.last

    def query_plan(self, query):
        """costs are derived from the operators of the plan that was hinted last"""
        self.log.append(("plan", query))
        return self.native if self.current is None else costed(self.rng, nested_plan(self.cost_plan), self)


def nested(t):
    return t.base_table if t.is_scan() else (nested(t.outer_child), nested(t.inner_child))


def nested_plan(p):
    while not p.is_scan() and not p.is_join():
        p = p.input_node
    return (p.operator, p.estimated_cardinality, nested_plan(p.outer_child), nested_plan(p.inner_child)) if p.is_join() else p.base_table


def costed(rng, o, db):
    def build(x):
        return x if not isinstance(x, tuple) else (build(x[2]), build(x[3]))
    ops = {}

    def visit(x):
        if isinstance(x, tuple):
            tabs = frozenset(plans.leaves(build(x)))
            ops[tabs] = (x[0], float(cost_of(tabs, x[0])) + float(x[1]))
            visit(x[2])
            visit(x[3])
    visit(o)
    return plan(rng, build(o), ops, aux=0.2)


def cost_of(tabs, op):
    return 10 * JOINS.index(op) + 1 + len(tabs)


def history(mon, rng):
    fa, gamma = rng.random() < 0.5, rng.choice([0.8, 0.0, 0.5, 1.0])
    model = Model(fa, gamma)
    db = StubDb(rng, rng.sample(JOINS, rng.randint(2, len(JOINS))))
    sel = tonic.TonicOperatorSelection(fa, gamma, database=db)
    cases = [Case(rng) for _ in range(rng.randint(1, 3))]
    cases += [c.realiased(rng) for c in cases]
    for step in range(rng.randint(10, 30)):
        case = rng.choice(cases)
        order = rng.choice(case.orders) if rng.random() < 0.8 else plans.random_order(rng, case.tables)
        what = f"{case.sql}, join order {tree(order)}, filter-aware {fa}, gamma {gamma}"
        before = str(case.query)
        kind = rng.choice(["learn"] * 5 + ["ask"] * 4 + ["unknown", "reload", "explore", "feedback", "reset", "invalid"])
        if kind == "learn":
            ops = random_ops(rng, order)
            p = plan(rng, order, ops)
            snap = plans.snapshot(p)
            if rng.random() < 0.3:
                db.native, db.current = p, None
                sel.integrate_cost(case.query)
            else:
                sel.integrate_cost(case.query, p)
            mon.eq(plans.snapshot(p), snap, "plan-changed", what)
            model.learn(case, order, ops)
            mon.count("integrations")
        elif kind == "ask":
            check_recommendation(mon, rng, model, sel, case, order)
            if rng.random() < 0.2:
                db.native, db.current = plan(rng, order, random_ops(rng, order)), None
                got = sel.select_physical_operators(case.query, rng.choice([None, pb.JoinTree.empty()]))
                again = sel.select_physical_operators(case.query, tree(order))
                mon.eq(joins_of(got), joins_of(again), "native-order", what)
        elif kind == "unknown":
            allowed = frozenset(rng.sample(JOINS, rng.randint(1, len(JOINS))))
            got = {frozenset(k): frozenset(v) for k, v in sel.qeps.detect_unknown_costs(case.query, tree(order), allowed).items()}
            want = {}
            for tabs, key in model.path(case, order):
                missing = allowed - set(model.costs.get(key, {}))
                if missing:
                    want[tabs] = missing
            mon.count("unknown", len(model.path(case, order)))
            mon.eq(got, want, "unknown-costs", what)
        elif kind == "reload":
            path = f"{mon.tmp}/tonic.json"
            with open(path, "w") as f:
                util.to_json_dump(sel, f)
            sel = tonic.TonicOperatorSelection.load_model(path, database=db)
            os.unlink(path)
            mon.eq((sel.filter_aware, sel.gamma), (fa, gamma), "reload-settings", what)
            mon.count("reloads")
            check_costs(mon, model, sel, f"after loading the model: {what}")
            for o in case.orders:
                check_recommendation(mon, rng, model, sel, case, o, "reloaded")
        elif kind == "feedback":
            ops = random_ops(rng, order)
            db.current, db.native, db.log = None, plan(rng, order, ops), []
            sel.simulate_feedback(case.query)
            mon.eq([x[0] for x in db.log], ["analyze", "true-cards", "plan"], "feedback-calls", what)
            given = [x[1] for x in db.log if x[0] == "true-cards"]
            mon.eq([[float(n.estimated_cardinality) for n in p.iternodes()] for p in given], [[float(n.actual_cardinality) for n in db.native.iternodes()]], "feedback-cards", f"{what}: hints do not use the actual cardinalities")
            model.learn(case, order, ops)
            mon.count("feedback")
        elif kind == "explore" and len(case.tables) <= 4:
            explore(mon, rng, model, sel, db, case, order, what)
        elif kind == "reset" and rng.random() < 0.3:
            sel.reset()
            model.costs = {}
        elif kind == "invalid":
            node = tonic.QEPsNode(fa, gamma)
            for op, cost in [(JOINS[0], math.nan), (JOINS[0], math.inf), (None, 3.0), (JOINS[1], -math.inf)]:
                mon.raises(lambda: node.update_costs(op, cost), "invalid-costs", f"{op}, {cost}", ValueError)
            mon.check(not node.operator_costs and node.current_recommendation() is None, "invalid-state", f"{node.operator_costs}")
            mon.raises(lambda: tonic.QepsIdentifier([]), "empty-identifier", "", ValueError)
        mon.eq(str(case.query), before, "query-changed", what)
        if rng.random() < 0.2:
            check_costs(mon, model, sel, what)
    check_costs(mon, model, sel, f"{[c.sql for c in cases]}")
    for case in cases:
        for o in case.orders:
            check_recommendation(mon, rng, model, sel, case, o)
    mon.ok(f"{fa}:{gamma}:{len(cases)}:{step // 5}:{'|'.join(sorted({shape(o) for c in cases for o in c.orders}))}")
    if rng.random() < 0.02:
        mon.sample("synopsis", sel.qeps.inspect()[:600])


def shape(o):
    return "x" if not isinstance(o, tuple) else f"({shape(o[0])}{shape(o[1])})"


def explore(mon, rng, model, sel, db, case, order, what):
    allowed = rng.sample(JOINS, rng.randint(1, 3)) if rng.random() < 0.7 else None
    n_joins = len(case.tables) - 1
    real = set(allowed or JOINS) & set(db.supported)
    if not real or n_joins == 0:
        return
    combos = len(real) ** n_joins
    limit = rng.choice([None, 1, 2, 5, 100]) if combos <= 30 else rng.choice([1, 2, 5])
    db.log, db.current = [], None
    native = rng.random() < 0.3
    if native:
        db.native = plan(rng, order, random_ops(rng, order))
    kw = {} if limit is None and rng.random() < 0.5 else dict(max_combinations=limit)
    sel.explore_costs(case.query, None if native else tree(order), allowed_operators=rng.choice([list, set, tuple])(allowed) if allowed else None, **kw)
    hints = [x for x in db.log if x[0] == "hints"]
    seen = [tuple(sorted((tuple(sorted(map(str, k))), v.value) for k, v in joins_of(h[2]).items())) for h in hints]
    mon.count("explorations")
    mon.eq(len(set(seen)), len(seen), "explored-twice", f"{what}: {seen}")
    want_joins = {frozenset(plans.leaves(x)) for x in plans.subtrees(order) if isinstance(x, tuple)}
    for h in hints:
        mon.check(nested(h[1]) == order, "explored-order", lambda: f"{what}: explored {h[1]}")
        got = joins_of(h[2])
        mon.check(set(got) == want_joins and set(got.values()) <= real, "explored-operators", lambda: f"{what}: {got}, allowed {real}")
        if not (set(got) == want_joins and set(got.values()) <= real):
            return
    if limit is None or combos <= limit:
        mon.eq(len(seen), combos, "explored-all", f"{what}: operators {real}, limit {limit}")
    else:
        mon.check(1 <= len(seen) <= limit, "explored-limit", lambda: f"{what}: {len(seen)} plans, limit {limit}")
    db.current = None
    # the costs that the stand-in reports: actual cardinality of joins is 11
    for h in hints:
        got = joins_of(h[2])
        model.learn(case, order, {t: (op, float(cost_of(t, op)) + 11.0) for t, op in got.items()})


SCENARIOS = [Scenario(history, quick=900, thorough=16000, cpu=60, name="history")]
