"""P28: plan analysis - differences, depths, similarities, bounds and star cardinalities against independent definitions."""
import collections
import itertools
import math

import postbound as pb
from postbound import JoinOperator, ScanOperator, TableReference
from postbound._qep import PlanEstimates, PlanMeasures, QueryPlan
from postbound.opt import _analysis as ana
from postbound.parser import parse_query

from lib import plans
from lib.vlib import Scenario

PROPERTY = "P28"
TECHNIQUE = "differential monitoring: the analysis functions run on seeded join trees, plan pairs with known edits and star databases; an oracle knows the applied edits, enumerates all plans, and executes the star query itself"
RULE = ("seeded join trees (1-9 tables), plan pairs that differ by a known set of edits (operators, estimates, costs, actual cardinalities, join directions, other join orders), all plans of up to 4 tables, star schemas with 1-4 dimensions on DuckDB, text pairs; "
        "distinct by function x shape x edits")
ASSUMPTIONS = ["similarity scores of the top-down approach are only checked for symmetry, reflexivity of the comparison and invariance (see known findings for their range)"]
LEVEL_NOTE = "exact comparison with independent definitions on seeded inputs"
REQUIRE = {"depths": 400, "similarities": 1500, "distances": 400, "diffs": 1000, "diff-entries": 1500, "swaps": 250, "order-changes": 120, "texts": 300, "bounds": 300, "plans-counted": 100000, "star": 100, "star-nonzero": 25, "true-cost": 100}

JOINS, SCANS = list(JoinOperator), list(ScanOperator)


def tree(o):
    return pb.JoinTree.join(tree(o[0]), tree(o[1])) if isinstance(o, tuple) else pb.JoinTree.scan(o)


def size(o):
    return len(plans.leaves(o))


def depths(o):
    """[(table, depth)], level of the tree"""
    if not isinstance(o, tuple):
        return {o: 1}, 0
    (a, la), (b, lb) = depths(o[0]), depths(o[1])
    level = max(la, lb) + 1
    res = {**a, **b}
    for side in o:
        if not isinstance(side, tuple):
            res[side] = level
    return res, level


def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]


def shuffled(rng, o):
    """the same joins, with other directions"""
    if not isinstance(o, tuple):
        return o
    a, b = shuffled(rng, o[0]), shuffled(rng, o[1])
    return (b, a) if rng.random() < 0.5 else (a, b)


def trees(mon, rng):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
    tabs = plans.pool(rng, n)
    a = plans.random_order(rng, tabs)
    other = rng.random()
    if other < 0.5:
        b = plans.random_order(rng, tabs)
    elif other < 0.7:
        b = shuffled(rng, a)
    else:
        extra = [TableReference(f"e{i}") for i in range(3)]
        b = plans.random_order(rng, rng.sample(tabs, rng.randint(1, n)) + rng.sample(extra, rng.randint(0, 2)))
    ta, tb = tree(a), tree(b)
    what = f"{ta} and {tb}"
    want, _ = depths(a)
    mon.eq(ana.join_depth(ta), want, "join-depth", what)
    mon.eq(ana.join_depth(pb.JoinTree.empty()), {}, "join-depth-empty", "")
    mon.count("depths")

    # all intermediates of both trees
    ja, jb = ({frozenset(plans.leaves(s)) for s in plans.subtrees(x) if isinstance(s, tuple)} for x in (a, b))
    got = ana.jointree_similarity_bottomup(ta, tb)
    if ja | jb:
        mon.check(math.isclose(got, len(ja & jb) / len(ja | jb)), "bottom-up", lambda: f"{what}: {got}, common joins {len(ja & jb)}/{len(ja | jb)}")
    else:
        mon.check(got in (0, 1), "bottom-up-scans", lambda: f"{what}: {got}")
    mon.eq(ana.jointree_similarity_bottomup(tb, ta), got, "bottom-up-symmetry", what)
    mon.check(ana.jointree_similarity_bottomup(ta, tree(shuffled(rng, a))) == 1 or not ja, "bottom-up-directions", what)
    for sym in (True, False):
        gamma = rng.choice([1.1, 1.0, 0.5])
        one, two = ana.jointree_similarity_topdown(ta, tb, symmetric=sym, gamma=gamma), ana.jointree_similarity_topdown(tb, ta, symmetric=sym, gamma=gamma)
        mon.check(math.isclose(one, two, abs_tol=1e-12) and one >= 0, "top-down-symmetry", lambda: f"{what}, symmetric={sym}: {one} != {two}")
        if set(tabs) == set(plans.leaves(b)):
            same = ana.jointree_similarity_topdown(ta, ta, symmetric=sym, gamma=gamma)
            mon.check(same > 0 and (sym or same >= one - 1e-9), "top-down-identity", lambda: f"{what}, symmetric={sym}, gamma={gamma}: {one} is larger than the similarity of identical trees {same}")
    top = ana.jointree_similarity_topdown(ta, ta, symmetric=True, gamma=1.1)
    swapped = ana.jointree_similarity_topdown(ta, tree(shuffled(rng, a)), symmetric=True, gamma=1.1)
    mon.check(math.isclose(top, swapped), "top-down-directions", lambda: f"{ta}: {top} for itself, {swapped} with other join directions")
    disjoint = ana.jointree_similarity_topdown(ta, tree(plans.random_order(rng, [TableReference(f"z{i}") for i in range(rng.randint(1, 4))])))
    mon.eq(disjoint, 0, "top-down-disjoint", str(ta))
    mon.count("similarities", 4)

    mon.eq(ana.linearized_levenshtein_distance(ta, tb), lev(plans.leaves(a), plans.leaves(b)), "levenshtein", what)
    mon.count("distances")
    mon.ok(f"{n}:{shape(a)}:{shape(b)}")


def shape(o):
    return "x" if not isinstance(o, tuple) else f"({shape(o[0])}{shape(o[1])})"


# --- plan comparison --------------------------------------------------------------------------------------------------
class N:
    """mutable plan model"""
    def __init__(self, kids, op, table, est, act, cost):
        self.kids, self.op, self.table, self.est, self.act, self.cost = kids, op, table, est, act, cost

    def tables(self):
        return frozenset([self.table]) if self.table else self.kids[0].tables() | self.kids[1].tables()

    def copy(self):
        return N([k.copy() for k in self.kids], self.op, self.table, self.est, self.act, self.cost)

    def nodes(self):
        return [self] + [n for k in self.kids for n in k.nodes()]

    def build(self):
        return QueryPlan(self.op.value, operator=self.op, children=[k.build() for k in self.kids], base_table=self.table,
                         estimates=PlanEstimates(cardinality=self.est, cost=self.cost), measures=PlanMeasures(cardinality=self.act))


def number(rng):
    return rng.choice([math.nan, float(rng.randint(0, 5)), float(rng.randint(0, 10**6)), math.inf])


def model(rng, o, measured):
    kids = [model(rng, x, measured) for x in o] if isinstance(o, tuple) else []
    return N(kids, rng.choice(JOINS if kids else SCANS), None if kids else o, number(rng), number(rng) if measured else math.nan, number(rng))


def differs(a, b):
    return a != b and not (math.isnan(a) and math.isnan(b))


def norm(x):
    if isinstance(x, QueryPlan):
        return ("plan", tuple(sorted(map(str, x.tables()))), x.node_type)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(str, x)))
    if isinstance(x, (JoinOperator, ScanOperator)):
        return x.value
    if isinstance(x, str):
        return x
    f = float(x)
    return "nan" if math.isnan(f) else f


def expected(a, b):
    """multiset of changes"""
    ta, tb = a.tables(), b.tables()
    if ta != tb:
        return [("tree-structure", norm(ta), norm(tb), None)]
    res = []
    for kind, x, y in (("card-est", a.est, b.est), ("actual-card", a.act, b.act), ("cost-est", a.cost, b.cost)):
        if differs(x, y):
            res.append((kind, norm(x), norm(y), norm(ta)))
    if a.op != b.op:
        res.append(("physical-op", norm(a.op), norm(b.op), norm(ta)))
    if a.kids:
        if a.kids[0].tables() == b.kids[1].tables():
            res.append(("join-direction", ("plan", norm(ta), a.op.value), ("plan", norm(ta), b.op.value), None))
            res += expected(a.kids[0], b.kids[1]) + expected(a.kids[1], b.kids[0])
        else:
            res += expected(a.kids[0], b.kids[0]) + expected(a.kids[1], b.kids[1])
    return res


def compare(mon, rng):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6])
    tabs = plans.pool(rng, n)
    a = model(rng, plans.random_order(rng, tabs), rng.random() < 0.6)
    b = a.copy()
    kinds = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        kind = rng.choice(["op", "est", "act", "cost", "swap", "swap", "order", "tables"])
        node = rng.choice(b.nodes())
        if kind == "op":
            node.op = rng.choice(JOINS if node.kids else SCANS)
        elif kind in ("est", "act", "cost"):
            setattr(node, kind, number(rng))
        elif kind == "swap" and node.kids:
            node.kids.reverse()
            mon.count("swaps")
        elif kind == "order" and node.kids:
            new = model(rng, plans.random_order(rng, sorted(node.tables(), key=str)), True)
            node.kids, node.op = new.kids, new.op
            mon.count("order-changes")
        elif kind == "tables" and not node.kids and rng.random() < 0.3:
            node.table = TableReference("extra", f"x{rng.randint(0, 99)}")
        kinds.append(kind)
    pa, pb_ = a.build(), b.build()
    snap = plans.snapshot(pa), plans.snapshot(pb_)
    got = ana.compare_query_plans(pa, pb_)
    entries = collections.Counter((e.change_type, norm(e.left_state), norm(e.right_state), norm(e.context) if e.context is not None else None) for e in got.changes)
    want = collections.Counter(expected(a, b))
    what = f"edits {kinds} of {pa.inspect()}\n----\n{pb_.inspect()}"
    mon.eq(sorted(map(repr, entries.elements())), sorted(map(repr, want.elements())), "changes", what)
    mon.check(len(got.inspect().splitlines()) >= len(got.changes), "inspect", what)
    mon.eq(len(ana.compare_query_plans(pa, pa).changes), 0, "self-comparison", what)
    mon.eq((plans.snapshot(pa), plans.snapshot(pb_)), snap, "plans-changed", what)
    back = collections.Counter((e.change_type, norm(e.right_state), norm(e.left_state)) for e in ana.compare_query_plans(pb_, pa).changes)
    mon.eq(sorted(map(repr, back.elements())), sorted(repr(e[:3]) for e in want.elements()), "reverse-comparison", what)
    mon.count("diffs")
    mon.count("diff-entries", len(got.changes))
    aux = QueryPlan("Hash", children=[pa])
    mon.raises(lambda: ana.compare_query_plans(aux, pb_), "auxiliary-nodes", what, ValueError)
    mon.ok(f"{n}:{','.join(sorted(kinds))}")
    if kinds and rng.random() < 0.01:
        mon.sample("changes", got.inspect()[:400])


# --- bounds ------------------------------------------------------------------------------------------------------------
def all_orders(tabs):
    if len(tabs) == 1:
        return 1
    first, total = tabs[0], 0
    for r in range(1, len(tabs)):
        total += math.comb(len(tabs), r) * all_orders(tabs[:r]) * all_orders(tabs[r:])
    return total


def bounds(mon, rng):
    n = rng.randint(1, 8)
    tabs = plans.pool(rng, n)
    query = parse_query("SELECT * FROM " + ", ".join(f"{t.full_name} AS {t.alias}" if t.alias else t.full_name for t in tabs), bind_columns=False)
    n = len(query.tables())
    joins, scans = {f"j{i}" for i in range(rng.randint(1, 4))}, {f"s{i}" for i in range(rng.randint(1, 4))}
    kw = {}
    if rng.random() < 0.7:
        kw["join_operators"] = joins
    else:
        joins = {1, 2, 3}
    if rng.random() < 0.7:
        kw["scan_operators"] = scans
    else:
        scans = {1, 2}
    got = ana.possible_plans_bound(query, **kw)
    plans_ = all_orders(list(range(n))) * len(joins) ** (n - 1) * len(scans) ** n
    mon.count("bounds")
    mon.count("plans-counted", plans_)
    mon.check(got >= plans_, "plan-bound", lambda: f"{n} tables, {len(joins)} join and {len(scans)} scan operators: bound {got}, but there are {plans_} plans")
    mon.ok(f"{n}:{len(joins)}:{len(scans)}")


# --- text ---------------------------------------------------------------------------------------------------------------
def texts(mon, rng):
    mk = lambda: [rng.choice(["", "a", "x y", "Hash Join", "é", "  indented"]) + "z" * rng.choice([0, 0, 5]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    left, right = mk(), mk()
    left, right = "\n".join(left), "\n".join(right)
    sep = rng.choice([" | ", " || ", "#"])
    got = ana.text_diff(left, right, sep=sep) if sep != " | " else ana.text_diff(left, right)
    ll, rl = left.splitlines(), right.splitlines()
    width = max(map(len, ll), default=0)
    want = [(l or "").ljust(width) + sep + (r or "") for l, r in itertools.zip_longest(ll, rl)]
    mon.eq(got.splitlines(), "\n".join(want).splitlines(), "text-diff", f"{left!r} and {right!r}")
    mon.count("texts")
    mon.ok(f"{len(ll)}:{len(rl)}:{width}")


# --- star queries --------------------------------------------------------------------------------------------------------
def star(mon, rng):
    import os
    import uuid
    path = f"{mon.tmp}/star{uuid.uuid4().hex}.db"
    pool = pb.db.DatabasePool.get_instance()
    pool.clear()
    iface = pb.duckdb.connect(path, name=f"star{uuid.uuid4().hex}", private=True)
    try:
        iface.execute_query("SELECT 1")
        idtype = rng.choice(["INTEGER", "VARCHAR", "DATE"])
        val = {"INTEGER": lambda i: str(i - 2), "VARCHAR": lambda i: "'" + ["a", "it''s", "", "%", "B c", "d", "e", "f"][i % 8] + "'", "DATE": lambda i: f"DATE '2020-01-0{i % 8 + 1}'"}[idtype]
        ids = rng.sample(range(8), rng.choice([0, 1, 2, 4, 6, 6]))
        cur = iface.cursor()
        pk = rng.choice([" PRIMARY KEY", ""])
        cur.execute(f"CREATE TABLE fact (id {idtype}{pk}, x INTEGER)")
        for i in ids:
            cur.execute(f"INSERT INTO fact VALUES ({val(i)}, {rng.randint(0, 3)})")
        dims = rng.randint(1, 4)
        for d in range(dims):
            cur.execute(f"CREATE TABLE d{d} (fid {idtype}, v INTEGER)")
            for _ in range(rng.choice([0, 3, 6, 9, 12, 12])):
                ref = val(rng.choice(ids)) if ids and rng.random() < 0.8 else rng.choice(["NULL", val(rng.randint(0, 7))])
                cur.execute(f"INSERT INTO d{d} VALUES ({ref}, {rng.randint(0, 3)})")
        fal = rng.choice(["", "f"])
        fname = fal or "fact"
        names = [rng.choice([f"d{d}", f"q{d}"]) for d in range(dims)]
        conds = [rng.choice([f"{fname}.id = {m}.fid", f"{m}.fid = {fname}.id"]) for m in names]
        rng.shuffle(conds)
        if rng.random() < 0.5:
            conds.append(f"{fname}.x {rng.choice(['>', '=', '<', '<>'])} {rng.randint(0, 3)}")
        if rng.random() < 0.2:
            conds.append(f"{fname}.x IS NOT NULL")
        for m in names:
            if rng.random() < 0.4:
                conds.append(f"{m}.v {rng.choice(['>', '<>', '<'])} {rng.randint(0, 3)}")
        frm = ["fact" + (f" AS {fal}" if fal else "")] + [f"d{d}" + (f" AS {m}" if m != f"d{d}" else "") for d, m in enumerate(names)]
        rng.shuffle(frm)
        sql = f"SELECT * FROM {', '.join(frm)} WHERE {' AND '.join(conds)}"
        want = cur.execute(sql.replace("SELECT *", "SELECT COUNT(*)")).fetchone()[0]
        query = parse_query(sql)
        col = pb.ColumnReference("id", TableReference("fact", fal)) if rng.random() < 0.7 else pb.ColumnReference("id")
        use_pool = rng.random() < 0.3
        if use_pool:
            pool.register_database("star", iface)
        got = ana.star_query_cardinality(query, col, **({} if use_pool else {"database": iface}))
        mon.count("star")
        if want:
            mon.count("star-nonzero")
        mon.eq(got, want, "star-cardinality", f"{sql} with {len(ids)} fact rows, key {col}, {idtype}")
        mon.ok(f"{idtype}:{dims}:{len(ids)}:{bool(want)}:{fal}")
    finally:
        pool.clear()
        iface.close()
        os.unlink(path)


class StubDb:
    def __init__(self):
        self.calls = []

    def hinting(self):
        return self

    def optimizer(self):
        return self

    def generate_hints(self, query, plan=None, **kw):
        self.calls.append(("hints", query, plan))
        return ("hinted", query)

    def cost_estimate(self, query):
        self.calls.append(("cost", query))
        return 42.5


def true_cost(mon, rng):
    tabs = plans.pool(rng, rng.randint(1, 5))
    query = parse_query("SELECT * FROM " + ", ".join(f"{t.full_name} AS {t.alias}" if t.alias else t.full_name for t in tabs), bind_columns=False)
    plan = model(rng, plans.random_order(rng, tabs), True)
    for n in plan.nodes():
        n.act = float(rng.randint(0, 100))
    db, pool = StubDb(), pb.db.DatabasePool.get_instance()
    pool.clear()
    use_pool = rng.random() < 0.5
    try:
        if use_pool:
            pool.register_database("stub", db)
        got = ana.actual_plan_cost(query, plan.build(), **({} if use_pool else {"database": db}))
    finally:
        pool.clear()
    mon.eq(got, 42.5, "true-cost", str(query))
    mon.eq([c[0] for c in db.calls], ["hints", "cost"], "true-cost-calls", str(query))
    mon.eq(db.calls[1][1], ("hinted", query), "true-cost-query", str(query))
    mon.eq({frozenset(n.tables()): float(n.estimated_cardinality) for n in db.calls[0][2].iternodes()}, {n.tables(): n.act for n in plan.nodes()}, "true-cost-cards", str(query))
    mon.raises(lambda: ana.actual_plan_cost(query, QueryPlan("Seq Scan", operator=SCANS[0], base_table=tabs[0]), database=db), "true-cost-no-analyze", str(query), ValueError)
    mon.count("true-cost")
    mon.ok(f"{len(tabs)}:{use_pool}")


def probe_topdown(mon):
    t = pb.JoinTree.join(pb.JoinTree.scan(TableReference("R")), pb.JoinTree.scan(TableReference("S")))
    got = ana.jointree_similarity_topdown(t, t)
    mon.check(0 <= got <= 1, "topdown-range", f"similarity of R JOIN S with itself is {got}")


KNOWN = {"topdown-range": probe_topdown}

SCENARIOS = [Scenario(trees, quick=900, thorough=30000, name="trees"), Scenario(compare, quick=2400, thorough=60000, name="compare"), Scenario(bounds, quick=500, thorough=5000, name="bounds"),
             Scenario(texts, quick=600, thorough=10000, name="texts"), Scenario(star, quick=200, thorough=2500, cpu=60, name="star"), Scenario(true_cost, quick=240, thorough=3000, name="true-cost")]
