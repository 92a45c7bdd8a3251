"""P07: dynamic programming enumerators return a cheapest, valid plan of their search space."""
import itertools
import math
import random
import zlib

from postbound import Cardinality, ColumnReference, IntermediateOperator, JoinOperator, ScanOperator, TableReference
from postbound._stages import CardinalityEstimator, CostModel
from postbound.opt.dynprog import DynamicProgrammingEnumerator, PostgresDynProg
from postbound.parser import parse_query
from postbound.postgres import PostgresInterface

from lib.plans import pool, tkey
from lib.vlib import Scenario

PROPERTY = "P07"
TECHNIQUE = ("online monitor: the plan returned by the real enumerators is walked by an independent validator and its cost is compared with the optimum computed by an "
             "independent recursion over the documented search space, for randomized additive cost models; cost model and estimator record every call they receive")
RULE = ("random equi-join queries over trees, chains, stars, cycles and cliques, random indexes, operator subsets, cost tables (ties, near-ties, wide ranges, infinite costs), "
        "reuse of one enumerator over a history of queries including failing ones; distinct by graph shape, configuration and optimum")
ASSUMPTIONS = ["cost models are additive (cost = local cost + cost of the inputs), so the optimality principle holds",
               "PostgresDynProg mimics the Postgres pruning, which tolerates 1 percent per intermediate once sorted paths are available; without sorted paths the optimum is exact",
               "no Postgres server: the fake server answers supports_hint, schema and page counts; its native cost model is not exercised"]
REQUIRE = {"plans": 500, "nodes": 3000, "estimator-calls": 3000, "cost-calls": 5000, "pg-plans": 300, "exact": 50, "merge-plans": 30, "index-plans": 50, "memo-plans": 10,
           "materialize-plans": 10, "parallel-plans": 20, "recovered": 20}

SC = [ScanOperator.SequentialScan, ScanOperator.IndexScan, ScanOperator.IndexOnlyScan, ScanOperator.BitmapScan]
JO = [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin]
COLS = ["x", "y", "z", "s"]


# --- the world: query, schema, costs ---------------------------------------------------------------------------------
class World:
    def __init__(self, rng, n=None, wide=None):
        n = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 1, 2, 3, 3, 4, 4, 5, 6])
        self.tabs = pool(rng, n)
        kind = rng.choice(["tree", "chain", "star", "cycle", "clique", "random"])
        pairs = []
        T = self.tabs
        if kind in ("chain", "cycle"):
            pairs = list(zip(T, T[1:])) + ([(T[0], T[-1])] if kind == "cycle" and n > 2 else [])
        elif kind == "star":
            pairs = [(T[0], t) for t in T[1:]]
        elif kind == "clique":
            pairs = list(itertools.combinations(T, 2))
        else:
            pairs = [(T[i], T[rng.randrange(i)]) for i in range(1, n)]
            if kind == "random":
                pairs += [p for p in itertools.combinations(T, 2) if rng.random() < 0.25]
        self.shape = (n, kind)
        self.equis = []  # ((table, col), (table, col))
        few = rng.random() < 0.5
        for a, b in pairs:
            for _ in range(rng.choice([1, 1, 1, 2])):
                c = COLS[:2] if few else COLS[:3]
                e = ((a, rng.choice(c)), (b, rng.choice(c)))
                if e not in self.equis and e[::-1] not in self.equis:
                    self.equis.append(e if rng.random() < 0.5 else e[::-1])
        self.filters = {t: [] for t in T}
        for t in T:
            if rng.random() < 0.35:
                self.filters[t] = rng.sample([("x", "{}.x = 3"), ("y", "{}.y < 10"), ("s", "{}.s LIKE 'a%'"), ("z", "{}.z IN (1, 2)")], rng.choice([1, 1, 2]))
        conds = [f"{a.identifier()}.{c} = {b.identifier()}.{d}" for (a, c), (b, d) in self.equis] + [f.format(t.identifier()) for t in T for _, f in self.filters[t]]
        rng.shuffle(conds)
        self.used = {t: set() for t in T}
        for (a, c), (b, d) in self.equis:
            self.used[a].add(c)
            self.used[b].add(d)
        for t in T:
            self.used[t] |= {c for c, _ in self.filters[t]}
        sel = rng.choice(["count", "count", "col", "star", "tstar"])
        if sel == "count":
            target = "COUNT(*)"
        elif sel == "star":
            target = "*"
            for t in T:
                self.used[t] |= set(COLS)
        elif sel == "tstar":
            t = rng.choice(T)
            target = f"{t.identifier()}.*"
            self.used[t] |= set(COLS)
        else:
            t, c = rng.choice(T), rng.choice(COLS)
            target = f"{t.identifier()}.{c}"
            self.used[t].add(c)
        decl = [f"{t.schema + '.' if t.schema else ''}{t.full_name}{' AS ' + t.alias if t.alias else ''}" for t in rng.sample(T, n)]
        self.sql = f"SELECT {target} FROM {', '.join(decl)}" + (" WHERE " + " AND ".join(conds) if conds else "")
        self.query = parse_query(self.sql, bind_columns=False)
        # physical design per base table
        self.indexes = {}
        for t in T:
            for c in COLS:
                if (t.schema, t.full_name, c) not in self.indexes:
                    k = rng.choice([0, 0, 1, 1, 2])
                    self.indexes[t.schema, t.full_name, c] = {f"idx_{t.schema}_{t.full_name}_{c}_{i}" for i in range(k)}
        self.seed = rng.randrange(1 << 30)
        self.mode = rng.choice(["small", "wide", "near", "near", "inf"])
        self.pages = {}

    def index_set(self, t, c):
        return self.indexes.get((t.schema, t.full_name, c), set())

    def index_columns(self, t):
        return [c for c in sorted(self.used[t]) if self.index_set(t, c)]

    def local(self, *key):
        """deterministic local cost of an operator"""
        h = zlib.crc32(repr((self.seed,) + key).encode())
        r = random.Random(h)
        if self.mode == "small":
            return float(r.randint(1, 4))
        if self.mode == "wide":
            return float(round(10 ** r.uniform(0, 5)))
        if self.mode == "near":
            return float(r.randint(1000, 1030)) if r.random() < 0.8 else float(r.randint(900, 2000))
        return math.inf if r.random() < 0.15 and "SequentialScan" not in key and "NestedLoopJoin" not in key else float(r.randint(1, 200))

    def card(self, tabs):
        return zlib.crc32(repr((self.seed, "card", names(tabs))).encode()) % 10000


def names(tabs):
    return tuple(sorted(map(str, tabs)))


def key_of(plan):
    """identity of an operator invocation as far as the cost model is concerned"""
    op = plan.operator.name if plan.operator is not None else plan.node_type
    w = plan.parallel_workers or 0
    extra = ""
    if plan.is_scan():
        extra = str(plan.params.index or "")
    elif op == "Sort":
        extra = str(sorted(map(str, plan.sort_keys[0].equivalence_class)))
    elif op == "Memoize":
        extra = str(plan.params.lookup_key)
    elif op == "NestedLoopJoin" and plan.inner_child.operator in (IntermediateOperator.Memoize, IntermediateOperator.Materialize):
        extra = plan.inner_child.operator.name + str(plan.inner_child.params.lookup_key or "")
    w = 0 if (isinstance(w, float) and math.isnan(w)) else int(w)
    return (op, tuple(names(c.tables()) for c in plan.children) if plan.children else names(plan.tables()), extra, w)


class Model(CostModel):
    def __init__(self, mon, world, fail_after=None):
        super().__init__()
        self.mon, self.world, self.state, self.calls, self.fail_after = mon, world, "new", 0, fail_after

    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        self.mon.eq(self.state, "new", "cost-model-initialized-twice")
        self.state = "ready"

    def cleanup(self):
        super().cleanup()
        self.state = "done"

    def estimate_cost(self, query, plan):
        w, mon = self.world, self.mon
        self.calls += 1
        mon.check(self.state == "ready", "cost-model-uninitialized", lambda: f"{w.sql}\n{plan}")
        if self.fail_after is not None and self.calls > self.fail_after:
            raise LookupError("injected")
        mon.check(plan.estimated_cardinality == plan.estimated_cardinality, "cost-without-cardinality", lambda: f"{w.sql}\n{plan.inspect()}")
        mon.check(all(c.estimated_cost == c.estimated_cost for c in plan.children), "cost-without-input-cost", lambda: f"{w.sql}\n{plan.inspect()}")
        return self.world.local(*key_of(plan)) + sum(c.estimated_cost for c in plan.children)

    def describe(self):
        return {"name": "monitor"}


class Estimator(CardinalityEstimator):
    def __init__(self, mon, world):
        super().__init__()
        self.mon, self.world, self.state, self.calls = mon, world, "new", 0

    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        self.mon.eq(self.state, "new", "estimator-initialized-twice")
        self.state = "ready"

    def cleanup(self):
        super().cleanup()
        self.state = "done"

    def calculate_estimate(self, query, intermediate):
        self.calls += 1
        tabs = {intermediate} if isinstance(intermediate, TableReference) else set(intermediate)
        self.mon.check(self.state == "ready", "estimator-uninitialized", self.world.sql)
        self.mon.check(bool(tabs) and tabs <= set(self.world.tabs), "estimator-tables", lambda: f"{self.world.sql}\n{tabs}")
        return Cardinality(self.world.card(tabs))

    def describe(self):
        return {"name": "monitor"}


class Schema:
    world = None

    def indexes_on(self, column):
        return set(self.world.index_set(column.table, column.name))

    def columns(self, table):
        return [ColumnReference(c, table) for c in COLS]


class Stats:
    db = None

    def n_pages(self, rel):
        return self.db.pages.setdefault(str(rel), self.db.rnd.choice([0, 1, 5, 40, 1000]))


class Hints:
    ops = frozenset()

    def supports_hint(self, h):
        return h in self.ops


class FakeDb:
    """stand-in for the target database"""
    def prepare(self, rng, ops):
        self._s, self._h, self._st = Schema(), Hints(), Stats()
        self._h.ops = frozenset(ops)
        self._st.db = self
        self.pages, self.rnd = {}, rng
        return self

    def hinting(self):
        return self._h

    def schema(self):
        return self._s

    def statistics(self):
        return self._st

    def describe(self):
        return {"name": "fake"}


class FakePg(FakeDb, PostgresInterface):
    def __init__(self):
        pass

    def __del__(self):
        pass


# --- oracle ----------------------------------------------------------------------------------------------------------
class Space:
    """search space shared by the oracles"""
    def __init__(self, world, scans, joins, ec):
        self.w, self.scans, self.joins = world, scans, joins
        cls = {}
        find = lambda c: c if cls.setdefault(c, c) == c else find(cls[c])
        for a, b in world.equis:
            cls[find(a)] = find(b)
        self.cls = {c: find(c) for c in list(cls)}
        self.ec = ec
        if ec:
            self.keys = [(a, b) for a in self.cls for b in self.cls if a[0] != b[0] and self.cls[a] == self.cls[b]]
        else:
            self.keys = [k for e in world.equis for k in (e, e[::-1])]
        self.edges = {frozenset((a[0], b[0])) for a, b in self.keys}

    def linked(self, s1, s2):
        return any(len(e & s1) == 1 and len(e & s2) == 1 for e in self.edges)

    def splits(self, s):
        lst = sorted(s, key=tkey)
        for k in range(1, len(lst)):
            for c in itertools.combinations(lst, k):
                a = frozenset(c)
                yield a, s - a

    def scan_paths(self, t):
        """(cost, sort column or None)"""
        w, out, nm = self.w, [], names([t])
        if ScanOperator.SequentialScan in self.scans:
            out.append((w.local("SequentialScan", nm, "", 0), None))
        ics = w.index_columns(t)
        for c in ics:
            for i in w.index_set(t, c):
                if ScanOperator.IndexScan in self.scans:
                    out.append((w.local("IndexScan", nm, i, 0), (t, c)))
                if ScanOperator.IndexOnlyScan in self.scans and len(w.used[t]) <= 1:
                    out.append((w.local("IndexOnlyScan", nm, i, 0), (t, c)))
        if ics and ScanOperator.BitmapScan in self.scans:
            out.append((w.local("BitmapScan", nm, "", 0), None))
        return out

    def simple(self):
        """optimum without sort orders"""
        memo = {}

        def opt(s):
            if s not in memo:
                if len(s) == 1:
                    memo[s] = min((c for c, _ in self.scan_paths(next(iter(s)))), default=None)
                else:
                    best = None
                    for a, b in self.splits(s):
                        if not self.linked(a, b):
                            continue
                        ca, cb = opt(a), opt(b)
                        if ca is None or cb is None:
                            continue
                        for j in self.joins:
                            c = ca + cb + self.w.local(j.name, (names(a), names(b)), "", 0)
                            best = c if best is None else min(best, c)
                    memo[s] = best
            return memo[s]
        return opt(frozenset(self.w.tabs))

    def sorted_space(self, memoize, materialize, sort):
        """optimum with sort orders (per equivalence class of columns), memoize and materialize below nested loops"""
        w, best, bysort = self.w, {}, {}
        inf = math.inf

        def sort_cost(s, col):
            return w.local("Sort", (names(s),), str([f"{ref(col)}"]), 0)

        def visit(s):
            if s in best:
                return
            paths = []
            if len(s) == 1:
                for c, col in self.scan_paths(next(iter(s))):
                    paths.append((c, self.cls.get(col)))
            else:
                for a, b in self.splits(s):
                    if not self.linked(a, b):
                        continue
                    visit(a)
                    visit(b)
                    ca, cb = best[a], best[b]
                    loc = lambda j, extra="": w.local(j, (names(a), names(b)), extra, 0)
                    if JoinOperator.NestedLoopJoin in self.joins:
                        inner = [cb + loc("NestedLoopJoin")]
                        if memoize:
                            inner += [cb + w.local("Memoize", (names(b),), str(ref(d)), 0) + loc("NestedLoopJoin", f"Memoize{ref(d)}")
                                      for c, d in self.keys if c[0] in a and d[0] in b]
                        if materialize:
                            inner.append(cb + w.local("Materialize", (names(b),), "", 0) + loc("NestedLoopJoin", "Materialize"))
                        paths.append((ca + min(inner), None))
                    if JoinOperator.HashJoin in self.joins:
                        paths.append((ca + cb + loc("HashJoin"), None))
                    if JoinOperator.SortMergeJoin in self.joins:
                        for c, d in self.keys:
                            if c[0] in a and d[0] in b:
                                k = self.cls[c]
                                la = min(bysort[a].get(k, inf), best[a] + sort_cost(a, c) if sort else inf)
                                lb = min(bysort[b].get(k, inf), best[b] + sort_cost(b, d) if sort else inf)
                                paths.append((la + lb + loc("SortMergeJoin"), k))
            best[s] = min((c for c, _ in paths), default=inf)
            bysort[s] = {}
            for c, k in paths:
                if k is not None:
                    bysort[s][k] = min(c, bysort[s].get(k, inf))

        full = frozenset(w.tabs)
        visit(full)
        return best[full]


def ref(col):
    return ColumnReference(col[1], col[0])


# --- validation of a plan ----------------------------------------------------------------------------------------------
def conj(p):
    if p is None:
        return []
    if type(p).__name__ == "CompoundPredicate" and p.operation.name == "And":
        return [x for c in p.children for x in conj(c)]
    return [p]


def validate(mon, world, space, plan, ctx, memoize=False, materialize=False, sort=False, workers=0):
    seen = []
    kinds = set()

    def walk(n, above):
        mon.count("nodes")
        op = n.operator
        if not n.is_auxiliary():
            mon.eq(n.estimated_cardinality, Cardinality(world.card(n.tables())), "node-cardinality", ctx)
        cost = world.local(*key_of(n)) + sum(c.estimated_cost for c in n.children)
        mon.check(n.estimated_cost == cost or abs(n.estimated_cost - cost) < 1e-6, "node-cost", lambda: f"{ctx}\n{n.inspect()}\nrecomputed {cost}")
        pw = n.parallel_workers
        if pw and pw == pw:
            kinds.add("parallel")
            mon.check(0 < pw <= workers, "workers", lambda: f"{ctx}\n{n.inspect()}")
        if n.is_scan():
            t = n.base_table
            mon.check(not n.children, "scan-with-input", ctx)
            mon.check(op in space.scans, "scan-operator", lambda: f"{ctx}\n{n.inspect()}")
            seen.append(t)
            if op in (ScanOperator.IndexScan, ScanOperator.IndexOnlyScan):
                kinds.add("index")
                cols = [c for c in world.index_columns(t) if n.params.index in world.index_set(t, c)]
                mon.check(len(cols) == 1, "scan-index", lambda: f"{ctx}\n{n.inspect()} index {n.params.index}")
                mon.check([k.is_compatible_with(ref((t, cols[0]))) for k in n.sort_keys] == [True], "scan-sorting", lambda: f"{ctx}\n{n.sort_keys}")
                if op == ScanOperator.IndexOnlyScan:
                    mon.check(world.used[t] <= {cols[0]}, "index-only-scan", lambda: f"{ctx}\n{n.inspect()} needs {world.used[t]}")
            elif op == ScanOperator.BitmapScan:
                mon.check(bool(world.index_columns(t)), "bitmap-without-index", lambda: f"{ctx}\n{n.inspect()}")
            got, want = {str(p) for p in conj(n.filter_predicate)}, {str(p) for p in conj(world.query.predicates().filters_for(t))}
            mon.check(want <= got and len(want) == len(world.filters[t]) and all(x in want or space.ec for x in got), "scan-filter", lambda: f"{ctx}\n{n.inspect()}: {got}, want {want}")
            return frozenset([t])
        if n.is_join():
            mon.check(op in space.joins, "join-operator", lambda: f"{ctx}\n{n.inspect()}")
            mon.eq(len(n.children), 2, "join-inputs", ctx)
            a, b = walk(n.outer_child, (n, 0)), walk(n.inner_child, (n, 1))
            mon.check(not (a & b), "join-overlap", lambda: f"{ctx}\n{n.inspect()}")
            mon.check(space.linked(a, b), "cross-product", lambda: f"{ctx}\n{n.inspect()}")
            got = {frozenset(p.columns()) for p in conj(n.filter_predicate)}
            want = {frozenset((ref(c), ref(d))) for c, d in world.equis if (c[0] in a and d[0] in b) or (c[0] in b and d[0] in a)}
            allowed = {frozenset((ref(c), ref(d))) for c, d in space.keys if (c[0] in a and d[0] in b) or (c[0] in b and d[0] in a)}
            mon.check(want <= got <= allowed, "join-predicate", lambda: f"{ctx}\n{n.inspect()}: surplus {[*map(str, got - allowed)]}, missing {[*map(str, want - got)]}: {n.filter_predicate}")
            if op == JoinOperator.SortMergeJoin:
                kinds.add("merge")
                if sort is not None:
                    ka, kb = n.outer_child.sort_keys, n.inner_child.sort_keys
                    ok = any((c[0] in a and d[0] in b) and ka and kb and ka[0].is_compatible_with(ref(c)) and kb[0].is_compatible_with(ref(d)) for c, d in space.keys)
                    mon.check(ok, "merge-unsorted", lambda: f"{ctx}\n{n.inspect()}\n{ka} {kb}")
            return a | b
        mon.eq(len(n.children), 1, "aux-inputs", ctx)
        if op == IntermediateOperator.Sort:
            mon.check(bool(sort) and above and above[0].operator == JoinOperator.SortMergeJoin, "unexpected-sort", lambda: f"{ctx}\n{plan.inspect()}")
            kinds.add("sort")
        elif op == IntermediateOperator.Memoize:
            ok = memoize and above and above[0].operator == JoinOperator.NestedLoopJoin and above[1] == 1
            mon.check(ok, "unexpected-memoize", lambda: f"{ctx}\n{plan.inspect()}")
            kinds.add("memo")
        elif op == IntermediateOperator.Materialize:
            ok = materialize and above and above[0].operator == JoinOperator.NestedLoopJoin and above[1] == 1
            mon.check(ok, "unexpected-materialize", lambda: f"{ctx}\n{plan.inspect()}")
            kinds.add("materialize")
        else:
            mon.fail("unexpected-node", f"{ctx}\n{plan.inspect()}")
        s = walk(n.children[0], (n, 0))
        if op == IntermediateOperator.Memoize:
            mon.check(any(str(ref(d)) == str(n.params.lookup_key) for c, d in space.keys if d[0] in s and c[0] not in s), "memoize-key", lambda: f"{ctx}\n{n.params.lookup_key}")
        return s

    walk(plan, None)
    mon.check(sorted(map(tkey, seen)) == sorted(map(tkey, world.tabs)), "plan-tables", lambda: f"{ctx}\n{plan.inspect()}")
    for k in kinds:
        mon.count(f"{k}-plans")
    return kinds


def configuration(rng, pg=False):
    supported = set(rng.sample(SC, rng.randint(2, 4)) + rng.sample(JO, rng.randint(1, 3)))
    if rng.random() < 0.8:
        supported.add(ScanOperator.SequentialScan)
    scans = set(rng.sample(SC, rng.randint(1, 4))) if rng.random() < 0.5 else None
    joins = set(rng.sample(JO, rng.randint(1, 3))) if rng.random() < 0.5 else None
    s = {o for o in SC if o in supported and (scans is None or o in scans)}
    j = {o for o in JO if o in supported and (joins is None or o in joins)}
    return supported, scans, joins, s, j


# --- scenarios -------------------------------------------------------------------------------------------------------
def bushy(mon, rng):
    """Larger join graphs with few operators and heavy-tailed join costs: the optimum is often a bushy tree."""
    s, j = {ScanOperator.SequentialScan}, {rng.choice(JO)}
    basic(mon, rng, (s | j, None, None, s, j), n=rng.choice([5, 6, 6, 6, 7]))
    mon.count("bushy-worlds")


def basic(mon, rng, config=None, n=None):
    supported, scans, joins, s, j = config or configuration(rng)
    db = FakeDb().prepare(rng, supported)
    enum = DynamicProgrammingEnumerator(supported_scan_ops=scans, supported_join_ops=joins, target_db=db)
    for step in range(1 if n else rng.choice([1, 1, 2, 3])):
        w = World(rng, n=n)
        if n:
            w.mode = rng.choice(["small", "wide", "wide", "wide"])
        db._s.world = w
        space = Space(w, s, j, ec=False)
        opt = space.simple()
        model, est = Model(mon, w, fail_after=rng.randint(0, 5) if rng.random() < 0.1 else None), Estimator(mon, w)
        ctx = f"{w.sql} scans={[o.name for o in s]} joins={[o.name for o in j]} {w.mode} indexes={ {k: v for k, v in w.indexes.items() if v} } step={step}"
        try:
            plan = enum.generate_execution_plan(w.query, cost_model=model, cardinality_estimator=est)
        except LookupError:
            if model.fail_after is not None:
                mon.count("recovered")
                continue
            raise
        except ValueError as e:
            # no operator can compute some part of the query
            mon.check(opt is None, "no-plan", lambda: f"{ctx}\n{e!r}, optimum {opt}", key=("none", w.shape, len(s), len(j)))
            continue
        mon.count("plans")
        mon.check(opt is not None, "unexpected-plan", lambda: f"{ctx}\n{plan.inspect()}")
        validate(mon, w, space, plan, ctx, sort=None)
        mon.check(plan.estimated_cost == opt, "optimality", lambda: f"{ctx}\n{plan.inspect()}\noptimum {opt}", key=("basic", w.shape, len(s), len(j), opt))
        mon.eq((model.state, est.state), ("done", "done"), "cleanup", ctx)
        mon.count("cost-calls", model.calls)
        mon.count("estimator-calls", est.calls)


def postgres(mon, rng):
    supported, scans, joins, s, j = configuration(rng, pg=True)
    if not j:
        return
    memoize, materialize, sort = (rng.random() < 0.6 for _ in range(3))
    workers = rng.choice([0, 0, 0, None, 2, 8])
    db = FakePg().prepare(rng, supported)
    added = []
    hook = None
    if rng.random() < 0.25:
        def hook(enum_, rel, path, partial):
            added.append((rel.intermediate, path.tables(), partial))
            enum_.standard_add_path(rel, path, is_partial=partial)
    enum = PostgresDynProg(supported_scan_ops=scans, supported_join_ops=joins, enable_materialize=materialize, enable_memoize=memoize, enable_sort=sort,
                           max_parallel_workers=workers, add_path_hook=hook, target_db=db)
    for step in range(rng.choice([1, 1, 2, 3])):
        w = World(rng, n=rng.choice([1, 2, 3, 3, 4, 4]))
        db._s.world = w
        space = Space(w, s, j, ec=True)
        opt = space.sorted_space(memoize, materialize, sort)
        model, est = Model(mon, w, fail_after=rng.randint(0, 5) if rng.random() < 0.1 else None), Estimator(mon, w)
        ctx = (f"{w.sql} scans={[o.name for o in s]} joins={[o.name for o in j]} memo={memoize} mat={materialize} sort={sort} workers={workers} {w.mode} "
               f"indexes={ {k: v for k, v in w.indexes.items() if v} } step={step}")
        try:
            plan = enum.generate_execution_plan(w.query, cost_model=model, cardinality_estimator=est)
        except LookupError:
            if model.fail_after is not None:
                mon.count("recovered")
                continue
            raise
        except Exception as e:
            if type(e).__name__ not in ("LogicError", "AssertionError"):
                raise
            stuck = (opt == math.inf) or dead_end(space, w, sort)
            mon.check(stuck, "pg-no-plan", lambda: f"{ctx}\n{e!r}, optimum {opt}", key=("pgnone", w.shape))
            continue
        mon.count("plans")
        mon.count("pg-plans")
        mon.check(opt < math.inf or workers, "pg-unexpected-plan", lambda: f"{ctx}\n{plan.inspect()}")
        validate(mon, w, space, plan, ctx, memoize=memoize, materialize=materialize, sort=sort, workers=workers or 0)
        fuzzy = any(o in s for o in (ScanOperator.IndexScan, ScanOperator.IndexOnlyScan)) or JoinOperator.SortMergeJoin in j
        bound = opt * (1.01 ** len(w.tabs) if fuzzy else 1) * (1 + 1e-12)
        mon.check(plan.estimated_cost <= bound, "pg-optimality", lambda: f"{ctx}\n{plan.inspect()}\noptimum {opt}", key=("pg", w.shape, memoize, materialize, sort, workers, opt))
        if not workers:
            mon.check(plan.estimated_cost >= opt - 1e-9, "pg-below-optimum", lambda: f"{ctx}\n{plan.inspect()}\noptimum {opt}")
        if not fuzzy:
            mon.count("exact")
        mon.eq((model.state, est.state), ("done", "done"), "cleanup", ctx)
        mon.count("cost-calls", model.calls)
        mon.count("estimator-calls", est.calls)
        if hook is not None:
            mon.check(all(a == b for a, b, _ in added) and {a for a, *_ in added} >= {frozenset(w.tabs)}, "hook", lambda: f"{ctx}\n{added[:3]}")


def dead_end(space, w, sort):
    """some connected intermediate cannot be computed at all (the enumerator refuses such searches)"""
    for k in range(1, len(w.tabs) + 1):
        for c in itertools.combinations(w.tabs, k):
            sub = Space.__new__(Space)
            sub.__dict__.update(space.__dict__)
            sub.w = type("W", (), {})()
            sub.w.__dict__.update(w.__dict__)
            sub.w = w2 = _restrict(w, c)
            if not _conn(frozenset(c), space.edges):
                continue
            if sub.sorted_space(False, False, sort) == math.inf:
                return True
    return False


def _restrict(w, tabs):
    n = World.__new__(World)
    n.__dict__.update(w.__dict__)
    n.tabs = list(tabs)
    return n


def _conn(tabs, edges):
    seen, todo = set(), [next(iter(tabs))]
    while todo:
        t = todo.pop()
        if t not in seen:
            seen.add(t)
            todo += [x for e in edges if t in e for x in e if x in tabs]
    return seen == set(tabs)


SCENARIOS = [Scenario(bushy, quick=200, thorough=2000), Scenario(basic, quick=900, thorough=9000), Scenario(postgres, quick=900, thorough=9000)]
