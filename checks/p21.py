"""P21: UES upper bounds against true counts; structure of the produced join orders."""
import itertools
import math
import os
import warnings

import quacklab

import postbound as pb
from postbound import TableReference, duckdb
from postbound.opt._cardinalities import PreciseCardinalities
from postbound.parser import parse_query

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from postbound.opt import presets, ues

from lib import db as dbl
from lib.vlib import Scenario

PROPERTY = "P21"
TECHNIQUE = ("runtime monitoring of the UES optimizer on a live DuckDB engine: every node of every join order it produces is compared with COUNT(*) of the independently written fragment query, on skewed tables with and without keys and indexes; "
             "structural monitors for completeness, connectedness and linearity, history monitors for repeated optimization and data changes")
RULE = ("seeded conjunctive equi-join queries over 1-6 tables (stars, chains, snowflakes, n:m joins, compound join predicates, cycles, self-joins, disconnected parts, filters including impossible ones) on seeded schemas (which foreign keys are indexed varies) "
        "with empty, constant, NULL-heavy and skewed columns, distinct by query shape x branching policy x base table estimator x pulling of primary keys")
ASSUMPTIONS = ["bounds are judged with exact base table cardinalities and emulated (exact) column statistics only; with native base estimates only the structure is judged",
               "whether tables without any rows have bound 0 or more is left open", "queries with more than one join component may be arranged in any order of the components"]
LEVEL_NOTE = "true result sizes of all nodes of join orders for seeded queries and instances"
REQUIRE = {"nodes": 3000, "joins": 1700, "n-m-trees": 110, "star-trees": 60, "bushy": 6, "cross": 50, "strict-estimates": 1800, "native-estimates": 240, "tight": 110, "native": 60, "presets": 40, "rejected": 40}

T = {
    "hub": dict(cols=["id", "a", "b"], fk={}),
    "dim": dict(cols=["id", "hub_id", "a"], fk={"hub_id": "hub"}),
    "sub": dict(cols=["id", "dim_id", "a"], fk={"dim_id": "dim"}),
    "f1": dict(cols=["id", "hub_id", "dim_id", "a"], fk={"hub_id": "hub", "dim_id": "dim"}),
    "f2": dict(cols=["id", "hub_id", "sub_id", "b"], fk={"hub_id": "hub", "sub_id": "sub"}),
    "f3": dict(cols=["id", "f1_id", "a", "b"], fk={"f1_id": "f1"}),
    "free": dict(cols=["a", "b"], fk={}),
}


def make_db(mon, rng):
    path = f"{mon.tmp}/u{rng.randrange(10**12)}.db"
    con = quacklab.connect(path)
    con.execute("SET threads = 1")
    sizes = {}
    for t, d in T.items():
        cols = []
        for c in d["cols"]:
            if c == "id":
                cols.append("id INTEGER PRIMARY KEY")
            elif c in d["fk"]:
                cols.append(f"{c} INTEGER REFERENCES {d['fk'][c]} (id)")
            else:
                cols.append(f"{c} INTEGER")
        con.execute(f"CREATE TABLE {t} ({', '.join(cols)})")
        for c in d["cols"]:
            if c in d["fk"] and rng.random() < 0.75 or c not in d["fk"] and c != "id" and rng.random() < 0.1:
                con.execute(f"CREATE INDEX ix_{t}_{c} ON {t} ({c})")
        sizes[t] = fill(con, rng, t, sizes, 0)
    con.close()
    iface = duckdb.connect(path, name=f"ues{path}", refresh=True, private=True)
    return path, iface, sizes


def fill(con, rng, t, sizes, offset):
    d = T[t]
    n = rng.choice([0, 1, 2, 4, 8, 12, 20, 30])
    gens = {}
    for c in d["cols"]:
        if c == "id":
            gens[c] = None
        elif c in d["fk"]:
            m = sizes[d["fk"][c]]
            kind = rng.choice(["uniform", "skew", "one", "nulls"])
            fav = rng.randrange(m) if m else None
            gens[c] = (lambda m=m, kind=kind, fav=fav: None if not m or kind == "nulls" and rng.random() < 0.6 else fav if kind == "one" or kind == "skew" and rng.random() < 0.6 else rng.randrange(m))
        else:
            kind = rng.choice(["uniform", "skew", "one", "nulls", "wide", "allnull"] if rng.random() < 0.3 else ["uniform", "skew", "wide"])
            gens[c] = {"uniform": lambda: rng.randint(0, 4), "skew": lambda: 1 if rng.random() < 0.7 else rng.randint(0, 8), "one": lambda: 1, "nulls": lambda: None if rng.random() < 0.6 else rng.randint(0, 3),
                       "wide": lambda: rng.randint(0, 30), "allnull": lambda: None}[kind]
    rows = [tuple(offset + i if gens[c] is None else gens[c]() for c in d["cols"]) for i in range(n)]
    if rows:
        con.executemany(f"INSERT INTO {t} VALUES ({', '.join('?' * len(d['cols']))})", rows)
    return n


class QueryModel:
    def __init__(self, rng, shape):
        n = rng.choice([2, 3, 3, 4, 4, 5, 6]) if shape != "single" else 1
        names = list(T)
        self.tabs, self.joins, self.filters = [], [], []
        pkfk = {"star": 1.0, "mixed": 0.6, "nm": 0.1, "cross": 0.5, "single": 1}[shape]
        for i in range(n):
            if i == 0 or shape == "cross" and rng.random() < 0.35:
                self.add(rng.choice(names))
                continue
            k = rng.randrange(i)
            if rng.random() < pkfk:
                x = self.tabs[k][0]
                opts = [(f"{{0}}.{c}", t, "{1}.id") for c, t in T[x]["fk"].items()] + [("{0}.id", t, f"{{1}}.{c}") for t, d in T.items() for c, r in d["fk"].items() if r == x]
                if opts:
                    left, t, right = rng.choice(opts)
                    j = self.add(t)
                    self.join(rng, left.format(self.tabs[k][1]), right.format(None, self.tabs[j][1]))
                    continue
            j = self.add(rng.choice(names))
            self.join(rng, self.col(rng, k), self.col(rng, j))
        if n > 1 and shape != "cross":
            while rng.random() < 0.25:
                a, b = rng.sample(range(n), 2)
                self.join(rng, self.col(rng, a), self.col(rng, b))
        for i in range(n):
            while rng.random() < 0.3:
                c = self.col(rng, i)
                self.filters.append(rng.choice([f"{c} < {rng.randint(0, 12)}", f"{c} > {rng.randint(0, 6)}", f"{c} = {rng.randint(0, 4)}", f"{c} IN ({rng.randint(0, 3)}, {rng.randint(0, 9)})", f"{c} IS NOT NULL", f"{c} > 100",
                                                f"({c} = 1 OR {c} = {rng.randint(2, 5)})"]))
        conds = self.joins + self.filters
        rng.shuffle(conds)
        self.sql = "SELECT COUNT(*) FROM " + ", ".join(f"{t} AS {a}" if a != t else t for t, a in self.tabs) + (f" WHERE {' AND '.join(conds)}" if conds else "")
        self.query = parse_query(self.sql)
        self.preds = [(p, frozenset(a for _, a in self.tabs if f"{a}." in p.replace("(", " ").replace(" ", "  ") and any(w.startswith(f"{a}.") for w in p.replace("(", " ").split()))) for p in conds]

    def add(self, t):
        used = {a for _, a in self.tabs}
        a = t if t not in used and len(used) % 2 else f"{t[0]}{t[-1]}x{len(used)}"
        self.tabs.append((t, a))
        return len(self.tabs) - 1

    def col(self, rng, i):
        t, a = self.tabs[i]
        return f"{a}.{rng.choice([c for c in T[t]['cols'] if c != 'id' or rng.random() < 0.3] or ['id' if 'id' in T[t]['cols'] else 'a'])}"

    def join(self, rng, x, y):
        p = f"{x} = {y}" if rng.random() < 0.5 else f"{y} = {x}"
        if f"{x} = {y}" not in self.joins and f"{y} = {x}" not in self.joins:
            self.joins.append(p)

    def fragment(self, names):
        frm = ", ".join(f"{t} AS {a}" for t, a in self.tabs if a in names)
        conds = [p for p, ns in self.preds if ns <= names]
        return f"SELECT COUNT(*) FROM {frm}" + (f" WHERE {' AND '.join(conds)}" if conds else "")

    def components(self):
        todo, res = {a for _, a in self.tabs}, []
        while todo:
            comp, stack = set(), [min(todo)]
            while stack:
                x = stack.pop()
                if x in comp:
                    continue
                comp.add(x)
                for _, ns in self.preds:
                    if x in ns:
                        stack += list(ns)
            res.append(frozenset(comp))
            todo -= comp
        return res

    def linked(self, left, right):
        return any(len(ns) == 2 and ns & left and ns & right and ns <= left | right for _, ns in self.preds)


def names_of(node):
    return frozenset(t.identifier() for t in node.tables())


def structure(mon, m, tree, cfg):
    mon.check(isinstance(tree, pb.LogicalJoinTree), "type", lambda: f"{m.sql} [{cfg}]: {type(tree)}")
    leaves = [n.base_table.identifier() for n in tree.iternodes() if n.is_scan()]
    mon.eq(sorted(leaves), sorted(a for _, a in m.tabs), "complete", f"tables of the join order for {m.sql} [{cfg}]")
    mon.eq({(n.base_table.full_name, n.base_table.identifier()) for n in tree.iternodes() if n.is_scan()}, set(m.tabs), "references", f"tables of the join order for {m.sql} [{cfg}]")
    comps = m.components()
    joins = [n for n in tree.iternodes() if n.is_join()]
    for n in joins:
        left, right = names_of(n.outer_child), names_of(n.inner_child)
        mon.check(not left & right, "disjoint", lambda: f"{m.sql}: {tree}")
        mon.count("joins")
        if len(comps) == 1:
            mon.check(m.linked(left, right), "connected", lambda: f"{m.sql} [{cfg}]: cross product between {sorted(left)} and {sorted(right)} in {tree}")
        else:
            inside = [c for c in comps if left | right <= c]
            mon.check(not inside or m.linked(left, right), "connected", lambda: f"{m.sql} [{cfg}]: cross product between {sorted(left)} and {sorted(right)} in {tree}")
            if not inside:
                mon.check(all(s in comps or any(s == frozenset().union(*cs) for k in range(2, len(comps) + 1) for cs in itertools.combinations(comps, k)) for s in (left, right)), "cross-products-last",
                          lambda: f"{m.sql} [{cfg}]: components are torn apart: {tree}")
    if cfg["policy"] == "linear" and len(comps) == 1:
        mon.check(all(n.inner_child.is_scan() or n.outer_child.is_scan() for n in joins), "linear", lambda: f"{m.sql} [{cfg}]: branches in {tree}")
    if any(not n.inner_child.is_scan() and not n.outer_child.is_scan() for n in joins) and len(comps) == 1:
        mon.count("bushy")


def bounds(mon, m, tree, cfg, cur):
    for n in tree.iternodes():
        names = names_of(n)
        true = cur.execute(m.fragment(names)).fetchone()[0]
        ann = n.annotation
        mon.count("nodes")
        kind = "scan" if n.is_scan() else "join"
        if not mon.check(ann is not None and not math.isnan(ann), "no-bound", lambda: f"{m.sql} [{cfg}]: {kind} {sorted(names)} has bound {ann!r} in {tree.inspect() if hasattr(tree, 'inspect') else tree}"):
            continue
        if true and float(ann) == true and n.is_join():
            mon.count("tight")
        mon.check(float(ann) >= true, f"{kind}-bound", lambda: f"{m.sql} [{cfg}]: {kind} of {sorted(names)} has {true} rows, but the bound is {ann!r}: {[(sorted(names_of(x)), x.annotation) for x in tree.iternodes()]}")
        if n.is_scan():
            mon.check(float(ann) == true, "scan-exact", lambda: f"{m.sql} [{cfg}]: scan of {sorted(names)} has {true} rows, annotated with {ann!r}")


def dump(tree):
    return None if tree is None else (tree.base_table, tree.annotation) if tree.is_scan() else (dump(tree.outer_child), dump(tree.inner_child), tree.annotation)


class StrictEstimator(pb.CardinalityEstimator):
    """a stateful estimator with exact cardinalities: it only knows the query that it has been initialized for"""
    def __init__(self, mon, iface):
        super().__init__()
        self.mon, self.iface, self.current = mon, iface, None

    def initialize(self, target_db, query):
        self.mon.check(target_db is self.iface, "estimator-database", lambda: f"initialized for {target_db}")
        self.current = query

    def cleanup(self):
        self.current = None

    def calculate_estimate(self, query, intermediate):
        self.mon.count("strict-estimates")
        self.mon.check(self.current is not None and self.current == query, "estimator-state", lambda: f"estimate for {query}, but the estimator is initialized for {self.current}")
        tabs = [intermediate] if isinstance(intermediate, pb.TableReference) else list(intermediate)
        preds = [p for t in tabs for p in [query.predicates().filters_for(t)] if p]
        sql = f"SELECT COUNT(*) FROM {', '.join(map(str, tabs))}" + (f" WHERE {' AND '.join(map(str, preds))}" if preds else "")
        return pb.Cardinality(self.iface.cursor().execute(sql).fetchone()[0])

    def describe(self):
        return {"name": "strict"}


def optimizer(mon, rng, iface):
    cfg = dict(policy=rng.choice(["default", "ues", "linear"]), base=rng.choice(["precise", "precise", "cards", "strict", "strict"]), eager=rng.random() < 0.3)
    base = {"precise": ues.PreciseCardinalityEstimator, "cards": PreciseCardinalities, "strict": lambda db: StrictEstimator(mon, db)}[cfg["base"]](iface)
    pol = {"default": None, "ues": ues.UESSubqueryPolicy(), "linear": ues.LinearJoinTreePolicy()}[cfg["policy"]]
    return cfg, ues.UESJoinOrderOptimizer(base_table_estimation=base, subquery_policy=pol, pull_eager_pk_tables=cfg["eager"], database=iface)


def optimize(mon, rng):
    path, iface, sizes = make_db(mon, rng)
    iface.statistics().emulated = True
    iface.statistics().cache_enabled = False
    cur = iface.cursor()
    try:
        cfg, opt = optimizer(mon, rng, iface)
        seen = []
        for _ in range(rng.randint(2, 4)):
            shape = rng.choice(["star", "star", "mixed", "mixed", "nm", "cross", "single"])
            m = QueryModel(rng, shape)
            before = str(m.query)
            tree = opt.optimize_join_order(m.query)
            mon.eq(str(m.query), before, "query-changed", m.sql)
            if len(m.tabs) == 1:
                mon.check(tree is None or names_of(tree) == {m.tabs[0][1]}, "single", lambda: f"{m.sql}: {tree}")
                continue
            if not mon.check(tree is not None, "none", lambda: f"{m.sql} [{cfg}]: no join order"):
                continue
            structure(mon, m, tree, cfg)
            bounds(mon, m, tree, cfg, cur)
            mon.sample("bounds", dict(sql=m.sql, cfg=str(cfg), bounds=[(sorted(names_of(x)), float(x.annotation)) for x in tree.iternodes()]))
            jg = opt_graph(m, iface)
            mon.count("cross" if len(m.components()) > 1 else "n-m-trees" if jg and len(m.tabs) > 2 else "star-trees" if len(m.tabs) > 2 else "binary")
            mon.ok(f"{shape}:{len(m.tabs)}:{cfg['policy']}:{cfg['base']}:{cfg['eager']}:{len(m.joins)}:{len(m.filters)}")
            seen.append((m, dump(tree)))
        # history: earlier queries have no influence
        rng.shuffle(seen)
        for m, old in seen:
            mon.eq(dump(opt.optimize_join_order(m.query)), old, "history", f"second optimization of {m.sql} [{cfg}]")
        if rng.random() < 0.4 and seen:
            for t in rng.sample(["f3", "free"], 2):
                fill(cur, rng, t, sizes, 1000)
            m = seen[0][0]
            tree = opt.optimize_join_order(m.query)
            structure(mon, m, tree, cfg)
            bounds(mon, m, tree, cfg, cur)
            mon.count("after-changes")
    finally:
        iface.close()
        os.unlink(path)


def opt_graph(m, iface):
    from postbound.opt import JoinGraph
    return JoinGraph(m.query, iface.schema()).contains_free_n_m_joins()


def precheck(mon, rng, iface):
    opt = ues.UESJoinOrderOptimizer(database=iface)
    m = QueryModel(rng, "mixed")
    bad = rng.choice(["SELECT COUNT(*) FROM hub JOIN dim ON hub.id = dim.hub_id", "SELECT COUNT(*) FROM hub, dim WHERE hub.id < dim.hub_id", "SELECT COUNT(*) FROM hub, dim WHERE hub.id = dim.hub_id AND EXISTS (SELECT 1 FROM f1 WHERE f1.hub_id = hub.id)",
                      "WITH c AS (SELECT id AS x FROM hub) SELECT COUNT(*) FROM c, dim WHERE c.x = dim.hub_id", "SELECT COUNT(*) FROM hub, dim WHERE hub.id = dim.hub_id OR hub.a = dim.a",
                      "SELECT COUNT(*) FROM hub, dim WHERE hub.id <> dim.hub_id", "SELECT id FROM hub UNION SELECT id FROM dim"])
    q = parse_query(bad)
    verdict = opt.pre_check().check_supported_query(q)
    mon.check(not verdict.passed, "unsupported", lambda: f"pre-check of UES accepts {bad}")
    mon.check(opt.pre_check().check_supported_query(m.query).passed, "supported", lambda: f"pre-check of UES rejects {m.sql}")
    mon.count("rejected")


def pipeline(mon, rng):
    """the preset, native base estimates, and queries that are not supported"""
    path, iface, _ = make_db(mon, rng)
    cur = iface.cursor()
    iface.statistics().emulated = True
    try:
        pipe = pb.MultiStageOptimizationPipeline(iface)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pipe.load_settings(presets.fetch(rng.choice(["ues", "UES", "Ues"]), database=iface))
        pipe.build()
        precheck(mon, rng, iface)
        for _ in range(2):
            m = QueryModel(rng, rng.choice(["star", "mixed", "nm", "cross"]))
            opt = ues.UESJoinOrderOptimizer(database=iface)
            tree = opt.optimize_join_order(m.query)
            structure(mon, m, tree, dict(policy="native"))
            mon.count("native")
            native = ues.NativeCardinalityEstimator(iface)
            native.setup_for_query(m.query)
            for t in m.query.tables():
                preds = m.query.predicates().filters_for(t)
                want = iface.optimizer().cardinality_estimate(parse_query(f"SELECT * FROM {t} WHERE {preds}")) if preds else pb.Cardinality(cur.execute(f"SELECT COUNT(*) FROM {t.full_name}").fetchone()[0])
                mon.eq(native.estimate_for(t), want, "native-estimate", f"{t} in {m.sql}")
                mon.count("native-estimates")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                hinted = pipe.optimize_query(m.query)
            try:
                want = cur.execute(m.sql).fetchone()[0]
                got = iface.execute_query(hinted, raw=False)
            except quacklab.InternalException:  # the engine crashes for some hints, this is not PostBOUND's fault
                mon.count("engine-crash")
                return
            mon.eq(got, want, "result", f"{m.sql}: {hinted}")
            mon.sample("hinted", str(hinted)[:300])
            order = ues.UESOperatorSelection(iface).select_physical_operators(m.query, None)
            mon.check(order.get_globally_enabled_operators is not None and pb.JoinOperator.NestedLoopJoin not in order.get_globally_enabled_operators() if iface.hinting().supports_hint(pb.JoinOperator.NestedLoopJoin) else True,
                      "nested-loops", lambda: f"{order}")
            mon.count("presets")
            mon.ok(f"pipeline:{len(m.tabs)}:{len(m.joins)}")
    finally:
        iface.close()
        os.unlink(path)


SCENARIOS = [Scenario(optimize, quick=400, thorough=6000, cpu=120, name="optimize"), Scenario(pipeline, quick=80, thorough=800, cpu=120, name="pipeline")]
