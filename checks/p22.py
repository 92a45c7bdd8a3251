"""P22: cardinality generators against counts, stored numbers, native plans and recorded estimator calls."""
import collections
import csv
import itertools
import json
import math
import os
import pathlib
import re
import warnings

import quacklab

import postbound as pb
from postbound import Cardinality, TableReference, duckdb, opt, qal, util
from postbound._stages import CardinalityEstimator
from postbound.db import _db
from postbound.opt import _cardinalities as cards
from postbound.opt import native
from postbound.parser import parse_query

from lib import db as dbl
from lib import sqlgen
from lib.vlib import Scenario

PROPERTY = "P22"
TECHNIQUE = ("differential monitoring on a live DuckDB engine: every number of the generators is compared with counts of independently written fragment queries, stored numbers of generated lookup tables, EXPLAIN documents read directly, and "
             "recorded estimator calls, over histories with data changes, lookup-table updates and repeated requests")
RULE = ("seeded SPJ queries over 1-4 tables (with self-joins, cross products, grouping, ordering, limits), all intermediates or join orders, caching on/off, lookup tables with missing, repeated and additional entries under all fallback settings, "
        "fixed and random distortions of valid, unknown and infinite estimates, distinct by generator x configuration x query shape")
ASSUMPTIONS = ["no disjunctions over several tables (their fragments are documented to be approximations)", "no subqueries or CTEs", "distortions of infinite estimates may stay infinite or become unknown",
               "which database an estimator uses when both its constructor and the pipeline provide one is left open"]
LEVEL_NOTE = "exact comparison of all numbers for seeded queries, tables and configurations"
REQUIRE = {"exact": 2300, "exact-sets": 250, "stale-checks": 240, "decorated": 90, "stored": 600, "missing": 300, "live-fallback": 140, "reloads": 30, "native": 320, "distorted": 3300, "random-distorted": 1600, "join-orders": 230,
           "all-intermediates": 260, "pipelines": 60, "hint-cards": 240, "int-labels": 40}


class QueryModel:
    def __init__(self, rng, **kw):
        self.sql, self.tabs, self.joins, self.filters = sqlgen.spj(rng, select=rng.choice(["count", "star"]), **kw)
        self.tables = [TableReference(t, a) for t, a in self.tabs]
        self.names = [a or t for t, a in self.tabs]
        self.preds = [(p, frozenset(n for n in self.names if re.search(rf"(?<![\w.]){re.escape(n)}\.", p))) for p in self.joins + self.filters]
        where = self.sql.split(" WHERE ")[1] if " WHERE " in self.sql else ""
        self.decorated = ""
        if rng.random() < kw.get("decorate", 0.35):
            self.decorate(rng)
        self.query = parse_query(self.sql)

    def decorate(self, rng):
        """clauses that do not influence the intermediates"""
        cols = []
        for n, (t, _) in zip(self.names, self.tabs):
            cols += [f"{n}.{c}" for c, ty in dbl.SCHEMA[t]["cols"] if ty == "int"]
        kind = rng.choice(["group", "order", "limit", "distinct", "having", "order-limit"])
        body = self.sql.split(" FROM ", 1)[1]
        c = rng.choice(cols)
        if kind == "group":
            self.sql = f"SELECT {c}, COUNT(*) FROM {body} GROUP BY {c}"
        elif kind == "having":
            self.sql = f"SELECT {c}, COUNT(*) FROM {body} GROUP BY {c} HAVING {c} > 2"
        elif kind == "distinct":
            self.sql = f"SELECT DISTINCT {c} FROM {body}"
        elif kind == "order":
            self.sql = f"SELECT {c} FROM {body} ORDER BY {c}"
        elif kind == "limit":
            self.sql = f"SELECT {c} FROM {body} LIMIT {rng.choice([0, 1, 3])}"
        else:
            self.sql = f"SELECT {c} FROM {body} ORDER BY {c} DESC LIMIT {rng.choice([0, 2])}"
        self.decorated = kind

    def fragment(self, tables, projection, order=None):
        names = {t.identifier() for t in tables}
        frm = ", ".join(f"{t} AS {a}" if a else t for t, a in self.tabs if (a or t) in names)
        conds = [p for p, ns in self.preds if ns <= names]
        if order:
            order(conds)
        return f"SELECT {projection} FROM {frm}" + (f" WHERE {' AND '.join(conds)}" if conds else "")

    def connected(self, tables):
        names = {t.identifier() for t in tables}
        edges = [ns for _, ns in self.preds if len(ns) == 2 and ns <= names]
        seen, todo = set(), [next(iter(names))]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for e in edges:
                if x in e:
                    todo += list(e)
        return seen == names

    def intermediates(self, cross):
        res = []
        for k in range(1, len(self.tables) + 1):
            for s in itertools.combinations(self.tables, k):
                if cross or self.connected(s):
                    res.append(frozenset(s))
        return res

    def join_order(self, rng, cross):
        """a random join order, each node connected unless cross products are allowed"""
        parts = [(frozenset([t]), pb.JoinTree.scan(t)) for t in self.tables]
        while len(parts) > 1:
            pairs = [(i, j) for i in range(len(parts)) for j in range(len(parts)) if i != j and (cross or self.connected(parts[i][0] | parts[j][0]))]
            if not pairs:
                return None
            i, j = rng.choice(pairs)
            new = (parts[i][0] | parts[j][0], pb.JoinTree.join(parts[i][1], parts[j][1]))
            parts = [p for k, p in enumerate(parts) if k not in (i, j)] + [new]
        return parts[0][1]


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def num(c):
    return None if c is None else float(c)


def open_db(mon, rng):
    path = f"{mon.tmp}/c{rng.randrange(10**12)}.db"
    iface, _ = dbl.postbound_db(path, rng)
    return path, iface


def mutate(iface, rng):
    cur = iface.cursor()
    for t in ("tags", "badges", "votes"):
        if rng.random() < 0.5:
            cur.execute(f"DELETE FROM {t} WHERE id % {rng.choice([2, 3])} = 0")
    for i in range(rng.randint(0, 3)):
        cur.execute("INSERT INTO badges (id, user_id, name, class, gold) SELECT ?, (SELECT max(id) FROM users), 'n', ?, true", [rng.randrange(10**4, 10**9), rng.randint(0, 6)])


def true_card(cur, m, tables):
    return cur.execute(m.fragment(tables, "COUNT(*)")).fetchone()[0]


def exact(mon, rng):
    path, iface = open_db(mon, rng)
    cur = iface.cursor()
    cache = rng.random() < 0.5
    cross = rng.random() < 0.4
    if rng.random() < 0.3:
        iface.cache_enabled = True
        mon.count("db-cache")
    est = cards.PreciseCardinalities(iface, enable_cache=cache, allow_cross_products=cross)
    known = {}      # (query, tables) -> number the estimator may have cached
    for _ in range(3):
        m = QueryModel(rng, connected=rng.random() < 0.8)
        mon.count("decorated", int(bool(m.decorated)))
        ctx = f"{m.sql} (cache={cache})"
        for step in range(3):
            if step and rng.random() < 0.7:
                mutate(iface, rng)
                mon.count("stale-checks")
            if rng.random() < 0.2:
                est.reset_cache()
                known.clear()
            if rng.random() < 0.5:
                params = est.estimate_cardinalities(m.query) if rng.random() < 0.5 else est.generate_plan_parameters(m.query, None, None)
                want = m.intermediates(cross)
                mon.count("exact-sets")
                mon.eq({frozenset(k) for k in params.cardinalities}, set(want), "intermediates", f"intermediates of {ctx}, cross products {cross}")
                got = {frozenset(k): num(v) for k, v in params.cardinalities.items()}
            else:
                got = {}
                for s in rng.sample(m.intermediates(True), min(4, len(m.intermediates(True)))):
                    arg = rng.choice([lambda: s, lambda: list(s), lambda: set(s), lambda: tuple(s)])() if len(s) > 1 or rng.random() < 0.5 else next(iter(s))
                    res = est.calculate_estimate(m.query, arg)
                    mon.check(isinstance(res, Cardinality), "type", lambda: f"{type(res)}")
                    got[s] = num(res)
            for s, v in got.items():
                truth = true_card(cur, m, s)
                mon.count("exact")
                key = m.fragment(s, "x")
                allowed = {truth} | (known.get(key, set()) if cache else set())
                mon.check(v in allowed, "exact-cardinality", lambda: f"{v} instead of {truth} for {sorted(t.identifier() for t in s)} of {ctx}")
                mon.ok(f"exact:{len(m.tables)}:{len(s)}:{m.decorated}:{cache}:{truth > 0}")
                if cache:
                    known.setdefault(key, set()).add(v)
    iface.close()
    os.unlink(path)


def stored(mon, rng):
    path, iface = open_db(mon, rng)
    cur = iface.cursor()
    csv_path = f"{mon.tmp}/t{rng.randrange(10**12)}.csv"
    models = []
    while len(models) < 3:
        m = QueryModel(rng, connected=True)
        if all(m.query != o.query for o in models):
            models.append(m)
    style = rng.choice(["text", "text", "int-text", "int"])
    labels = {"text": [f"q{i}a" for i in range(3)], "int-text": ["1", "2", "10"], "int": [1, 2, 10]}[style]
    mon.count("int-labels", int(style != "text"))
    wl = pb.workloads.Workload(dict(zip(labels, [m.query for m in models])), name="w")
    cols = {"label": "label", "tables": "tables", "card": "cardinality"}
    kw = {}
    if rng.random() < 0.3:
        cols = {"label": "name", "tables": "tabs", "card": "true"}
        kw = {"label_col": "name", "tables_col": "tabs", "cardinality_col": "true"}
    extra = rng.random() < 0.4
    table, entries, dup = [], {}, None
    for lab, m in zip(labels, models):
        for s in m.intermediates(True):
            if rng.random() < 0.6:
                v = rng.choice([0, 1, rng.randint(2, 10**9), rng.randint(2, 50)])
                entries[lab, s] = v
                row = {cols["label"]: lab, cols["tables"]: util.to_json(rng.sample(sorted(s, key=str), len(s))), cols["card"]: v}
                if extra:
                    row |= {"query": m.sql, "query_fragment": m.fragment(s, "*"), "note": "it's, \"x\""}
                table.append(row)
    if table and rng.random() < 0.15:
        r = rng.choice(table)
        table.append(dict(r))
        dup = (r[cols["label"]], frozenset(pb.parser.load_table_json(t) for t in json.loads(r[cols["tables"]])))
    rng.shuffle(table)
    with open(csv_path, "w", newline="") as f:
        w = csv.DictWriter(f, [cols["label"], cols["tables"], cols["card"]] + (["query", "query_fragment", "note"] if extra else []))
        w.writeheader()
        w.writerows(table)
    fallback = rng.choice(["none", "none-quiet", "default", "default-zero", "default-unknown", "actual", "estimated", "actual-nosave", "actual-quiet"])
    opts = {"none": {}, "none-quiet": {"error_on_missing_card": False}, "default": {"default_cardinality": Cardinality(17)}, "default-zero": {"default_cardinality": Cardinality(0)}, "default-unknown": {"default_cardinality": Cardinality.unknown()},
            "actual": {"live_fallback": True, "live_fallback_style": "actual", "live_db": iface}, "estimated": {"live_fallback": True, "live_db": iface},
            "actual-nosave": {"live_fallback": True, "live_fallback_style": "actual", "live_db": iface, "save_live_fallback_results": False},
            "actual-quiet": {"live_fallback": True, "live_fallback_style": "actual", "live_db": iface, "error_on_missing_card": False}}[fallback]
    cross = rng.random() < 0.5
    make = lambda: cards.PreComputedCardinalities(wl, csv_path, include_cross_products=cross, **kw, **opts)
    est = make()
    original = pathlib.Path(csv_path).read_text()
    asked = set()
    for step in range(rng.randint(8, 16)):
        i = rng.randrange(3)
        lab, m = labels[i], models[i]
        s = rng.choice(m.intermediates(True))
        arg = next(iter(s)) if len(s) == 1 and rng.random() < 0.5 else rng.choice([set, list, tuple, frozenset])(s)
        ctx = f"{fallback}, labels {style}, {sorted(t.identifier() for t in s)} of {lab}: {m.sql}"
        if dup == (lab, s):
            mon.raises(lambda: est.calculate_estimate(m.query, arg), "ambiguous", f"{ctx}: two stored numbers", ValueError)
            continue
        if (lab, s) in entries:
            got = est.calculate_estimate(m.query, arg)
            mon.count("stored")
            mon.check(isinstance(got, Cardinality) and same(num(got), entries[lab, s]), "stored-cardinality", lambda: f"{ctx}: {got!r} instead of the stored {entries[lab, s]}")
            continue
        mon.count("missing")
        if fallback == "none":
            mon.raises(lambda: est.calculate_estimate(m.query, arg), "missing-error", f"{ctx}: no stored number, no fallback", ValueError)
            continue
        got = est.calculate_estimate(m.query, arg)
        if fallback in ("none-quiet", "default-unknown"):
            mon.check(got is None or math.isnan(got), "missing-unknown", lambda: f"{ctx}: {got!r}")
        elif fallback.startswith("default"):
            mon.check(num(got) == num(opts["default_cardinality"]), "missing-default", lambda: f"{ctx}: {got!r} instead of the default")
        else:
            mon.count("live-fallback")
            if fallback == "estimated":
                want = native_estimate(cur, m, s)
                mon.count("native-open", int(want is None))
            else:
                want = true_card(cur, m, s)
            if want is not None:
                mon.check(num(got) == want, "fallback-cardinality", lambda: f"{ctx}: {got!r} instead of {want}")
            if fallback != "actual-nosave":
                entries[lab, s] = num(got)
            if rng.random() < 0.5 and fallback.startswith("actual"):
                mutate(iface, rng)
        if fallback != "actual-nosave" and fallback in ("actual", "estimated", "actual-quiet") and rng.random() < 0.4:
            est = make()        # a later process reads the extended table
            mon.count("reloads")
            entry = lambda r: (r[cols["label"]] if isinstance(r[cols["label"]], str) else str(r[cols["label"]]), frozenset(pb.parser.load_table_json(t) for t in json.loads(r[cols["tables"]])))
            rows = list(csv.DictReader(open(csv_path)))
            want = collections.Counter(map(entry, table)) + collections.Counter((str(a), b) for a, b in entries if (str(a), b) not in set(map(entry, table)))
            mon.eq(sorted(f"{k[0]} {_names(k[1])} x{v}" for k, v in collections.Counter(map(entry, rows)).items()), sorted(f"{k[0]} {_names(k[1])} x{v}" for k, v in want.items()), "lookup-table-rows", f"{ctx}: rows of the lookup table")
            if extra:
                old = {entry(r): r for r in rows}
                mon.check(all((o := old.get(entry(r))) and o["note"] == r["note"] and o["query"] == r["query"] and o["query_fragment"] == r["query_fragment"] for r in table), "lookup-table-columns",
                          lambda: f"{ctx}: other columns of the lookup table changed")
                given = set(map(entry, table))
                mon.check(all(parse_query(r["query"]) == models[[str(x) for x in labels].index(r[cols["label"]])].query for r in rows if entry(r) not in given), "lookup-table-query", lambda: f"{ctx}: saved rows with other queries")
    if fallback in ("none", "none-quiet", "default", "default-zero", "default-unknown", "actual-nosave"):
        mon.check(pathlib.Path(csv_path).read_text() == original, "lookup-table-written", lambda: f"{fallback}: the lookup table was modified")
    mon.ok(f"stored:{fallback}:{style}:{bool(kw)}:{extra}")
    if fallback == "default" and not dup:
        m, lab = rng.choice(list(zip(models, labels)))
        params = est.estimate_cardinalities(m.query)
        want = {s: float(entries.get((lab, s), 17)) for s in m.intermediates(cross)}
        mon.eq({frozenset(k): num(v) for k, v in params.cardinalities.items()}, want, "stored-parameters", f"all estimates of {m.sql}")
    iface.close()
    os.unlink(path)
    os.unlink(csv_path)


def native_estimate(cur, m, s):
    """the estimate of the engine, None if it does not provide one or if it depends on the order of the predicates"""
    found = []
    for order in (None, list.reverse, list.sort, lambda x: x.sort(reverse=True)):
        doc = json.loads(cur.execute("EXPLAIN (FORMAT JSON) " + m.fragment(s, "*", order)).fetchone()[1])
        found.append(doc[0].get("extra_info", {}).get("Estimated Cardinality"))
    return float(found[0]) if found[0] is not None and len(set(found)) == 1 else None


def native_cards(mon, rng):
    path, iface = open_db(mon, rng)
    cur = iface.cursor()
    for _ in range(3):
        m = QueryModel(rng, connected=rng.random() < 0.8)
        mon.count("decorated", int(bool(m.decorated)))
        est = native.NativeCardinalityEstimator(iface if rng.random() < 0.5 else None)
        est.initialize(iface, m.query)
        distorted = None
        if rng.random() < 0.3:
            distorted = rng.choice([0.5, 2.0])
            base, est = est, None
            est = cards.CardinalityDistortion(native.NativeCardinalityEstimator(), distorted)
            est.initialize(iface, m.query)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            jo = m.join_order(rng, True) if rng.random() < 0.5 else None
            params = est.generate_plan_parameters(m.query, jo, None)
        want = set(m.intermediates(True)) if jo is None else {frozenset(n.tables()) for n in jo.iternodes()}
        got = {frozenset(k): num(v) for k, v in params.cardinalities.items()}
        mon.check(set(got) <= want, "native-intermediates", lambda: f"{m.sql}: estimates for {set(got) - want}")
        for s in want:
            ref = native_estimate(cur, m, s)
            if ref is None:
                continue
            mon.count("native")
            exp = float(round(ref * distorted)) if distorted else ref
            mon.check(got.get(s) == exp, "native-estimate", lambda: f"{m.sql}: {got.get(s)} instead of the estimate {exp} of the optimizer for {m.fragment(s, '*')}")
        mon.ok(f"native:{len(m.tables)}:{m.decorated}:{jo is None}:{distorted}")
        est.cleanup()
    iface.close()
    os.unlink(path)


class Recorder(CardinalityEstimator):
    """answers from a table and records what it is asked"""

    def __init__(self, answers, cross=False):
        super().__init__(allow_cross_products=cross)
        self.answers, self.calls, self.log = answers, [], []

    def calculate_estimate(self, query, intermediate):
        s = frozenset(util.enlist(intermediate))
        self.calls.append((query, s))
        self.log.append("estimate")
        return self.answers[s]

    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        self.log.append("initialize")
        self.init = (target_db, query)

    def cleanup(self):
        super().cleanup()
        self.log.append("cleanup")

    def describe(self):
        return {"name": "recorder"}


def answers(rng, m, nan=True):
    res = {}
    for s in m.intermediates(True):
        res[s] = rng.choice([Cardinality(rng.randint(0, 10**6)), Cardinality(rng.randint(0, 50)), Cardinality(0), Cardinality(1)] + ([Cardinality.unknown()] if nan else []))
    return res


def generic(mon, rng):
    m = QueryModel(rng, connected=rng.random() < 0.8)
    cross = rng.random() < 0.4
    ans = answers(rng, m)
    est = Recorder(ans, cross)
    jo = m.join_order(rng, rng.random() < 0.3) if rng.random() < 0.5 else None
    ops = pb.PhysicalOperatorAssignment() if rng.random() < 0.3 else None
    if jo is None:
        params = est.estimate_cardinalities(m.query) if rng.random() < 0.5 else est.generate_plan_parameters(m.query, None, ops)
        want = set(m.intermediates(cross))
        mon.count("all-intermediates")
        mon.eq(sorted(map(_names, est.generate_intermediates(m.query))), sorted(map(_names, want)), "generated-intermediates", f"generate_intermediates of {m.sql}, cross products {cross}")
    else:
        params = est.generate_plan_parameters(m.query, jo, ops)
        want = {frozenset(n.tables()) for n in jo.iternodes()}
        mon.count("join-orders")
    got = {frozenset(k): num(v) for k, v in params.cardinalities.items()}
    expected = {s: num(ans[s]) for s in want if not math.isnan(ans[s])}
    mon.eq({_names(k): v for k, v in got.items()}, {_names(k): v for k, v in expected.items()}, "parameters", f"estimates for {m.sql}, join order {jo}")
    mon.check({s for _, s in est.calls} <= want and all(q == m.query for q, _ in est.calls), "asked", lambda: f"{m.sql}: asked for {sorted(map(_names, {s for _, s in est.calls} - want))}")
    mon.check(not params.parallel_workers and not params.system_settings, "other-parameters", "")
    mon.ok(f"generic:{len(m.tables)}:{cross}:{jo is None}")
    # distortion of the same estimator
    strategy = rng.choice(["fixed", "random", "random"])
    f = rng.choice([0.0, 0.5, 1.0, 1.3, 3, 2, 0.01, 100.0, rng.uniform(0, 3)])
    inner = dict(ans)
    for s in inner:
        if rng.random() < 0.1:
            inner[s] = Cardinality.infinite()
    dist = cards.CardinalityDistortion(Recorder(inner, cross), f, distortion_strategy=strategy)
    mon.check(dist.allow_cross_products == cross, "distortion-cross", "")
    for s, base in inner.items():
        got = dist.calculate_estimate(m.query, s if len(s) > 1 else rng.choice([s, next(iter(s))]))
        mon.count("distorted")
        mon.check(isinstance(got, Cardinality), "distortion-type", lambda: f"{type(got)}")
        if math.isnan(base):
            mon.check(math.isnan(got), "distortion-unknown", lambda: f"unknown * {f} = {got!r}")
        elif math.isinf(base):
            mon.check(math.isnan(got) or math.isinf(got), "distortion-infinite", lambda: f"infinite * {f} = {got!r}")
        elif strategy == "fixed":
            mon.check(num(got) == round(float(base) * f), "distortion-fixed", lambda: f"{base!r} * {f} = {got!r}")
        else:
            lo, hi = sorted([float(base) * min(f, 1.0), float(base) * max(f, 1.0)])
            mon.count("random-distorted")
            mon.check(round(lo) <= float(got) <= round(hi), "distortion-range", lambda: f"random distortion of {base!r} by {f} is {got!r}, allowed {lo} to {hi}")
    if rng.random() < 0.3:
        # random distortions do vary
        big = cards.CardinalityDistortion(Recorder({frozenset([m.tables[0]]): Cardinality(10**9)}), f, distortion_strategy="random")
        vals = {float(big.calculate_estimate(m.query, m.tables[0])) for _ in range(8)}
        mon.check(len(vals) > 1 or f == 1.0, "distortion-constant", lambda: f"8 random distortions by {f} are all {vals}")
    mon.raises(lambda: cards.CardinalityDistortion(Recorder(ans), 2, distortion_strategy="other").calculate_estimate(m.query, next(iter(s for s in ans if not math.isnan(ans[s])), None) or _skip()), "distortion-strategy", "unknown strategy", (ValueError, _Skip))


class _Skip(Exception):
    pass


def _skip():
    raise _Skip()


def _names(s):
    return tuple(sorted(t.identifier() for t in s))


def pipelines(mon, rng):
    """the numbers that end up in the hints of a query"""
    path, iface = open_db(mon, rng)
    for _ in range(2):
        m = QueryModel(rng, connected=True, aliases=rng.random() < 0.7)
        cross = rng.random() < 0.3
        ans = answers(rng, m)
        est = inner = Recorder(ans, cross)
        f = None
        if rng.random() < 0.4:
            f = rng.choice([2.0, 0.5])
            est = cards.CardinalityDistortion(inner, f)
        jo = m.join_order(rng, False) if rng.random() < 0.5 else None
        pipe = pb.MultiStageOptimizationPipeline(iface)
        pipe.use(est)
        if jo is not None:
            class Fixed(pb.JoinOrderOptimization):
                def optimize_join_order(self, query):
                    return jo

                def describe(self):
                    return {"name": "fixed"}
            pipe.use(Fixed())
        pipe.build()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hinted = pipe.optimize_query(m.query)
        text = str(hinted.hints.query_hints) if hinted.hints else ""
        got = {tuple(sorted(a.split())): float(b) for a, b in re.findall(r"Card\(([^#]*) #([^)]*)\)", text)}
        want = m.intermediates(cross) if jo is None else [frozenset(n.tables()) for n in jo.iternodes()]
        exp = {_names(s): (float(round(float(ans[s]) * f)) if f else float(ans[s])) for s in want if not math.isnan(ans[s])}
        mon.count("pipelines")
        mon.count("hint-cards", len(exp))
        mon.eq(got, exp, "hinted-cardinalities", f"hints of {m.sql}, join order {jo}, distortion {f}")
        mon.check(inner.log[:1] == ["initialize"] and inner.log[-1:] == ["cleanup"] and set(inner.log[1:-1]) <= {"estimate"} and inner.init == (iface, m.query), "estimator-lifecycle",
                  lambda: f"{m.sql}: calls of the estimator: {inner.log[:3]} ... {inner.log[-2:]} (distortion {f})")
        mon.ok(f"pipeline:{jo is None}:{f}:{len(m.tables)}")
    iface.close()
    os.unlink(path)


SCENARIOS = [Scenario(exact, quick=120, thorough=2000, cpu=120, name="exact"), Scenario(stored, quick=160, thorough=2500, cpu=120, name="stored"), Scenario(native_cards, quick=60, thorough=1000, cpu=120, name="native"),
             Scenario(generic, quick=1000, thorough=20000, cpu=60, name="generic"), Scenario(pipelines, quick=64, thorough=1200, cpu=120, name="pipelines")]
