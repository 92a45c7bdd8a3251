"""P09: hinted queries carry exactly the optimizer's decisions and keep their result."""
import json
import math
import pathlib
import random
import re
import warnings
from collections import Counter

import psycopg
import quacklab

import postbound as pb
from postbound import Cardinality, IntermediateOperator, JoinOperator, JoinTree, ScanOperator, TableReference, transform
from postbound import duckdb as pbduck
from postbound import postgres as pbpg
from postbound._hints import DirectionalJoinOperatorAssignment, HintType, JoinOperatorAssignment, PhysicalOperatorAssignment, PlanParameterization, ScanOperatorAssignment
from postbound.db import HintWarning
from postbound.parser import parse_query

from lib import db
from lib.plans import INTER, JOINS, SCANS, Node, leaves, random_order, subtrees, to_plan
from lib.sqlgen import Gen, Opts, spj
from lib.vlib import Scenario

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from postbound import mysql as pbmy

PROPERTY = "P09"
TECHNIQUE = ("online monitor: the generated hint text is parsed with an independent grammar and compared, as a multiset, with the requested decisions; emitted warnings and "
             "exceptions account for everything that is missing; hinted queries are executed on a live DuckDB and their EXPLAIN output is compared with the decisions")
RULE = ("random join orders, operator assignments, plan parameters and complete plans (with Gather, Memoize, ... nodes) over random queries for pg_hint_plan, pg_lab, "
        "DuckDB and MySQL; distinct by backend and set of decisions")
ASSUMPTIONS = ["no Postgres or MySQL server is available: their hint text is judged against the documented hint grammar, the hinted query (minus hints) is executed on DuckDB",
               "worker counts of 1 denote sequential execution in operator assignments", "join directions are only checked where the backend supports them",
               "table identifiers that need quoting inside of a hint block are not generated"]
REQUIRE = {"pg_hint_plan": 300, "pg_lab": 300, "mysql": 150, "duckdb": 150, "plans": 200, "rejected": 30, "warned": 200, "executed": 300, "live-orders": 60, "live-operators": 40}
SETUP_SEED = 4711
CONS = []


class FakeCursor:
    def __init__(self, answers):
        self.answers, self.last = answers, None

    def execute(self, sql, *_):
        if sql not in self.answers:
            raise psycopg.errors.UndefinedObject(sql)
        self.last = self.answers[sql]

    def fetchone(self):
        return (self.last,)


class FakePostgres:
    """Answers the handful of questions that the hinting service asks its server."""
    debug = False

    def __init__(self, backend, geqo=12):
        self.config = {"geqo_threshold": str(geqo)}
        self.answers = {"SHOW pg_hint_plan.enable_hint;": "on"} if backend == "pg_hint_plan" else {"SHOW enable_pglab;": "on"}

    def cursor(self):
        return FakeCursor(self.answers)


class FakeMysql:
    def __init__(self, ansi):
        self.ansi = ansi

    def server_mode(self):
        return "ANSI_QUOTES,STRICT_TRANS_TABLES" if self.ansi else "STRICT_TRANS_TABLES"

    def __str__(self):
        return "mysql"


def setup(mon):
    CONS[:] = db.make_instances(SETUP_SEED + mon.seed, 2)


# ---------------------------------------------------------------- hint grammar
def items(text):
    """[(name, argument text)]"""
    out, i = [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = re.compile(r"(\w+)\s*\(").match(text, i)
        assert m, f"malformed hint at {text[i:i + 40]!r}"
        d, j = 1, m.end()
        while d:
            d += {"(": 1, ")": -1}.get(text[j], 0)
            j += 1
        out.append((m.group(1), text[m.end():j - 1].strip()))
        i = j
    return out


def tree_of(text):
    toks = re.findall(r"[()]|[^\s()]+", text)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != "(":
            return t
        a, b = parse(), parse()
        assert toks[pos] == ")", text
        pos += 1
        return (a, b)
    r = parse()
    assert pos == len(toks), text
    return r


def block(text, kind):
    start = {"pg_hint_plan": "/*+", "mysql": "/*+", "pg_lab": "/*=pg_lab=", "duckdb": "/*=quack_lab="}[kind]
    text = text.strip()
    assert text.startswith(start) and text.endswith("*/") and "*/" not in text[:-2], text
    return text[len(start):-2]


def parse_hints(text, kind):
    """Counter of normalised hints"""
    out = Counter()
    if not text.strip():
        return out
    for name, arg in items(block(text, kind)):
        if name in ("Leading", "JoinOrder"):
            out["order", tree_of(arg)] += 1
        elif name == "JOIN_ORDER":
            out["order", tuple(x.strip() for x in arg.split(","))] += 1
        elif name in ("Rows", "Card"):
            m = re.fullmatch(r"(.+?) #(\S+)", arg)
            assert m, arg
            out["card", frozenset(m.group(1).split()), float(m.group(2))] += 1
        elif name == "Set":
            m = re.fullmatch(r"(\w+)(?: = '(.*)'| (\S+))", arg)
            assert m, arg
            v = m.group(2) if m.group(2) is not None else m.group(3)
            out["set", m.group(1), {"True": "on", "False": "off"}.get(v, v)] += 1
        elif name == "Parallel":
            t, n, how = arg.split()
            assert how == "hard", arg
            out["par", frozenset([t]), int(n)] += 1
        elif name == "Config":
            k, v = arg.split("=")
            out["config", k, v] += 1
        elif name == "Result":
            out["par", "result", int(re.fullmatch(r"workers=(\d+)", arg).group(1))] += 1
        else:
            m = re.fullmatch(r"(.+?)(?: \(workers=(\d+)\))?", arg)
            tabs = [x.strip() for x in (m.group(1).split(",") if kind == "mysql" else m.group(1).split())]
            assert len(tabs) == len(set(tabs)), arg
            out["op", name, frozenset(tabs)] += 1
            if m.group(2):
                out["par", frozenset(tabs), int(m.group(2))] += 1
    return out


S, J, I = ScanOperator, JoinOperator, IntermediateOperator
NAMES = {
    "pg_hint_plan": {S.SequentialScan: "SeqScan", S.IndexScan: "IndexScan", S.IndexOnlyScan: "IndexOnlyScan", S.BitmapScan: "BitmapScan",
                     J.NestedLoopJoin: "NestLoop", J.HashJoin: "HashJoin", J.SortMergeJoin: "MergeJoin", I.Memoize: "Memoize"},
    "pg_lab": {S.SequentialScan: "SeqScan", S.IndexScan: "IdxScan", S.IndexOnlyScan: "IdxScan", S.BitmapScan: "BitmapScan",
               J.NestedLoopJoin: "NestLoop", J.HashJoin: "HashJoin", J.SortMergeJoin: "MergeJoin", I.Memoize: "Memo", I.Materialize: "Material"},
    "duckdb": {S.SequentialScan: "SeqScan", S.IndexScan: "IdxScan", J.NestedLoopJoin: "NestLoop", J.HashJoin: "HashJoin", J.SortMergeJoin: "MergeJoin"},
    "mysql": {S.SequentialScan: "NO_INDEX", S.IndexScan: "INDEX", S.IndexOnlyScan: "INDEX", S.BitmapScan: "INDEX_MERGE", J.NestedLoopJoin: "NO_BNL", J.HashJoin: "BNL"}}
PGSET = {J.NestedLoopJoin: "enable_nestloop", J.HashJoin: "enable_hashjoin", J.SortMergeJoin: "enable_mergejoin", S.SequentialScan: "enable_seqscan",
         S.IndexScan: "enable_indexscan", S.IndexOnlyScan: "enable_indexonlyscan", S.BitmapScan: "enable_bitmapscan", I.Memoize: "enable_memoize",
         I.Materialize: "enable_material", I.Sort: "enable_sort"}
SETNAMES = {"pg_hint_plan": PGSET, "pg_lab": PGSET, "mysql": {J.HashJoin: "block_nested_loop"},
            "duckdb": {k: PGSET[k] for k in (S.SequentialScan, S.IndexScan, J.NestedLoopJoin, J.HashJoin, J.SortMergeJoin)}}


def ids(tabs):
    return frozenset(t.identifier() for t in tabs)


class D:
    """requested decisions"""

    def __init__(self):
        self.order, self.scans, self.joins, self.inter, self.glob, self.cards, self.workers, self.settings, self.mode = None, {}, {}, {}, {}, {}, {}, {}, None

    def key(self):
        return (str(self.order), len(self.scans), len(self.joins), len(self.inter), len(self.glob), len(self.cards), len(self.workers), len(self.settings), self.mode)

    def show(self):
        return (f"order={self.order} scans={ {str(k): v for k, v in self.scans.items()} } joins={ {tuple(map(str, k)): v for k, v in self.joins.items()} } "
                f"inter={ {tuple(map(str, k)): v for k, v in self.inter.items()} } glob={self.glob} cards={ {tuple(map(str, k)): v for k, v in self.cards.items()} } "
                f"workers={ {tuple(map(str, k)): v for k, v in self.workers.items()} } settings={self.settings} mode={self.mode}")


SETTINGS = {"pg": [("work_mem", "64MB"), ("enable_geqo", "off"), ("jit", "off"), ("join_collapse_limit", 1), ("seed", 0.5)],
            "mysql": [("sort_buffer_size", 1024), ("sql_big_selects", True), ("optimizer_trace", "enabled=on")],
            "duckdb": [("threads", 2), ("threads", 3), ("memory_limit", "900MB"), ("default_null_order", "nulls_first"), ("preserve_insertion_order", True)]}


def decide(rng, tabs, kind):
    d = D()
    inter_keys = [frozenset(s) for s in ([rng.sample(tabs, rng.randint(2, len(tabs))) for _ in range(3)] if len(tabs) > 1 else [])]
    tame = rng.random() < 0.6   # only operators that the backend knows
    if rng.random() < 0.6:
        d.order = random_order(rng, tabs)
        inter_keys += [frozenset(leaves(t)) for t in subtrees(d.order) if isinstance(t, tuple)]
    ok = NAMES[kind]
    if rng.random() < 0.6:
        for t in tabs:
            if rng.random() < 0.6:
                d.scans[t] = (rng.choice([o for o in SCANS if o in ok or not tame]), rng.choice([math.nan, math.nan, math.nan, 1, 2, 4] if not (tame and kind in ("duckdb",)) else [math.nan, 1]))
    if rng.random() < 0.6:
        for k in set(inter_keys):
            if rng.random() < 0.5:
                direction = None
                if rng.random() < 0.2:
                    o = rng.sample(sorted(k, key=str), rng.randint(1, len(k) - 1))
                    if d.order and rng.random() < 0.6:
                        for t in subtrees(d.order):
                            if isinstance(t, tuple) and frozenset(leaves(t)) == k:
                                o = leaves(t[0])
                    direction = (frozenset(o), k - frozenset(o))
                if kind in ("mysql", "duckdb"):
                    direction = None
                d.joins[k] = (rng.choice([o for o in JOINS if o in ok or (not tame and rng.random() < 0.5)]),
                              rng.choice([math.nan, math.nan, math.nan, 1, 3]) if not (tame and kind == "duckdb") else math.nan, direction)
    if rng.random() < 0.2 and not (tame and kind == "duckdb"):
        for k in set(inter_keys) | {frozenset([t]) for t in tabs}:
            if rng.random() < 0.3:
                d.inter[k] = rng.choice([o for o in INTER if o in ok or not tame] or INTER)
    if rng.random() < 0.3:
        for o in rng.sample(sorted(SETNAMES[kind], key=str) if tame else SCANS + JOINS + INTER, rng.randint(1, min(3, len(SETNAMES[kind])))):
            d.glob[o] = rng.random() < 0.5
    if rng.random() < 0.5:
        for k in set(inter_keys) | {frozenset([t]) for t in tabs}:
            if rng.random() < 0.6:
                d.cards[k] = rng.choice([0, 1, 42, 10 ** 9, 17, 42]) if rng.random() < 0.9 else rng.choice([math.nan, math.inf])
    if rng.random() < 0.25 and not (tame and kind == "duckdb"):
        for k in set(inter_keys) | {frozenset([t]) for t in tabs}:
            if rng.random() < 0.3 and not (k in d.joins and not math.isnan(d.joins[k][1])) and not (len(k) == 1 and not math.isnan(d.scans.get(next(iter(k)), (0, math.nan))[1])):
                d.workers[k] = rng.choice([2, 5])
    if rng.random() < 0.3:
        d.settings = dict(rng.sample(SETTINGS["pg" if kind.startswith("pg") else kind], rng.randint(1, 2)))
    if rng.random() < 0.15 and not (tame and kind == "duckdb"):
        d.mode = rng.choice(["sequential", "parallel"])
    return d


def to_tree(o):
    return JoinTree.join(to_tree(o[0]), to_tree(o[1])) if isinstance(o, tuple) else JoinTree.scan(o)


def arguments(rng, d):
    args = {}
    if d.order is not None:
        args["join_order"] = to_tree(d.order)
    if d.scans or d.joins or d.inter or d.glob or rng.random() < 0.1:
        ops = PhysicalOperatorAssignment()
        for t, (o, w) in d.scans.items():
            ops.add(ScanOperatorAssignment(o, t, w)) if not math.isnan(w) else ops.set_scan_operator(o, t)
        for k, (o, w, direction) in d.joins.items():
            ops.add(DirectionalJoinOperatorAssignment(o, outer=direction[0], inner=direction[1], parallel_workers=w) if direction
                    else JoinOperatorAssignment(o, k, parallel_workers=w))
        for k, o in d.inter.items():
            ops.set_intermediate_operator(o, k)
        for o, v in d.glob.items():
            ops.set_operator_enabled_globally(o, v)
        args["physical_operators"] = ops
    if d.cards or d.workers or d.settings or d.mode or rng.random() < 0.1:
        p = PlanParameterization()
        for k, c in d.cards.items():
            p.add_cardinality(k, Cardinality(c))
        for k, w in d.workers.items():
            p.set_workers(k, w)
        for k, v in d.settings.items():
            p.set_system_settings(k, v)
        p.execution_mode = d.mode
        args["plan_parameters"] = p
    return args


def nested(o):
    return (nested(o[0]), nested(o[1])) if isinstance(o, tuple) else o.identifier()


def sequence(o):
    """the order in which the tables of a linear tree are joined: (first pair as a set, remaining tables); None if it is bushy"""
    rest = []
    while isinstance(o, tuple):
        if not isinstance(o[0], tuple) and not isinstance(o[1], tuple):
            return {frozenset(x.identifier() for x in o)}, rest[::-1]
        if isinstance(o[0], tuple) and isinstance(o[1], tuple):
            return None
        j, o = (o[1], o[0]) if isinstance(o[0], tuple) else (o[0], o[1])
        rest.append(j.identifier())
    return {frozenset([o.identifier()])}, []


def expected(kind, d):
    """(hints that must be present, worker requests, must be reported or rejected, may be absent)"""
    must, req, lost = Counter(), [], []
    names, sets = NAMES[kind], SETNAMES[kind]
    if d.order is not None and isinstance(d.order, tuple):
        if kind == "mysql":
            if sequence(d.order) is None:
                lost.append(("order", "bushy"))
        elif not (kind == "duckdb" and len(leaves(d.order)) < 3):
            must["order", nested(d.order)] += 1
    for t, (o, w) in d.scans.items():
        if o in names:
            must["op", names[o], ids([t])] += 1
        else:
            lost.append((o, t))
        if w > 1:
            req.append((ids([t]), w))
    for k, (o, w, direction) in d.joins.items():
        if o in names:
            must["op", names[o], ids(k)] += 1
        else:
            lost.append((o, k))
        if w > 1:
            req.append((ids(k), w))
        if direction and not (d.order and any(isinstance(s, tuple) and frozenset(leaves(s[0])) == direction[0] and frozenset(leaves(s[1])) == direction[1] for s in subtrees(d.order))):
            lost.append(("direction", k))
    for k, o in d.inter.items():
        if o in names and kind != "duckdb":
            must["op", names[o], ids(k)] += 1
        else:
            lost.append((o, k))
    for o, v in d.glob.items():
        if o in sets:
            if kind != "mysql":
                must["set", sets[o], "on" if v else "off"] += 1
        else:
            lost.append((o, v))
    for k, c in d.cards.items():
        if math.isnan(c):
            continue
        if math.isinf(c) or kind == "mysql" or (kind == "pg_hint_plan" and len(k) == 1):
            lost.append(("card", k))
        else:
            must["card", ids(k), float(c) if kind != "pg_hint_plan" or True else 0] += 1
    for k, w in d.workers.items():
        if kind == "pg_lab" and not (k in d.joins or len(k) == 1 and next(iter(k)) in d.scans):
            lost.append(("workers", k))
        else:
            req.append((ids(k), w))
    if kind in ("mysql", "duckdb") and req:
        lost += [("workers", r) for r in req]
        req = []
    if kind == "pg_hint_plan" and any(len(k) > 1 for k, _ in req):
        pass
    if kind == "pg_lab":
        for k, v in d.settings.items():
            must["set", k, str(v)] += 1
        must["config", "plan_mode", "anchored"] += 1
        if d.mode:
            must["config", "exec_mode", d.mode] += 1
    elif d.mode:
        lost.append(("mode", d.mode))
    if len(req) > 1:
        lost.append(("workers", req))
    return must, req, lost


def prep_of(kind, d):
    out = Counter()
    if kind == "mysql" and d.glob:
        sw = frozenset(f"{SETNAMES[kind][o]}={'on' if v else 'off'}" for o, v in d.glob.items() if o in SETNAMES[kind])
        out["switch", sw] += 1
    for k, v in d.settings.items():
        if kind == "pg_hint_plan":
            out[f"SET LOCAL {k} TO '{v}'"] += 1
        elif kind == "mysql":
            out[f"SET {k}=" + (f"'{v}'" if isinstance(v, str) else str(v).upper() if isinstance(v, bool) else str(v))] += 1
        elif kind == "duckdb":
            out[f"SET {k} = " + (f"'{v}'" if isinstance(v, str) else str(v))] += 1
    return out


def parse_prep(text, kind):
    out = Counter()
    assert not text.strip() or text.strip().endswith(";"), text
    for s in text.split(";"):
        s = s.strip()
        if not s:
            continue
        m = re.fullmatch(r"SET @@optimizer_switch='(.*)'", s)
        if m:
            out["switch", frozenset(m.group(1).split(","))] += 1
        else:
            out[re.sub(r"=(True|False)$", lambda x: x.group(0).upper(), s) if kind == "mysql" else s] += 1
    return out


def same_query(mon, q, got, kind, ctx):
    """apart from the hints (and dialect-specific clause objects) nothing changed"""
    a, b = {type_of(c): c for c in q.clauses()}, {type_of(c): c for c in got.clauses()}
    a.pop("Hint", None)
    b.pop("Hint", None)
    mon.eq(sorted(b), sorted(a), f"{kind}:clauses", ctx)
    for n in a:
        x, y = a[n], b[n]
        if n == "Limit":
            ok = (x.limit, x.offset, x.fetch_direction) == (y.limit, y.offset, y.fetch_direction)
        elif n == "Explain":
            ok = (x.analyze, x.target_format) == (y.analyze, y.target_format)
        else:
            ok = x == y and str(x) == str(y)
        mon.check(ok, f"{kind}:clause-changed", lambda: f"{ctx}\n{x}\n{y}")


def type_of(c):
    for t in (pb.qal.Limit, pb.qal.Explain, pb.qal.Hint):
        if isinstance(c, t):
            return t.__name__
    return type(c).__name__


def generate(mon, f):
    """(result | None, reported?)"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            out = f()
        except Exception as e:  # noqa: BLE001 - judged by the caller
            mon.count("rejected")
            return None, e
    rep = [w for w in ws if issubclass(w.category, HintWarning)]
    if rep:
        mon.count("warned")
    return out, rep


def judge(mon, kind, d, hinted, rep, ctx, extra=Counter()):
    must, req, lost = expected(kind, d)
    must = must + extra
    if hinted is None:
        mon.check(bool(lost), f"{kind}:rejected-expressible", lambda: f"{rep!r}\n{ctx}", key=(kind, "rej", ctx[-200:]))
        return
    h = hinted.hints
    got = parse_hints(h.query_hints if h else "", kind)
    mon.check(not lost or bool(rep), f"{kind}:silently-dropped", lambda: f"{lost}\n{ctx}\n{h}", key=(kind, d.key(), ctx[:60]))
    pars = Counter({k: n for k, n in got.items() if k[0] == "par"})
    orders = [k[1] for k in got if k[0] == "order"]
    rest = Counter({k: n for k, n in got.items() if k[0] != "par" and not (kind == "mysql" and k[0] == "order")})
    mon.check(rest == must, f"{kind}:hints", lambda: f"{ctx}\n{h}\nmissing {must - rest}\nunexpected {rest - must}")
    if kind == "mysql" and d.order is not None and sequence(d.order) is not None:
        first, tail = sequence(d.order)
        mon.check(len(orders) == 1 and frozenset(orders[0][:2]) in first and list(orders[0][2:]) == tail, "mysql:order", lambda: f"{ctx}\n{h}")
    elif kind == "mysql":
        mon.check(not orders, "mysql:order", lambda: f"{ctx}\n{h}")
    # a single worker request can be encoded
    if kind == "pg_hint_plan":
        options = [Counter({("par", frozenset([t]), w): 1 for t in k}) for k, w in req]
    else:
        options = [Counter({("par", k, w): 1}) for k, w in req]
    mon.check(pars in options if req else not pars, f"{kind}:workers", lambda: f"{ctx}\n{h}\n{req}")
    mon.eq(parse_prep(h.preparatory_statements if h else "", kind), prep_of(kind, d), f"{kind}:preparation", f"{ctx}\n{h}")


def query_for(rng):
    sql, tabs, *_ = spj(rng, n_tables=rng.randint(1, 5), select=rng.choice(["count", "*"]))
    if rng.random() < 0.4 and "count" not in sql:
        allcols = [f"{a or t}.{c}" for t, a in tabs for c, _ in db.SCHEMA[t]["cols"]]
        sql += " ORDER BY " + ", ".join(allcols)
        sql += rng.choice([" LIMIT 0", f" LIMIT {rng.randint(1, 9)}", f" LIMIT {rng.randint(0, 5)} OFFSET {rng.randint(0, 3)}", f" OFFSET {rng.randint(0, 3)}", ""])
    q = parse_query(sql, bind_columns=False)
    return q, [TableReference(t, a) for t, a in tabs]


def execute(mon, q, text, ctx, kind):
    try:
        ref = [db.run(c, str(q)) for c in CONS]
    except db.SqlError:
        mon.count("not-executable")
        return
    try:
        got = [db.run(c, text) for c in CONS]
    except db.SqlError as e:
        mon.fail(f"{kind}:invalid-sql", f"{e}\n{ctx}\n{text}")
    mon.count("executed")
    mon.check(got == ref, f"{kind}:result", lambda: f"{ctx}\n{text}\nwant {ref}\ngot {got}"[:2500])


def pg_text(service, hinted):
    """the statement that is sent to the server, without the preparatory statements"""
    return service.format_query(transform.drop_hints(hinted, preparatory_statements_only=True) if hinted.hints and hinted.hints.preparatory_statements else hinted)


# ---------------------------------------------------------------- scenarios
def postgres(mon, rng):
    kind = rng.choice(["pg_hint_plan", "pg_lab"])
    geqo = rng.choice([12, 12, 3, 4])
    service = pbpg.PostgresHintService(FakePostgres(kind, geqo))
    mon.check(service.backend == kind, "backend", f"{service.backend} {kind}")
    q, tabs = query_for(rng)
    explain = rng.choice(["", "", "EXPLAIN ", "EXPLAIN (FORMAT JSON) ", "EXPLAIN ANALYZE "])
    if explain:
        q = parse_query(explain + str(q), bind_columns=False)
        if rng.random() < 0.4:
            q = transform.as_explain(q, pb.qal.Explain(rng.random() < 0.5, None))
    d = decide(rng, tabs, kind)
    ctx = f"{kind} {q}\n{d.show()}"
    args = arguments(rng, d)
    before = {k: repr(v) for k, v in args.items()}
    hinted, rep = generate(mon, lambda: service.generate_hints(q, **args))
    mon.check(before == {k: repr(v) for k, v in args.items()}, f"{kind}:inputs-modified", ctx)
    mon.count(kind)
    extra = Counter()
    if kind == "pg_hint_plan" and len(tabs) >= geqo:
        extra["set", "geqo", "off"] += 1
    judge(mon, kind, d, hinted, rep, ctx, extra)
    if hinted is None:
        return
    same_query(mon, q, hinted, kind, ctx)
    text = pg_text(service, hinted)
    if explain:
        m = re.search(r"EXPLAIN \((.*?)\)", text)
        opts = [x.strip().split()[0] for x in m.group(1).split(",")] if m else []
        fmt = re.search(r"FORMAT (\w+)", m.group(1)) if m else None
        mon.check(m is not None and ("ANALYZE" in opts) == bool(q.explain.analyze) and set(opts) <= {"SETTINGS", "ANALYZE", "BUFFERS", "FORMAT"}
                  and (fmt.group(1) if fmt else None) == q.explain.target_format, f"{kind}:explain", lambda: f"{ctx}\n{text}")
    else:
        execute(mon, q, text, ctx, kind)
    for op in (d.scans and [o for o, _ in d.scans.values()] or []) + [o for o, *_ in d.joins.values()]:
        if service.supports_hint(op):
            mon.check(any(k[0] == "op" and k[1] == NAMES[kind][op] for k in parse_hints(hinted.hints.query_hints, kind)), f"{kind}:supported", ctx)


def queries(mon, rng):
    """arbitrary queries (subqueries, CTEs, set operations, ...) keep their meaning"""
    kind = rng.choice(["pg_hint_plan", "pg_lab", "duckdb"])
    g = Gen(rng, Opts())
    gq = g.query()
    q = parse_query(gq.sql, bind_columns=False)
    tabs = [t for t in q.tables() if not t.virtual and t.full_name.islower() and " " not in t.full_name and re.fullmatch(r"\w+", t.identifier())]
    if not tabs:
        return
    tabs = sorted(tabs, key=str)[:4]
    if len({t.identifier() for t in tabs}) < len(tabs):
        return
    p = PlanParameterization()
    for t in tabs:
        p.add_cardinality([t], Cardinality(rng.randint(0, 99)))
    ops = PhysicalOperatorAssignment()
    if len(tabs) > 1:
        ops.set_join_operator(J.HashJoin, tabs)
        p.add_cardinality(tabs, Cardinality(rng.randint(1, 99)))
    for t in tabs:
        ops.set_scan_operator(S.SequentialScan, t)
    service = pbduck.DuckDBHintService("duck") if kind == "duckdb" else pbpg.PostgresHintService(FakePostgres(kind, 50))
    hinted, rep = generate(mon, lambda: service.generate_hints(q, physical_operators=ops, plan_parameters=p))
    mon.check(hinted is not None, f"{kind}:rejected-expressible", lambda: f"{rep!r}\n{q}")
    same_query(mon, q, hinted, kind, str(q))
    text = service.format_query(hinted)
    for name in re.findall(r"/\*.*?\*/", text, re.S)[:1]:
        text = text.replace(name, "")
    ordered = gq.ordered
    try:
        ref = [db.run(c, str(q), ordered) for c in CONS]
    except db.SqlError:
        mon.count("not-executable")
        return
    try:
        got = [db.run(c, text, ordered) for c in CONS]
    except db.SqlError as e:
        mon.fail(f"{kind}:invalid-sql", f"{e}\n{q}\n{text}")
    mon.count("executed")
    mon.check(got == ref, f"{kind}:result", lambda: f"{q}\n{text}\nwant {ref}\ngot {got}"[:2500], key=(kind, str(q)[:200]))


def plan_model(rng, tabs, kind):
    d = D()
    d.order = random_order(rng, tabs, None if kind != "mysql" else rng.choice(["left", "zigzag", "bushy"]))
    gather = rng.random() < 0.5
    state = {"workers": rng.choice([2, 3, 5]) if gather else 0}

    def wrap(n, k):
        if state["workers"] and rng.random() < 0.25:
            w, state["workers"] = state["workers"], 0
            below, above = rng.choice([None, "Sort", "Aggregate"]), rng.choice([None, "Sort"])
            if below:
                n = Node("aux", type=below, op=I.Sort if below == "Sort" and kind != "duckdb" else None, kids=[n], est=7)
            n = Node("aux", type="Gather", kids=[n], workers=w, est=n.est)
            d.workers["gather"] = (k, w)
        elif rng.random() < 0.15 and kind in ("pg_hint_plan", "pg_lab"):
            o = rng.choice([I.Memoize, I.Materialize])
            if k not in d.inter:
                d.inter[k] = o
                n = Node("aux", type=o.name, op=o, kids=[n], est=n.est, act=n.act)
        elif rng.random() < 0.1:
            n = Node("aux", type="Hash", kids=[n], est=n.est, act=n.act)
        return n

    def build(o, top=False):
        k = frozenset(leaves(o))
        est = rng.choice([None, 1, 0, 42, 1000])
        act = rng.choice([None, 0, 3, 17]) if rng.random() < 0.5 else None
        ok = NAMES[kind]
        if not isinstance(o, tuple):
            op = rng.choice([x for x in SCANS if x in ok])
            d.scans[o] = (op, math.nan)
            n = Node("scan", type=op.name, op=op, table=o, est=est, act=act)
        else:
            a, b = build(o[0]), build(o[1])
            op = rng.choice([x for x in JOINS if x in ok])
            d.joins[k] = (op, math.nan, None)
            n = Node("join", type=op.name, op=op, kids=[a, b], est=est, act=act)
        if act is not None and kind.startswith("pg"):
            d.cards[k] = act
        elif est is not None:
            d.cards[k] = est
        return wrap(n, k)
    root = build(d.order)
    upper = None
    if rng.random() < 0.3:
        if state["workers"] and rng.random() < 0.6:
            upper = state["workers"]
            root = Node("aux", type="Gather", kids=[root], workers=upper, est=5)
        root = Node("aux", type="Aggregate", kids=[root], est=1)
    return d, root, upper


def plans(mon, rng):
    kind = rng.choice(["pg_hint_plan", "pg_lab", "pg_lab", "duckdb", "mysql"])
    q, tabs = query_for(rng)
    d, root, upper = plan_model(rng, tabs, kind)
    gather = d.workers.pop("gather", None)
    plan = to_plan(root)
    service = {"pg_hint_plan": lambda: pbpg.PostgresHintService(FakePostgres(kind, 50)), "pg_lab": lambda: pbpg.PostgresHintService(FakePostgres(kind, 50)),
               "duckdb": lambda: pbduck.DuckDBHintService("duck"), "mysql": lambda: pbmy.MysqlHintService(FakeMysql(True))}[kind]()
    if rng.random() < 0.1:
        e = mon.raises(lambda: service.generate_hints(q, plan, plan_parameters=PlanParameterization()), f"{kind}:both", f"{kind} {q}", exc=ValueError)
    ctx = f"{kind} {q}\n{plan.inspect()}\n{d.show()} gather={gather} upper={upper}"
    hinted, rep = generate(mon, lambda: service.generate_hints(q, plan))
    mon.count("plans")
    mon.count(kind)
    if kind == "pg_lab":
        if hinted is None:
            mon.fail("pg_lab:plan-rejected", f"{rep!r}\n{ctx}")
        got = parse_hints(hinted.hints.query_hints, kind)
        must = Counter({("config", "plan_mode", "full"): 1, ("order", nested(d.order)): 1})
        for t, (o, _) in d.scans.items():
            must["op", NAMES[kind][o], ids([t])] += 1
        for k, (o, *_) in d.joins.items():
            must["op", NAMES[kind][o], ids(k)] += 1
        for k, o in d.inter.items():
            must["op", NAMES[kind][o], ids(k)] += 1
        for k, c in d.cards.items():
            must["card", ids(k), float(c)] += 1
        pars = Counter({k: n for k, n in got.items() if k[0] == "par"})
        rest = got - pars
        mon.check(rest == must, "pg_lab:plan-hints", lambda: f"{ctx}\n{hinted.hints}\nmissing {must - rest}\nunexpected {rest - must}", key=("plan", d.key()))
        if upper:
            mon.eq(pars, Counter({("par", "result", upper): 1}), "pg_lab:plan-result-workers", ctx)
        elif gather and gather[0] == frozenset(tabs) and len(tabs) > 0:
            mon.check(pars in (Counter({("par", "result", gather[1]): 1}), Counter({("par", ids(tabs), gather[1]): 1})), "pg_lab:plan-workers", lambda: f"{ctx}\n{hinted.hints}")
        elif gather:
            mon.eq(pars, Counter({("par", ids(gather[0]), gather[1]): 1}), "pg_lab:plan-workers", f"{ctx}\n{hinted.hints}")
        else:
            mon.check(not pars, "pg_lab:plan-workers", lambda: f"{ctx}\n{hinted.hints}")
        same_query(mon, q, hinted, kind, ctx)
        return
    if gather:
        d.workers[gather[0]] = gather[1]
    if upper:
        d.workers[frozenset(tabs)] = upper
    if hinted is not None and kind == "pg_hint_plan" and any(n.op == I.Sort for n in root.nodes()):
        d.inter[frozenset("?")] = I.Sort if rep else None
        d.inter = {k: o for k, o in d.inter.items() if o}
        mon.check(bool(rep), "pg_hint_plan:silently-dropped", ctx)
    if frozenset("?") in d.inter:
        del d.inter[frozenset("?")]
    have = set(d.cards)
    for n in root.nodes():
        # a node above a join or scan without estimate supplies the estimate of the table set (see P11)
        if n.kind == "aux" and n.est is not None and n.tabs() not in have and not any(m.est is not None and m.kind != "aux" and m.tabs() == n.tabs() for m in root.nodes()):
            d.cards[n.tabs()] = n.est
    if kind == "mysql" and hinted is None and sequence(d.order) is None:
        mon.ok(("mysql", "bushy"))
        return
    if kind == "mysql" and hinted is not None:
        mon.check(sequence(d.order) is not None, "mysql:bushy-plan", ctx)
    judge(mon, kind, d, hinted, rep, ctx)
    if hinted is not None:
        same_query(mon, q, hinted, kind, ctx)


def mysql_to_ansi(text):
    """Rewrite MySQL string literals (double quotes, backslash escapes) to standard SQL."""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c == "'":
            j = i + 1
            while text[j] != "'" or text[j:j + 2] == "''":
                j += 2 if text[j] == "'" else 1
            out.append(text[i:j + 1])
            i = j + 1
        elif c == '"':
            j, s = i + 1, ""
            while True:
                if text[j] == "\\":
                    s += {"n": "\n", "t": "\t", "0": "\0"}.get(text[j + 1], text[j + 1])
                    j += 2
                elif text[j] == '"' and text[j:j + 2] == '""':
                    s += '"'
                    j += 2
                elif text[j] == '"':
                    break
                else:
                    s += text[j]
                    j += 1
            out.append("'" + s.replace("'", "''") + "'")
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


def mysql(mon, rng):
    kind = "mysql"
    ansi = rng.random() < 0.4
    service = pbmy.MysqlHintService(FakeMysql(ansi))
    q, tabs = query_for(rng)
    if rng.random() < 0.7:
        conds = []
        for t in tabs:
            for c, ty in db.SCHEMA[t.full_name]["cols"]:
                if ty == "text" and rng.random() < 0.6:
                    v = rng.choice(db.TEXTS + ['q"q', "back\\slash", "it's \"x\"", "\\"])
                    conds.append(f"{t.identifier()}.{c} {rng.choice(['=', '<>', '>='])} '" + v.replace("'", "''") + "'")
        if rng.random() < 0.3:
            conds.append(f"cast({tabs[0].identifier()}.{db.SCHEMA[tabs[0].full_name]['cols'][0][0]} AS int) >= 0")
        if conds:
            q = transform.add_where_clause(q, parse_query(f"SELECT * FROM {', '.join(str(t) for t in tabs)} WHERE {' OR '.join(conds)}", bind_columns=False).where_clause.predicate) \
                if hasattr(transform, "add_where_clause") else parse_query(f"SELECT count(*) FROM {', '.join(str(t) for t in tabs)} WHERE {' OR '.join(conds)}", bind_columns=False)
    d = decide(rng, tabs, kind)
    ctx = f"{kind} {q}\n{d.show()}"
    args = arguments(rng, d)
    hinted, rep = generate(mon, lambda: service.generate_hints(q, **args))
    mon.count(kind)
    judge(mon, kind, d, hinted, rep, ctx)
    if hinted is None:
        return
    same_query(mon, q, hinted, kind, ctx)
    plain = transform.drop_hints(hinted) if hinted.hints else hinted
    text = service.format_query(plain)
    execute(mon, q, text if ansi else mysql_to_ansi(text), ctx, kind)
    ex = rng.choice(["EXPLAIN ", "EXPLAIN ANALYZE ", "EXPLAIN (FORMAT JSON) "])
    eq = parse_query(ex + str(q), bind_columns=False)
    text = service.format_query(eq)
    head = " ".join(text.split()[:4])
    want = "EXPLAIN" + (" ANALYZE" if eq.explain.analyze else "") + (f" FORMAT={eq.explain.target_format}" if eq.explain.target_format else "")
    mon.check(head.upper().startswith(want.upper() + " SELECT"), "mysql:explain", lambda: f"{eq}\n{text}")


def duck(mon, rng):
    kind = "duckdb"
    service = pbduck.DuckDBHintService("duck")
    q, tabs = query_for(rng)
    d = decide(rng, tabs, kind)
    ctx = f"{kind} {q}\n{d.show()}"
    args = arguments(rng, d)
    hinted, rep = generate(mon, lambda: service.generate_hints(q, **args))
    mon.count(kind)
    judge(mon, kind, d, hinted, rep, ctx)
    if hinted is not None:
        same_query(mon, q, hinted, kind, ctx)


# ---------------------------------------------------------------- live system
def explain_shape(con, sql):
    """(unordered join tree over base tables, {frozenset: operator names})"""
    raw = con.execute("EXPLAIN (FORMAT JSON) " + sql).fetchall()[0][1]
    ops = {}

    def walk(n):
        kids = [walk(k) for k in n.get("children", [])]
        kids = [k for k in kids if k is not None]
        name = n["name"].strip()
        info = n.get("extra_info") or {}
        if name in ("SEQ_SCAN", "INDEX_SCAN", "TABLE_SCAN") and isinstance(info, dict) and "Table" in info:
            return info["Table"].split(".")[-1]
        if len(kids) == 2:
            t = frozenset(kids)
            ops[flat(t)] = name
            return t
        return kids[0] if kids else None
    tree = walk(json.loads(raw)[0])
    return tree, ops


def flat(t):
    return frozenset([t]) if isinstance(t, str) else frozenset().union(*(flat(x) for x in t))


def unordered(o):
    return frozenset((unordered(o[0]), unordered(o[1]))) if isinstance(o, tuple) else o.full_name


LIVE = {}


def live_db(mon, rng):
    if "db" not in LIVE:
        LIVE["n"] = LIVE.get("n", 0) + 1
        LIVE["db"] = db.postbound_db(pathlib.Path(mon.tmp) / f"live{LIVE['n']}.duckdb", random.Random(mon.seed), max_rows=12)[0]
    return LIVE["db"]


def live(mon, rng):
    """the hinted query on a real system: same result, and the executed plan follows the decisions"""
    pg = live_db(mon, rng)
    names = rng.sample([t for t in db.SCHEMA if t.islower()], rng.randint(2, 5))
    cols = {t: [c for c, ty in db.SCHEMA[t]["cols"] if ty == "int"] for t in names}
    alias = rng.random() < 0.5
    a = {t: (f"{t[:2]}{i}" if alias else t) for i, t in enumerate(names)}
    conds = []
    for i in range(1, len(names)):
        o = names[rng.randrange(i)]
        conds.append(f"{a[o]}.{rng.choice(cols[o])} = {a[names[i]]}.{rng.choice(cols[names[i]])}")
    sql = "SELECT * FROM " + ", ".join(f"{t} AS {a[t]}" if alias else t for t in names) + " WHERE " + " AND ".join(conds)
    q = parse_query(sql, bind_columns=False)
    ref = db.norm_rows(pg.execute_query(q, raw=True))
    tabs = [TableReference(t, a[t] if alias else "") for t in names]
    # only connected join orders
    edges = {frozenset(re.findall(r"(\w+)\.", c)) for c in conds}
    parts = list(tabs)
    while len(parts) > 1:
        x = parts.pop(rng.randrange(len(parts)))
        lx = {t.identifier() for t in leaves(x)}
        cand = [p for p in parts if any(len(e & lx) == 1 and e - lx <= {t.identifier() for t in leaves(p)} for e in edges)]
        y = rng.choice(cand)
        parts.remove(y)
        parts.append((x, y) if rng.random() < 0.5 else (y, x))
    order = parts[0]
    ops = PhysicalOperatorAssignment()
    want = {}
    for s in subtrees(order):
        if isinstance(s, tuple) and rng.random() < 0.6:
            op = rng.choice([J.HashJoin, J.NestedLoopJoin])
            ops.set_join_operator(op, leaves(s))
            want[frozenset(t.full_name for t in leaves(s))] = "HASH_JOIN" if op == J.HashJoin else "NESTED_LOOP_JOIN"
    params = PlanParameterization()
    if rng.random() < 0.5:
        for s in subtrees(order):
            params.add_cardinality(leaves(s), Cardinality(rng.randint(1, 500)))
    if rng.random() < 0.3:
        th = rng.randint(1, 3)
        params.set_system_settings("threads", th)
    hinted = pg.hinting().generate_hints(q, join_order=to_tree(order), physical_operators=ops, plan_parameters=params)
    ctx = f"{hinted}"
    try:
        got = db.norm_rows(pg.execute_query(hinted, raw=True))
    except quacklab.InternalException:
        # the engine (not PostBOUND) crashed on the enforced plan and invalidates the database
        mon.count("engine-crashes")
        del LIVE["db"]
        return
    mon.check(got == ref, "live:result", lambda: f"{ctx}\nwant {ref}\ngot {got}"[:2000], key=("live", sql[:100], str(order)))
    if params.system_settings:
        mon.eq(pg.execute_query("SELECT current_setting('threads')"), th, "live:setting", ctx)
        mon.count("live-settings")
    text = pg.hinting().format_query(transform.drop_hints(hinted, preparatory_statements_only=True) if hinted.hints.preparatory_statements else hinted)
    try:
        tree, seen = explain_shape(pg.cursor(), text)
    except (quacklab.Error, KeyError, IndexError) as e:
        mon.count(f"unexplained:{type(e).__name__}")
        return
    if tree is None or flat(tree) != frozenset(names):
        mon.count("simplified-plan")
        return
    if len(names) > 2:
        mon.check(tree == unordered(order), "live:order", lambda: f"{ctx}\n{tree}\n{unordered(order)}")
        mon.count("live-orders")
        for k, op in want.items():
            if k in seen:
                mon.eq(seen[k], op, "live:operator", f"{ctx}\n{seen}")
                mon.count("live-operators")


SCENARIOS = [Scenario(postgres, quick=1200, thorough=15000), Scenario(queries, quick=500, thorough=6000), Scenario(plans, quick=700, thorough=9000),
             Scenario(mysql, quick=500, thorough=6000), Scenario(duck, quick=400, thorough=5000), Scenario(live, quick=300, thorough=3000)]
