"""P13: benchmarks execute and record every query exactly as often as asked, judged on an event log of a scripted database and pipeline."""
import csv
import datetime as dt
import io
import json
import math
import os
import pathlib
import random
import re
import time
import warnings

import numpy as np
import pandas as pd

from postbound import QueryPlan, ScanOperator, bench, parser, util
from postbound._pipelines import OptimizationPipeline
from postbound._stages import CompleteOptimizationAlgorithm, OptimizationStage
from postbound.db import Database, DatabasePool, HintService
from postbound.train import TrainingData, TrainingSpec
from postbound.workloads import Workload

from lib import sqlgen
from lib.vlib import Scenario

PROPERTY = "P13"
TECHNIQUE = "offline checker over event logs: a scripted database, pipeline and callbacks record every call of the real benchmark loop; the log and the result frame are compared with a specification of both"
RULE = ("random workloads (0-5 queries, labelled or not, duplicates), repetition counts, shuffling, targets (database, pipeline, bare stage), preparation settings, timeouts, database "
        "capabilities, error actions and scripted failures at random executions; distinct by configuration and failure pattern")
ASSUMPTIONS = ["scripted databases stand in for real ones (real DuckDB executions are covered by the live scenario)", "failing preparation steps are not judged",
               "HDF output is not exercised (pytables is not installed)"]
LEVEL_NOTE = ("exact event-level specification on seeded random configurations with failures and timeouts injected at random executions; the time columns are bounded by the monitor's own clock")
REQUIRE = {"runs": 500, "sessions": 400, "kept": 100, "executions": 3000, "exec-errors": 200, "timeouts": 200, "opt-errors": 100, "ignored": 50, "raised": 50, "feedback": 100, "callbacks": 300, "files": 100, "shuffled": 100,
           "prepared": 300, "sorted": 100, "live": 10}


class Log(list):
    def add(self, *event):
        self.append((time.perf_counter(), dt.datetime.now(), *event))


class Boom(Exception):
    pass


def make_db(rng, log, *, timeouts, stopwatch, prewarm, script):
    """A database whose executions follow `script`: a list of (kind, result)."""
    class Db(Database):
        def __init__(self):
            self.system_name, self._n, self._desc, self.stats = "fake", 0, 0, {}
            self.watch = None

        def describe(self):
            self._desc += 1
            log.add("describe", self._desc)
            return {"system_name": "fake", "state": self._desc}

        def hinting(self):
            return Hinting()

        def __str__(self):
            return "fake"
        __repr__ = __str__

        def __hash__(self):
            return id(self)

        def __eq__(self, o):
            return self is o

        def _run(self, query, how, timeout):
            kind, result = script[self._n] if self._n < len(script) else ("ok", [(self._n,)])
            self._n += 1
            log.add("start", str(query), how, timeout)
            if rng.random() < 0.05:
                time.sleep(0.002)
            self.watch = 1000.0 + self._n
            log.add("end", self._n, kind)
            if kind == "error":
                raise Boom(f"failure {self._n}")
            if kind == "timeout" and how == "timeout":
                return None
            return result

        def execute_query(self, query, *, cache_enabled=None, raw=False):
            if isinstance(query, str):
                log.add("stmt", query, cache_enabled)
                return []
            return self._run(query, ("plain", cache_enabled, raw), None)
    if timeouts:
        Db.execute_with_timeout = lambda self, query, *, timeout=60.0: self._run(query, "timeout", timeout)
    if stopwatch:
        Db.last_query_runtime = lambda self: self.watch
        Db.time_query = lambda self, query, *, timeout=None: self.watch
    if prewarm:
        Db.prewarm_tables = lambda self, tables=None, *more, exclude_table_pages=False, include_primary_index=True, include_secondary_indexes=True: log.add(
            "prewarm", frozenset(str(t) for t in tables))
    Db.__abstractmethods__ = frozenset()
    return Db()


class Hinting(HintService):
    def generate_hints(self, query, plan=None, **kw):
        return parser.parse_query(str(query).rstrip(";").replace("SELECT", "SELECT 42 AS opt,", 1), bind_columns=False)

    def format_query(self, query):
        return str(query)

    def supports_hint(self, hint):
        return True


Hinting.__abstractmethods__ = frozenset()


def make_stage(log, fails, online, kinds):
    """A complete optimization algorithm; fails: set of call numbers that raise."""
    class Algo(CompleteOptimizationAlgorithm):
        n = 0

        def optimize_query(self, query):
            log.add("optimize", str(query))
            Algo.n += 1
            if Algo.n in fails:
                raise Boom(f"optimizer {Algo.n}")
            return QueryPlan(ScanOperator.SequentialScan, base_table=min(query.tables()))

        def describe(self):
            return {"name": "algo"}
    if online:
        def learn(self, query, result_set, *, exec_time):
            log.add("feedback", str(query), result_set, exec_time)
            return {}
        Algo.learn_from_feedback = learn
    if "data" in kinds:
        def fit_db(self, database):
            log.add("fit-db", database)
            self.db_done = True
            return {}
        Algo.fit_database = fit_db
        Algo.database_fit_completed = lambda self: getattr(self, "db_done", False)
    if "workload" in kinds:
        def fit_wl(self, workload, database):
            log.add("fit-workload", tuple(str(q) for q in workload.queries()), database)
            self.wl_done = True
            return {}
        Algo.fit_workload = fit_wl
        Algo.workload_fit_completed = lambda self: getattr(self, "wl_done", False)
    if "samples" in kinds:
        def fit_s(self, samples):
            log.add("fit-samples", samples)
            self.s_done = True
            return {}
        Algo.fit_samples = fit_s
        Algo.sample_fit_completed = lambda self: getattr(self, "s_done", False)
        Algo.sample_spec = lambda self: TrainingSpec("query")
    return Algo()


def simplify(result):
    if result is None:
        return None
    if not result:
        return []
    rows = [r[0] for r in result] if len(result[0]) == 1 else list(result)
    return rows[0] if len(rows) == 1 else rows


def draw_result(rng, k):
    kind = rng.randrange(5)
    if kind == 0:
        return []
    rows, cols = rng.choice([(1, 1), (1, 2), (3, 1), (2, 3), (1, 1)])
    return [tuple(rng.choice([k * 100 + i * 10 + j, None, "x,\"y", 1.5]) for j in range(cols)) for i in range(rows)]


def draw_prep(rng):
    kw = {}
    if rng.random() < 0.5:
        kw["projection"] = rng.choice(["none", "star", "*", "count_star", "count(*)"])
    if rng.random() < 0.5:
        kw["output"] = rng.choice(["default", "explain", "analyze", "explain_analyze"])
    if rng.random() < 0.15:
        kw["explain"] = rng.random() < 0.5
    if rng.random() < 0.15:
        kw["analyze"] = rng.random() < 0.5
    if rng.random() < 0.15:
        kw["count_star"] = rng.random() < 0.5
    if rng.random() < 0.4:
        kw["prewarm"] = rng.random() < 0.7
    if rng.random() < 0.4:
        kw["preparatory_statements"] = [f"SET x = {i}" for i in range(rng.randint(0, 3))]
    return kw


def effective(kw):
    """projection, output, prewarm, statements that a preparation stands for."""
    out = kw.get("output", "default")
    if kw.get("explain"):
        out = "explain"
    if kw.get("analyze"):
        out = "analyze"
    proj = kw.get("projection", "none")
    if kw.get("count_star"):
        proj = "count_star"
    proj = {"*": "star", "count(*)": "count_star"}.get(proj, proj)
    out = {"explain_analyze": "analyze"}.get(out, out)
    return proj, out, bool(kw.get("prewarm")) and out != "explain", kw.get("preparatory_statements", [])


def words(sql):
    return " ".join(str(sql).rstrip(";").split())


def prepared_text(sql, proj, out):
    """Regular expression for the text that must be executed."""
    sql = words(sql)
    if proj != "none":
        sql = re.sub(r"^SELECT .*? FROM ", {"star": "SELECT * FROM ", "count_star": "SELECT COUNT(*) FROM "}[proj], sql, count=1)
    pat = re.escape(sql) + r";?"
    if out != "default":
        opts = r"(?=[^S]*ANALYZE)" if out == "analyze" else r"(?![^S]*ANALYZE)"
        return rf"EXPLAIN{opts}( \([^)]*\)| ANALYZE)* {pat}"
    return pat


def plain_queries(rng, n):
    out, seen = [], set()
    while len(out) < n:
        sql = sqlgen.spj(rng, n_tables=rng.choice([1, 1, 2, 3]))[0]
        q = parser.parse_query(sql, bind_columns=False)
        if str(q) not in seen and "(" not in str(q).split("FROM", 1)[0].replace("COUNT(*)", ""):
            seen.add(str(q))
            out.append(q)
    return out


class Config:
    pass


def run(mon, rng):
    mon.count("runs")
    log = Log()
    c = Config()
    n = rng.choice([0, 1, 2, 2, 3, 4, 5])
    queries = plain_queries(rng, n)
    form = rng.choice(["list", "iter", "workload", "workload"])
    if form != "workload" and queries and rng.random() < 0.25:
        queries.append(rng.choice(queries))
    if form == "workload":
        labels = rng.sample([f"q{i}" for i in range(30)], len(queries))
        order = sorted(zip(labels, queries), key=lambda e: int(e[0][1:]))
        workload = Workload(dict(zip(labels, queries)), "wl")
        source = workload
    else:
        order = [(i + 1, q) for i, q in enumerate(queries)]
        source = list(queries) if form == "list" else iter(queries)
    c.order = order
    c.wreps, c.qreps = rng.choice([1, 1, 2, 3, 0]), rng.choice([1, 1, 2, 3])
    c.shuffled = rng.random() < 0.3
    if len({str(q) for q in queries}) < len(queries):
        c.shuffled = False      # the log could not tell equal queries apart
    c.timeout = rng.choice([None, None, 0.5, 3.0])
    c.action = rng.choice(["log", "log", "log", "ignore", "raise"])
    total = c.wreps * c.qreps * len(order)
    bad = rng.choice([0, 0, 0.15, 0.4, 0.9])
    c.script = []
    for k in range(total + 5):
        x = rng.random()
        kind = "error" if x < bad * 0.6 else "timeout" if x < bad and c.timeout else "ok"
        c.script.append((kind, draw_result(rng, k)))
    c.caps = dict(timeouts=c.timeout is not None or rng.random() < 0.5, stopwatch=rng.random() < 0.4, prewarm=rng.random() < 0.5)
    db = make_db(random.Random(rng.random()), log, script=c.script, **c.caps)
    c.target = rng.choice(["db", "db", "pipeline", "pipeline", "stage"])
    c.optfails, c.online, kinds = set(), False, []
    on = db
    pipe = None
    data = None
    if c.target != "db":
        if rng.random() < 0.5:
            c.optfails = {i for i in range(1, c.wreps * len(order) + 1) if rng.random() < 0.3}
        c.online = rng.random() < 0.5
        kinds = [k for k in ("data", "workload", "samples") if rng.random() < 0.25]
        stage = make_stage(log, c.optfails, c.online, kinds)
        if c.target == "pipeline":
            from postbound import IntegratedOptimizationPipeline
            pipe = IntegratedOptimizationPipeline(db).use(stage).build()
            on = pipe
        else:
            on = stage
        if "samples" in kinds and rng.random() < 0.8:
            data = TrainingData(pd.DataFrame({"query": [str(q) for _, q in order]}), feature_map={"query": "query"})
    c.kinds = kinds
    c.prep_kw = draw_prep(rng) if rng.random() < 0.5 else None
    prep = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c.prep_kw is not None:
            prep = dict(c.prep_kw) if rng.random() < 0.3 else bench.QueryPreparation(**c.prep_kw)
    c.log_on, c.cb, c.rcb = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    outdir = None
    c.file = None
    if rng.random() < 0.3:
        outdir = pathlib.Path(mon.tmp) / f"bench{rng.randrange(1 << 40)}"
        c.file = outdir / ("res" + rng.choice([".csv", ".csv", ".json", ".parquet"]))
        mon.count("files")
    again = c.file is not None and rng.random() < 0.3
    what = (f"{form} of {len(order)}, wreps={c.wreps} qreps={c.qreps} shuffled={c.shuffled} timeout={c.timeout} action={c.action} caps={c.caps} target={c.target} "
            f"optfails={sorted(c.optfails)} online={c.online} kinds={kinds} prep={c.prep_kw} file={c.file and c.file.suffix} script={[k for k, _ in c.script[:total]]}")
    mon.sample("run", what)
    kwargs = dict(name="exp", workload_repetitions=c.wreps, per_query_repetitions=c.qreps, shuffled=c.shuffled, query_preparation=prep, timeout=c.timeout, error_action=c.action)
    if c.cb:
        kwargs["exec_callback"] = lambda r: log.add("callback", r)
    if c.rcb:
        kwargs["repetition_callback"] = lambda i: log.add("rep", i)
    if c.log_on:
        kwargs["logger"] = lambda msg: log.add("log", msg)
    if c.file:
        kwargs["progressive_output"] = rng.choice([str, pathlib.Path])(c.file)
    if data is not None:
        kwargs["training_data"] = data
    df, err = None, None
    pool = DatabasePool.get_instance()
    if c.target == "stage":
        pool._pool.clear() if hasattr(pool, "_pool") else None
        pool.register_database("p13", db)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                df = bench.execute_workload(source, on, **kwargs)
            except Boom as e:
                err = e
            except ValueError as e:
                if "samples" not in kinds or data is not None:
                    raise
                err = e
    finally:
        if c.target == "stage":
            pool.clear() if hasattr(pool, "clear") else pool._pool.clear()
    judge(mon, c, log, df, err, db, pipe, prep, data, what)
    if c.file and not ("samples" in kinds and data is None):
        judge_file(mon, c, df, err, what, outdir)
    if df is not None and len(df):
        judge_sort(mon, rng, df, what)


def judge(mon, c, log, df, err, db, pipe, prep, data, what):
    """Replays the specification against the event log and collects the expected rows."""
    ev = list(log)
    pos = 0

    def peek():
        return ev[pos][2:] if pos < len(ev) else ("<none>",)

    def fail(mech, msg):
        tail = [e[2:] for e in ev[max(0, pos - 4):pos + 4]]
        mon.fail(mech, f"{what}\n{msg}\nnear event {pos}/{len(ev)}: {[(str(x)[:160]) for x in tail]}")

    def take(kind, *args):
        nonlocal pos
        skip_describe()
        e = peek()
        if e[0] != kind or any(a is not None and a != b for a, b in zip(args, e[1:])):
            fail(f"event:{kind}", f"expected {kind} {args}, got {str(e)[:300]}")
        pos += 1
        return ev[pos - 1]

    def skip_describe():
        nonlocal pos
        while peek()[0] == "describe":
            pos += 1

    def end():
        skip_describe()
        if pos != len(ev):
            fail("extra-event", f"nothing more expected, got {str(peek())[:300]}")

    if "data" in c.kinds:
        if take("fit-db")[3] is not db:
            fail("training-db", "other database")
    if "workload" in c.kinds:
        e = take("fit-workload")
        if sorted(e[3]) != sorted(str(q) for _, q in c.order) or e[4] is not db:
            fail("training-workload", f"trained on {e[3]}")
    if "samples" in c.kinds:
        if data is None:
            mon.check(isinstance(err, ValueError), "missing-samples", what)
            end()
            return
        if take("fit-samples")[3] is not data:
            fail("training-samples", "other data")
    prep_on = c.prep_kw is not None
    proj, out, prewarm, stmts = effective(c.prep_kw or {})
    if prep_on:
        mon.count("prepared")
    rows, nexec, nopt, raised = [], 0, 0, False
    if c.shuffled and len(c.order) > 1:
        mon.count("shuffled")
    for rep in range(1, c.wreps + 1):
        pending = list(c.order)
        while pending and not raised:
            skip_describe()
            entry = pending[0]
            if c.shuffled:
                entry = which_next(pending, [e[2:] for e in ev[pos:pos + 8]], proj, out, c.log_on) or fail("shuffle", f"next query is none of {[(l, words(q)) for l, q in pending]}")
            pending.remove(entry)
            label, query = entry
            if c.log_on:
                msg = take("log")[3]
                if str(label) not in msg or f"{rep}/{c.wreps}" not in msg:
                    fail("log-message", msg)
            optimized = None
            run_query = query
            tprev = ev[pos - 1][0] if pos else None
            if c.target != "db":
                take("optimize", str(query))
                nopt += 1
                if nopt in c.optfails:
                    mon.count("opt-errors")
                    if c.action == "raise":
                        mon.check(isinstance(err, Boom) and str(err) == f"optimizer {nopt}", "raised-optimization", f"{what}: {err!r}")
                        raised = True
                    elif c.action == "log":
                        for q in range(1, c.qreps + 1):
                            rows.append(dict(label=label, workload_repetition=rep, query_repetition=q, query=query, status="optimization-error", query_result=None,
                                             failure_reason=f"optimizer {nopt}", optimized=None, exec=None, lo=None))
                    else:
                        mon.count("ignored")
                    continue
                run_query = Hinting().generate_hints(query)
                optimized = run_query
            feedback = []
            qrep = 0
            for _ in range(c.qreps):
                if prewarm and c.caps["prewarm"] and prep_on:
                    # the prewarming may precede or follow the description of the database
                    skip_describe()
                    take("prewarm", frozenset(str(t) for t in query.tables()))
                desc = [e[3] for e in ev[max(0, pos - 2):pos] if e[2] == "describe"]
                for s in stmts if prep_on else ():
                    skip_describe()
                    take("stmt", s)
                lo = pos
                while lo > 0 and ev[lo - 1][2] not in ("end", "callback", "optimize", "rep", "log"):
                    lo -= 1
                while peek()[0] == "describe":
                    pos += 1
                desc = {e[3] for e in ev[lo:pos] if e[2] == "describe"}
                kind, result = c.script[nexec]
                nexec += 1
                mon.count("executions")
                tbefore = ev[pos - 1][0] if pos else None
                start = take("start")
                if not re.fullmatch(prepared_text(run_query, proj, out) if prep_on else re.escape(words(run_query)) + ";?", words(start[3])):
                    fail("executed-text", f"executed {start[3]}\nfor {run_query} prepared as {proj}/{out}")
                if c.timeout is not None:
                    if start[4:] != ("timeout", c.timeout):
                        fail("executed-with", f"{start[4:]}")
                elif start[4][0] != "plain" or start[4][1] is not False or start[4][2] is not True:
                    fail("executed-with", f"{start[4:]} (results must be raw and must not come from the cache)")
                endev = take("end", nexec, kind)
                qrep += 1
                status = {"ok": "ok", "error": "execution-error", "timeout": "timeout"}[kind]
                row = dict(label=label, workload_repetition=rep, query_repetition=qrep, query=query, status=status, query_result=simplify(result) if kind == "ok" else None,
                           failure_reason=f"failure {nexec}" if kind == "error" else "", optimized=optimized, exec=(start, endev), lo=ev[lo - 1] if lo else None, desc=desc,
                           watch=1000.0 + nexec, tprev=tprev, tbefore=tbefore, tnext=ev[pos][0] if pos < len(ev) else None)
                if kind == "error":
                    mon.count("exec-errors")
                    if c.action == "raise":
                        mon.check(isinstance(err, Boom) and str(err) == f"failure {nexec}", "raised-execution", f"{what}: {err!r}")
                        raised = True
                        break
                    if c.action == "ignore":
                        mon.count("ignored")
                        qrep -= 1
                        continue
                if kind == "timeout":
                    mon.count("timeouts")
                rows.append(row)
                if c.cb and kind != "error":
                    mon.count("callbacks")
                    e = take("callback")[3]
                    got = (e.query is query or e.query == query, e.status, e.query_result if kind == "ok" else None)
                    if got != (True, status, simplify(result) if kind == "ok" else None):
                        fail("callback-content", f"{e} for {status} {result}")
                    row["cb"] = e
                if kind == "ok":
                    feedback.append((result, row))
            if raised:
                break
            if c.online:
                for result, row in feedback:
                    mon.count("feedback")
                    e = take("feedback")
                    if words(e[3]) not in (words(run_query), words(row["exec"][0][3])) or e[4] != result:
                        fail("feedback", f"{e[3:]} for {run_query} -> {result}")
                    row["fb"] = e[5]
        if raised:
            break
        if c.rcb:
            skip_describe()
            take("rep", rep)
    end()
    if raised:
        mon.count("raised")
        mon.check(df is None and err is not None, "raise-swallowed", what)
        return
    if err is not None:
        mon.fail("unexpected-error", f"{what}: {err!r}")
    judge_frame(mon, c, rows, df, pipe, prep, what)


def which_next(pending, upcoming, proj, out, log_on):
    """The query of a shuffled workload that the next events belong to."""
    for e in upcoming:
        if e[0] == "log":
            hits = [p for p in pending if re.search(rf"(?<!\w){re.escape(str(p[0]))}(?!\w)", e[1].split("(repetition")[0])]
        elif e[0] == "optimize":
            hits = [p for p in pending if str(p[1]) == e[1]]
        elif e[0] == "start":
            hits = [p for p in pending if re.fullmatch(prepared_text(p[1], proj, out), words(e[1]))]
        else:
            continue
        return hits[0] if hits else None
    return None


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) is type(b) and a == b or (isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)) and a == b)


def judge_frame(mon, c, rows, df, pipe, prep, what):
    if not mon.eq(len(df), len(rows), "row-count", what, key=("frame", c.target, c.action, c.shuffled, len(rows), c.timeout is not None)):
        return
    if not rows:
        return
    last_ts = None
    for i, (w, (_, g)) in enumerate(zip(rows, df.iterrows())):
        where = f"{what}\nrow {i}"
        mon.eq(int(g["exec_index"]), i + 1, "exec-index", where)
        for col in ("label", "workload_repetition", "query_repetition", "status", "failure_reason"):
            mon.check(g[col] == w[col], f"column:{col}", lambda: f"{where}: {g[col]!r} instead of {w[col]!r}")
        mon.check(g["query"] is w["query"] or g["query"] == w["query"], "column:query", lambda: f"{where}: {g['query']}")
        got, want = g["query_result"], w["query_result"]
        mon.check(same_result(got, want), "column:query_result", lambda: f"{where}: {got!r} instead of {want!r}")
        opt = g["optimized_query"]
        mon.check((opt is None) if w["optimized"] is None else (opt is not None and str(opt) == str(w["optimized"])), "column:optimized_query", lambda: f"{where}: {opt}")
        gp = g["optimization_pipeline"]
        mon.check((gp is None) == (c.target == "db") and (pipe is None or gp is pipe), "column:optimization_pipeline", lambda: f"{where}: {gp}")
        gq = g["query_preparation"]
        mon.check((gq is None) if prep is None else (gq is prep or isinstance(prep, dict)), "column:query_preparation", lambda: f"{where}: {gq}")
        if w["exec"] is None:
            mon.check(g["exec_time"] != g["exec_time"] and g["optimization_time"] != g["optimization_time"], "times-of-failed-optimization", lambda: f"{where}: {g['exec_time']}")
            continue
        (t0, wall0, *_), (t1, *_) = w["exec"]
        ts = g["timestamp"]
        ts = ts.to_pydatetime() if hasattr(ts, "to_pydatetime") else ts
        before = w["lo"][1] if w["lo"] else None
        mon.check(ts is not None and ts <= wall0 + dt.timedelta(milliseconds=1) and (before is None or ts >= before - dt.timedelta(milliseconds=1)), "timestamp",
                  lambda: f"{where}: {ts} not in [{before}, {wall0}]")
        mon.check(last_ts is None or ts >= last_ts, "timestamp-order", lambda: f"{where}: {ts} < {last_ts}")
        last_ts = ts
        mon.check(g["db_config"].get("state") in w["desc"] if w["desc"] else True, "db-config", lambda: f"{where}: {g['db_config']} but described as {w['desc']} before the execution")
        et = g["exec_time"]
        if w["status"] == "execution-error":
            mon.check(et != et, "exec-time-error", lambda: f"{where}: {et}")
        elif w["status"] == "timeout":
            mon.eq(et, c.timeout, "exec-time-timeout", where)
        elif c.caps["stopwatch"]:
            mon.eq(et, w["watch"], "exec-time-stopwatch", where)
        else:
            # pauses of the interpreter may happen at any point between the surrounding events
            hi = (w["tnext"] - w["tbefore"] + 0.01) if w["tnext"] and w["tbefore"] else 60
            mon.check(t1 - t0 <= et <= hi + 0.05, "exec-time", lambda: f"{where}: {et} not in [{t1 - t0}, {hi}]")
        if "cb" in w:
            mon.check(same(w["cb"].execution_time, et) and same(float(w["cb"].optimization_time), float(g["optimization_time"])), "callback-times", lambda: f"{where}: {w['cb']} vs {et}")
        if "fb" in w:
            mon.check(abs(w["fb"] - 1000 * et) <= 1e-9 * abs(w["fb"]), "feedback-time", lambda: f"{where}: {w['fb']} ms vs {et} s")
        ot = g["optimization_time"]
        mon.check((ot != ot) if c.target == "db" else 0 <= ot <= (t0 - (w["tprev"] or t0 - 60)) + 0.05, "optimization-time", lambda: f"{where}: {ot}")


def same_result(got, want):
    if want is None:
        return got is None or (isinstance(got, float) and math.isnan(got))
    if isinstance(want, (int, float)) and not isinstance(want, bool):
        return isinstance(got, (int, float, np.number)) and float(got) == float(want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(tuple_eq(a, b) for a, b in zip(got, want))
    return tuple_eq(got, want)


def tuple_eq(a, b):
    return a == b or (a is None and b is None)


def judge_file(mon, c, df, err, what, outdir):
    logfile = outdir / "experiment_log.json"
    if mon.check(logfile.exists(), "experiment-log", what):
        entries = json.loads(logfile.read_text())
        mon.eq(len(entries), 1, "experiment-log-entries", what)
        e = entries[0]
        mon.check(e["status"] == ("completed" if err is None else "failed") and e["experiment"] == "exp" and e["start_time"] <= (e["end_time"] or ""), "experiment-log-status", lambda: f"{what}: {e}")
        mon.eq({str(k): v["query"] for k, v in e["workload"]["queries"].items()}, {str(label): str(q) for label, q in c.order}, "experiment-log-workload", what)
        mon.eq((e["workload_repetitions"], e["per_query_repetitions"], e["shuffled"], e["query_timeout"]), (c.wreps, c.qreps, c.shuffled, c.timeout), "experiment-log-config", what)
    if err is not None:
        return
    if not len(df):
        mon.check(not c.file.exists(), "output-of-nothing", what)
        return
    got = read_output(c.file)
    want = [(int(r["exec_index"]), str(r["label"]), int(r["workload_repetition"]), int(r["query_repetition"]), r["status"], r["failure_reason"] or "") for _, r in df.iterrows()]
    mon.eq(got, want, "progressive-output", what)


def read_output(file):
    if file.suffix == ".csv":
        with open(file, newline="") as f:
            rows = list(csv.DictReader(f))
    elif file.suffix == ".parquet":
        rows = pd.read_parquet(file).to_dict("records")
    else:
        rows = json.loads(file.read_text())
        if isinstance(rows, dict) and "columns" in rows:
            rows = [dict(zip(rows["columns"], r)) for r in rows["data"]]
        elif isinstance(rows, dict):
            rows = [{k: rows[k][i] for k in rows} for i in rows["label"]]
    return [(int(r["exec_index"]), str(r["label"]), int(r["workload_repetition"]), int(r["query_repetition"]), r["status"], r["failure_reason"] or "") for r in rows]


def judge_sort(mon, rng, df, what):
    mon.count("sorted")
    shuffled = df.sample(frac=1, random_state=rng.randrange(1 << 30))
    key = lambda lab: int(str(lab).lstrip("q"))
    got = [(r["label"], int(r["exec_index"])) for _, r in bench.sort_results(shuffled).iterrows()]
    mon.eq(got, sorted([(r["label"], int(r["exec_index"])) for _, r in df.iterrows()], key=lambda e: (key(e[0]), e[1])), "sort-results", what)
    got = [int(r["exec_index"]) for _, r in bench.sort_results(shuffled, "exec_index").iterrows()]
    mon.eq(got, sorted(int(x) for x in df["exec_index"]), "sort-by-index", what)
    exported = bench.prepare_export(shuffled)
    mon.check(len(exported) == len(shuffled) and list(exported["exec_index"]) == list(shuffled["exec_index"]), "export-rows", what)
    for (_, a), (_, b) in zip(exported.iterrows(), shuffled.iterrows()):
        for col in ("query_result", "db_config", "query_preparation", "optimization_pipeline"):
            x, y = a[col], b[col]
            if col == "optimization_pipeline":
                mon.check((x is None or x != x) if y is None else isinstance(x, str) and isinstance(json.loads(x), dict), "export-pipeline", lambda: f"{what}: {x!r}")
                continue
            mon.check(not isinstance(x, (list, tuple, dict)), "export-type", lambda: f"{what}: {col} = {x!r}")
            if isinstance(y, (list, tuple, dict)):
                mon.check(json.loads(x) == json.loads(json.dumps(y)), "export-value", lambda: f"{what}: {col} = {x!r} for {y!r}")


def live(mon, rng):
    """Real executions on DuckDB: results of the frame equal direct executions."""
    from lib import db as vdb
    iface, _ = vdb.postbound_db(f"{mon.tmp}/p13_{rng.randrange(1 << 30)}.db", random.Random(rng.random()), constraints=False)
    try:
        queries = plain_queries(rng, 3)
        try:
            want = [iface.execute_query(q, raw=True) for q in queries]
            df = bench.execute_workload(queries, iface, per_query_repetitions=2, timeout=rng.choice([None, 30.0]))
        except Exception as e:
            if "Internal" in type(e).__name__ or "INTERNAL" in str(e):
                mon.count("engine-crash")
                return
            raise
        mon.count("live")
        mon.eq(list(df["status"]), ["ok"] * 6, "live-status", f"{queries} {list(df['failure_reason'])}")
        for i, w in enumerate(want):
            for k in (0, 1):
                got = df.iloc[2 * i + k]["query_result"]
                mon.check(vdb.norm_rows(unsimplify(got, w)) == vdb.norm_rows(w), "live-result", lambda: f"{queries[i]}: {got} vs {w}")
    finally:
        iface.close()


def unsimplify(got, raw):
    rows = got
    if raw and len(raw) == 1:
        rows = [got]
    if raw and len(raw[0]) == 1:
        rows = [(r.item() if isinstance(r, np.generic) else r,) for r in rows]
    return rows


def sessions(mon, rng):
    """Several benchmarks with the same pipeline: models that are still valid are kept, everything else is trained before the first execution."""
    from postbound import IntegratedOptimizationPipeline
    log = Log()
    db = make_db(random.Random(rng.random()), log, script=[], timeouts=True, stopwatch=False, prewarm=False)
    kinds = [k for k in ("data", "workload", "samples") if rng.random() < 0.7]
    stage = make_stage(log, set(), False, kinds)
    pipe = IntegratedOptimizationPipeline(db).use(stage).build()
    attr = {"data": "db_done", "workload": "wl_done", "samples": "s_done"}
    fitted, history = set(), []
    for _ in range(rng.randint(2, 5)):
        if fitted and rng.random() < 0.3:
            gone = rng.choice(sorted(fitted))
            setattr(stage, attr[gone], False)
            fitted.discard(gone)
            history.append(f"invalidate {gone}")
        queries = plain_queries(rng, rng.randint(0, 3))
        data = TrainingData(pd.DataFrame({"query": [str(q) for q in queries] + ["SELECT 1"]}), feature_map={"query": "query"}) if rng.random() < 0.6 else None
        history.append(f"run {len(queries)} queries, data={data is not None}")
        what = f"stage trains on {kinds}: {history}"
        start = len(log)
        kwargs = {} if data is None else {"training_data": data}
        impossible = "samples" in kinds and "samples" not in fitted and data is None
        mon.count("sessions")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                bench.execute_workload(rng.choice([list, iter])(queries), pipe, **kwargs)
                err = None
            except ValueError as e:
                err = e
        mon.eq(err is not None, impossible, "session-samples", lambda: f"{what}: {err}")
        ev = [e[2:] for e in list(log)[start:]]
        fits = [e[0] for e in ev if e[0].startswith("fit-")]
        want = [f"fit-{'db' if k == 'data' else k}" for k in ("data", "workload", "samples") if k in kinds and k not in fitted and not (k == "samples" and data is None)]
        mon.eq(fits, want, "session-training", what)
        first = next((i for i, e in enumerate(ev) if e[0] in ("optimize", "start")), len(ev))
        mon.check(all(i < first for i, e in enumerate(ev) if e[0].startswith("fit-")), "session-order", lambda: f"{what}: {[e[0] for e in ev]}")
        for e in ev:
            if e[0] == "fit-samples":
                mon.check(e[1] is data, "session-data", what)
            elif e[0] == "fit-workload":
                mon.eq(sorted(e[1]), sorted(str(q) for q in queries), "session-workload", what)
        mon.eq(sum(e[0] == "start" for e in ev), 0 if impossible else len(queries), "session-executions", what)
        mon.count("kept", sum(1 for k in kinds if k in fitted))
        fitted |= {k for k in kinds if f"fit-{'db' if k == 'data' else k}" in fits}
        mon.ok(("session", tuple(kinds), len(fitted), data is None, impossible))


SCENARIOS = [Scenario(run, quick=2500, thorough=30000), Scenario(sessions, quick=500, thorough=6000), Scenario(live, quick=16, thorough=100)]
