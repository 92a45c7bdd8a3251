"""P25: timeouts, parallel executors, shared counters and the connection registry under hostile schedules."""
import contextlib
import math
import multiprocessing
import os
import pathlib
import signal
import sys
import threading
import time
import types
import warnings
from collections import Counter

import psycopg
import quacklab

import postbound as pb
from postbound import duckdb, mysql, postgres, qal, transform, util
from postbound.db import _db
from postbound.parser import parse_query

from lib import fakes
from lib.vlib import Scenario

PROPERTY = "P25"
TECHNIQUE = ("schedule control and fault injection with online monitors: connections whose statements block until a controller releases, interrupts, fails or kills them are placed below the real timeout and "
             "parallel executors (DuckDB engine, threads, worker processes); monitors check exactly-once delivery, result ownership, cancellation of the right backend, and the state of the connection afterwards; atomic counters and the "
             "connection pool are driven by threads whose switches are forced inside the critical sections")
RULE = ("seeded schedules: completion orders of 1-12 queries on 1-4 workers with failures, statement timeouts, queue timeouts, repeated queries and several drains; timeouts before the start, during, and right at the end of a query; "
        "errors and killed workers at every protocol step; forced interleavings of counter updates, distinct by scenario x fault x outcome")
ASSUMPTIONS = ["Postgres connections are stand-ins that obey statement timeouts, autocommit and cancellation requests", "statements without a result set are not executed by the parallel and timeout executors",
               "whether time_query reports a timeout as an error is left open"]
LEVEL_NOTE = "real threads and processes; completion orders are chosen by a controller, timing races are additionally provoked by injected delays"
REQUIRE = {"duck-ops": 1200, "duck-timeouts": 500, "late-start": 100, "duck-live": 30, "par-queries": 2000, "par-orders": 300, "par-failed": 300, "par-timeouts": 150, "queue-timeouts": 20, "two-drains": 120, "proc-queries": 250,
           "proc-timeouts": 30, "proc-errors": 50, "proc-deaths": 35, "proc-cached": 14, "counter-histories": 120, "forced-switches": 1000, "pool-races": 80, "pool-refresh": 80}


# ---------------------------------------------------------------- DuckDB: fault proxies below the interface
class FaultCon:
    """A DuckDB connection with scripted delays. Interrupts only reach a statement while it is executing, like in the real engine."""

    def __init__(self, con, script, log):
        self._con, self._script, self._log = con, script, log
        self._interrupted = threading.Event()
        self._active = 0
        self._lock = threading.Lock()

    def execute(self, sql, *args, **kw):
        with self._lock:
            self._active += 1
            if self._active > 1:
                self._log.append(("overlap", str(sql)))
        try:
            step = self._script.get("next") or {}
            if step.get("key") and step["key"] in str(sql):
                self._script["next"] = None
                if step.get("pre"):
                    time.sleep(step["pre"])
                self._interrupted.clear()
                if "block" in step:
                    if self._interrupted.wait(step["block"]):
                        self._log.append(("interrupted", str(sql)))
                        raise quacklab.InterruptException("INTERRUPT Error: Interrupted!")
                    self._log.append(("not-interrupted", str(sql)))
                res = self._con.execute(sql, *args, **kw)
                if step.get("post"):
                    time.sleep(step["post"])
                return self if res is self._con else res
            self._interrupted.clear()
            res = self._con.execute(sql, *args, **kw)
            return self if res is self._con else res
        finally:
            with self._lock:
                self._active -= 1

    def interrupt(self):
        if self._active:
            self._interrupted.set()
        self._con.interrupt()

    def cursor(self):
        return FaultCon(self._con.cursor(), self._script, self._log)

    def __getattr__(self, name):
        return getattr(self._con, name)


@contextlib.contextmanager
def faulty_duckdb(script, log):
    orig = quacklab.connect
    quacklab.connect = lambda *a, **kw: FaultCon(orig(*a, **kw), script, log)
    try:
        yield
    finally:
        quacklab.connect = orig


def make_db(path, rng):
    con = quacklab.connect(path)
    con.execute("CREATE TABLE r (a INTEGER, b VARCHAR)")
    con.execute("CREATE TABLE s (c INTEGER, d INTEGER)")
    for i in range(rng.choice([0, 1, 3, 20])):
        con.execute("INSERT INTO r VALUES (?, ?)", [rng.choice([None, i, i]), f"v{rng.randint(0, 5)}"])
    for i in range(rng.choice([1, 5, 30])):
        con.execute("INSERT INTO s VALUES (?, ?)", [i, rng.randint(0, 20)])
    con.close()


DUCK_QUERIES = ["SELECT r.a, r.b FROM r ORDER BY r.a, r.b", "SELECT count(*) FROM s", "SELECT r.a FROM r WHERE r.a = -1", "SELECT s.c, s.d, r.b FROM r, s WHERE r.a = s.c ORDER BY s.c, s.d, r.b",
                "SELECT max(s.d) FROM s WHERE s.c < 0", "SELECT s.c, t.c FROM s, s AS t ORDER BY s.c, t.c", "SELECT r.b, count(*) FROM r GROUP BY r.b ORDER BY r.b"]


def truth(path_con, sql):
    return path_con.execute(str(sql)).fetchall()


def as_variant(mon, rng, sql):
    kind = rng.choice(["text", "text", "query", "prep"])
    if kind == "text":
        return kind, sql
    q = parse_query(sql)
    if kind == "prep":
        q = transform.add_clause(q, qal.Hint("SET enable_progress_bar = false;", ""))
    return kind, q


def run_with_timeout(rng, db, q, timeout, via):
    """-> ('rows', raw rows | simplified), ('timeout', ...), ('time', seconds)"""
    try:
        if via == "with":
            res = db.execute_with_timeout(q, timeout=timeout)
            return ("timeout", None) if res is None else ("rows", res)
        if via == "time":
            return ("time", db.time_query(q, timeout=timeout))
        if via == "direct":
            ex = postgres.TimeoutQueryExecutor(db)
            try:
                return ("simple", rng.choice([ex, ex.execute_query])(q, timeout))
            finally:
                ex.close()
        return ("simple" if via == "simple" else "rows", db.execute_query(q, timeout=timeout, raw=(via == "raw"), cache_enabled=False))
    except TimeoutError:
        return ("timeout", None)


def judge_outcome(mon, out, exact, must, ctx, timeout, db, elapsed):
    what, val = out
    if must == "finish":
        mon.check(what != "timeout", "spurious-timeout", lambda: f"{ctx}: reported as timed out after {elapsed:.2f} s although the limit is {timeout} s")
    elif must == "timeout":
        mon.check(what == "timeout" or (what == "time" and val >= timeout), "timeout-lost", lambda: f"{ctx}: no timeout reported, got {what} {str(val)[:200]}")
    if what == "rows":
        mon.check(isinstance(val, list) and [tuple(r) for r in val] == exact, "result-rows", lambda: f"{ctx}: delivered {str(val)[:300]} instead of {str(exact)[:300]}")
    elif what == "simple":
        want = _db.simplify_result_set(list(exact))
        mon.check(val == want, "result-simple", lambda: f"{ctx}: delivered {str(val)[:300]} instead of {str(want)[:300]}")
    rt = db.last_query_runtime()
    if what == "timeout":
        mon.count("duck-timeouts")
        mon.check(isinstance(rt, (int, float)) and rt >= timeout, "runtime-timeout", lambda: f"{ctx}: the last runtime is {rt} after a timeout of {timeout} s")
    else:
        mon.check(isinstance(rt, (int, float)) and 0 <= rt <= elapsed + 1, "runtime", lambda: f"{ctx}: the last runtime is {rt}, the call took {elapsed:.3f} s")


def session_probe(mon, db, n_sess, ctx):
    got = db.execute_query("SELECT count(*), sum(x) FROM sess", cache_enabled=False, raw=True)
    mon.eq([tuple(r) for r in got], [(n_sess, sum(range(n_sess)))], "connection-after", f"{ctx}: afterwards the connection delivers something else for its session table")
    order = db.execute_query("SELECT current_setting('default_null_order')", cache_enabled=False, raw=True)
    mon.check("NULLS_FIRST" in str(order).upper().replace(" ", "_") or "FIRST" in str(order).upper(), "settings-after", lambda: f"{ctx}: the session settings are lost: {order}")


def open_session(db, n):
    db.execute_query("CREATE TEMP TABLE sess (x INTEGER)", cache_enabled=False, raw=True)
    db.execute_query(f"INSERT INTO sess SELECT * FROM range({n})", cache_enabled=False, raw=True)
    db.execute_query("SET default_null_order = 'NULLS_FIRST'", cache_enabled=False, raw=True)


def duck_faults(mon, rng):
    path = f"{mon.tmp}/d{rng.randrange(10**12)}.db"
    make_db(path, rng)
    script, log = {}, []
    with faulty_duckdb(script, log):
        db = duckdb.connect(path, private=True)
        ref = quacklab.connect(path)._con       # truth: another connection to the same database
        ref.execute("SET default_null_order = 'NULLS_FIRST'")
        n_sess = rng.randint(1, 9)
        open_session(db, n_sess)
        for i in range(rng.randint(4, 9)):
            sql = rng.choice(DUCK_QUERIES)
            key = sql.split(" FROM ")[1].split(" ")[0].strip(",")
            op = rng.choice(["quick", "quick", "block", "block", "late-start", "near", "post", "error", "plain", "cached", "error-late"])
            via = rng.choice(["with", "raw", "simple", "time"])
            kind, q = as_variant(mon, rng, sql)
            exact = truth(ref, sql)
            ctx = f"{op} via {via} as {kind}: {sql}"
            mon.count("duck-ops")
            log.clear()
            t0 = time.perf_counter()
            if op == "plain":
                got = db.execute_query(q, cache_enabled=False, raw=True)
                mon.eq([tuple(r) for r in got], exact, "plain-rows", ctx)
            elif op == "quick":
                out = run_with_timeout(rng, db, q, 30, via)
                judge_outcome(mon, out, exact, "finish", ctx, 30, db, time.perf_counter() - t0)
            elif op in ("block", "late-start"):
                timeout = rng.choice([0.02, 0.03, 0.001, 1e-6] + ([0] if via == "with" else []))
                script["next"] = {"key": "FROM", "block": 12, "pre": rng.choice([0, 0.005]) if op == "block" else 0.08}
                out = run_with_timeout(rng, db, q, timeout, via)
                el = time.perf_counter() - t0
                mon.count("late-start", int(op == "late-start"))
                judge_outcome(mon, out, exact, "timeout", ctx, timeout, db, el)
                mon.check(el < 9, "not-cancelled", lambda: f"{ctx}: the query ran for {el:.1f} s with a timeout of {timeout} s, it was not cancelled")
                script["next"] = None
            elif op in ("near", "post"):
                timeout = rng.choice([0.02, 0.04])
                d = max(0, timeout + rng.choice([-0.01, -0.002, 0, 0.0005, 0.002, 0.01]))
                script["next"] = {"key": "FROM", "pre" if op == "near" else "post": d}
                out = run_with_timeout(rng, db, q, timeout, via)
                judge_outcome(mon, out, exact, None, ctx, timeout, db, time.perf_counter() - t0)
                mon.count(f"near-{out[0]}")
                script["next"] = None
            elif op == "error":
                bad = rng.choice(["SELECT * FROM missing", "SELEC 1", "SELECT CAST(s.c + 0.5 AS VARCHAR)::DATE FROM s", "SELECT r.nope FROM r"])
                try:
                    out = run_with_timeout(rng, db, bad, 30, via)
                except quacklab.Error:
                    mon.ok("duck-error")
                else:
                    mon.fail("error-lost", f"{bad!r} via {via} with a timeout delivers {str(out)[:200]} instead of its error", {})
            elif op == "error-late":
                # the query fails on its own after the timeout passed: a timeout or the error, but no rows
                script["next"] = {"key": "FROM", "pre": 0.05}
                try:
                    out = run_with_timeout(rng, db, "SELECT * FROM missing", 0.02, via)
                    mon.check(out[0] == "timeout", "error-late", lambda: f"{ctx}: failing query delivers {str(out)[:200]}")
                except quacklab.Error:
                    pass
                script["next"] = None
            elif op == "cached":
                # a timeout must not leave anything in the cache
                timeout = 0.02
                script["next"] = {"key": "FROM", "block": 12}
                if db.execute_with_timeout is not None:
                    try:
                        got = db.execute_query(q, timeout=timeout, raw=True, cache_enabled=True)
                        hit = True
                    except TimeoutError:
                        hit = False
                script["next"] = None
                if hit:
                    mon.eq([tuple(r) for r in got], exact, "cached-hit", ctx)
                got = db.execute_query(q, timeout=30, raw=True, cache_enabled=True)
                mon.eq([tuple(r) for r in got], exact, "cached-after-timeout", f"{ctx}: result after a timed-out execution")
            overl = [x for x in log if x[0] == "overlap"]
            mon.check(not overl, "statement-overlap", lambda: f"{ctx}: two statements were executed on the connection at the same time: {overl}")
            session_probe(mon, db, n_sess, ctx)
            if rng.random() < 0.1:
                rng.choice([db.reset_connection, lambda: (db.close(), db.reconnect())])()
                open_session(db, n_sess)
                ref = quacklab.connect(path)._con
                ref.execute("SET default_null_order = 'NULLS_FIRST'")
        ref.close()
        db.close()
    os.unlink(path)


HEAVY = ["SELECT count(*) FROM range(40000000000) a", "SELECT sum(a.range * b.range) FROM range(400000) a, range(400000) b", "SELECT count(*) FROM (SELECT DISTINCT a.range % 1000003 AS x FROM range(3000000000) a) q"]


def duck_live(mon, rng):
    """the real engine: heavy statements are cancelled, short ones deliver"""
    path = f"{mon.tmp}/l{rng.randrange(10**12)}.db"
    make_db(path, rng)
    ref = quacklab.connect(path)
    ref.execute("SET default_null_order = 'NULLS_FIRST'")
    db = duckdb.connect(path, private=True)
    db.execute_query("SET threads = 1", cache_enabled=False, raw=True)
    n_sess = rng.randint(1, 9)
    open_session(db, n_sess)
    for i in range(4):
        mon.count("duck-live")
        via = rng.choice(["with", "raw", "simple"])
        if rng.random() < 0.6:
            sql, timeout = rng.choice(HEAVY), rng.choice([0.0001, 0.01, 0.05, 0.2])
            t0 = time.perf_counter()
            out = run_with_timeout(rng, db, sql, timeout, via)
            el = time.perf_counter() - t0
            judge_outcome(mon, out, None, "timeout", f"live {sql}", timeout, db, el)
            mon.check(el < 20, "not-cancelled", lambda: f"live {sql}: took {el:.1f} s with a timeout of {timeout} s")
        else:
            sql = rng.choice(DUCK_QUERIES)
            timeout = rng.choice([60, 60, 0.0002, 0.001])
            t0 = time.perf_counter()
            out = run_with_timeout(rng, db, sql, timeout, via)
            judge_outcome(mon, out, truth(ref, sql), "finish" if timeout == 60 else None, f"live {sql}", timeout, db, time.perf_counter() - t0)
        session_probe(mon, db, n_sess, "live")
    db.close()
    ref.close()
    os.unlink(path)


# ---------------------------------------------------------------- Postgres stand-in
class PGServer(fakes.Server):
    """Statements 'SELECT ... = <n>' behave as self.beh[n] says. Each execution delivers rows that carry n and a unique execution number."""

    def __init__(self, tmp):
        super().__init__(None)
        self.beh = {}
        self.settings = {"work_mem": "4096", "enable_hashjoin": "on", "geqo": "on", "join_collapse_limit": "8"}
        self.cond = threading.Condition()
        self.running, self.started, self.finished, self.max_running = set(), [], [], 0
        self.execs = 0
        self.cancelled = []
        self.main_pid = os.getpid()
        self.trace = pathlib.Path(tmp) / f"trace{id(self)}-{os.getpid()}"

    def connect(self, *args, **kwargs):
        app = kwargs.get("application_name", "")
        if os.getpid() != self.main_pid and self.child_fault == "connect-error":
            raise psycopg.OperationalError("connection refused")
        if os.getpid() != self.main_pid and self.child_fault == "connect-die":
            os.kill(os.getpid(), signal.SIGKILL)
        con = super().connect(*args, **kwargs)
        con.info = types.SimpleNamespace(backend_pid=os.getpid() * 1000 + con.ident, host="fake", status=psycopg.pq.ConnStatus.OK)
        orig_close = con.close

        def close():
            con.info.status = psycopg.pq.ConnStatus.BAD
            orig_close()
        con.close = close
        con.settings = dict(self.settings)
        con.statement_timeout = None
        con.failed = False
        orig = con.rollback

        def rollback():
            con.failed = False
        con.rollback = rollback
        return con

    child_fault = None

    def answer(self, con, sql, params):
        text = " ".join(str(sql).split())
        up = text.upper().rstrip(";")
        if not isinstance(sql, (str, bytes)):
            raise TypeError(f"unsupported statement type {type(sql)}")
        if up == "SELECT NAME, SETTING FROM PG_SETTINGS":
            return list(con.settings.items())
        if up.startswith("SELECT PG_CANCEL_BACKEND"):
            self.cancelled.append((con.info.backend_pid, int(text[text.index("(") + 1:text.index(")")])))
            return [(True,)]
        if up.startswith("SET "):
            for part in [p.strip() for p in str(sql).split(";") if p.strip()]:
                name, val = part[4:].replace(" TO ", " = ", 1).split("=", 1)
                val = val.strip().strip("'")
                if name.strip() == "statement_timeout":
                    con.statement_timeout = val
                else:
                    con.settings[name.strip()] = val
            if os.getpid() != self.main_pid and self.child_fault == "prep-error":
                raise psycopg.errors.InvalidParameterValue("invalid value for parameter")
            if os.getpid() != self.main_pid and self.child_fault == "prep-die":
                os.kill(os.getpid(), signal.SIGKILL)
            return None
        if con.failed:
            raise psycopg.errors.InFailedSqlTransaction("current transaction is aborted")
        if "= " in text and text.rstrip(" ;").split("= ")[-1].isdigit():
            n = int(text.rstrip(" ;").split("= ")[-1])
            if n in self.beh:
                try:
                    return self.play(con, n)
                except psycopg.Error:
                    con.failed = not con.autocommit
                    raise
        return super().answer(con, sql, params)

    def play(self, con, n):
        b = self.beh[n]
        with self.cond:
            self.execs += 1
            no = self.execs
            me = (n, no)
            self.running.add(me)
            self.started.append(me)
            self.max_running = max(self.max_running, len(self.running))
            self.cond.notify_all()
        if b.get("trace"):
            with open(self.trace, "a") as f:
                f.write(f"{con.info.backend_pid}\n")
        try:
            if b.get("gated"):
                with self.cond:
                    limit = time.monotonic() + 60
                    while no not in b["open"] and not b.get("open_all") and time.monotonic() < limit:
                        self.cond.wait(1)
            if b.get("sleep"):
                time.sleep(b["sleep"])
            if b.get("die"):
                os.kill(os.getpid(), signal.SIGKILL)
            if b.get("error"):
                raise b["error"]()
            if b.get("slow"):
                if con.statement_timeout:
                    raise psycopg.errors.QueryCanceled("canceling statement due to statement timeout")
            if b.get("settings"):
                return sorted(con.settings.items())
            return [(n, no, k) for k in range(b["rows"])]
        finally:
            with self.cond:
                self.running.discard(me)
                self.finished.append(me)
                self.cond.notify_all()


PAR_ERRORS = [lambda: psycopg.errors.UndefinedTable("no such table"), lambda: psycopg.errors.QueryCanceled("canceling statement due to user request"), lambda: psycopg.OperationalError("server closed the connection"),
              lambda: psycopg.errors.DivisionByZero("division by zero")]


class Controller(threading.Thread):
    """releases the running queries in a random order, one at a time, whenever all workers are busy"""

    def __init__(self, server, rng, n_workers, total, hold=()):
        super().__init__(daemon=True)
        self.server, self.rng, self.n_workers, self.total, self.hold = server, rng, n_workers, total, set(hold)
        self.order, self.stop = [], False

    def run(self):
        s = self.server
        released = 0
        held = 0
        while released < self.total and not self.stop:
            with s.cond:
                limit = time.monotonic() + 0.25
                want = min(self.n_workers, self.total - released)
                while len([x for x in s.running if x[0] not in self.hold]) < want - len([x for x in s.running if x[0] in self.hold]) and time.monotonic() < limit and not self.stop:
                    s.cond.wait(0.05)
                cand = sorted(x for x in s.running if x[0] not in self.hold)
                if not cand:
                    continue
                me = self.rng.choice(cand)
                s.beh[me[0]]["open"].add(me[1])
                s.cond.notify_all()
                limit = time.monotonic() + 20
                while me not in s.finished and time.monotonic() < limit:
                    s.cond.wait(0.05)
                self.order.append(me)
                released += 1


def parallel(mon, rng):
    s = PGServer(mon.tmp)
    n_threads = rng.choice([1, 2, 2, 3, 4])
    timeout = rng.choice([None, None, 5, 0.5])
    with s.psycopg():
        ex = postgres.ParallelQueryExecutor("dbname=x", n_threads=n_threads, timeout=timeout)
        next_id, owed = 1, {}
        calls = []
        batches = rng.choice([1, 1, 2, 3])
        mon.count("two-drains", int(batches > 1))
        all_q = {}       # key of the query -> (id, behaviour)
        for b in range(batches):
            qs = []
            hold = set()
            for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
                if qs and rng.random() < 0.12:
                    qs.append(rng.choice(qs))
                    mon.count("par-repeated")
                    continue
                n = next_id
                next_id += 1
                kind = rng.choice(["rows", "rows", "rows", "empty", "fail", "slow"])
                s.beh[n] = {"gated": True, "open": set(), "rows": 0 if kind == "empty" else rng.choice([1, 1, 2, 50]), "kind": kind}
                if kind == "fail":
                    s.beh[n]["error"] = rng.choice(PAR_ERRORS)
                if kind == "slow":
                    s.beh[n]["slow"] = True
                sql = f"SELECT t.a FROM t WHERE t.a = {n}"
                qs.append((n, parse_query(sql) if rng.random() < 0.4 else sql))
            if not any(s.beh[n]["kind"] == "fail" for n, _ in qs) and qs and rng.random() < 0.15:
                hold = {rng.choice(qs)[0]}
            use_cb = rng.random() < 0.75
            this_calls = []
            cb = (lambda q, r: this_calls.append((q, r))) if use_cb else None
            for n, q in qs:
                ex.queue_query(q)
                all_q[str(q)] = (n, q)
                mon.count("par-queries")
            ctl = Controller(s, rng, n_threads, len([1 for n, _ in qs if n not in hold]), hold)
            ctl.start()
            desc = f"{n_threads} workers, timeout {timeout}, batch {b}: {[(n, s.beh[n]['kind']) for n, _ in qs]}"
            err = None
            try:
                if hold:
                    mon.count("queue-timeouts")
                    try:
                        ex.drain_queue(timeout=0.4, callback=cb)
                        mon.fail("queue-timeout-lost", f"{desc}: drain_queue returned although a query is still running", {})
                    except TimeoutError:
                        pass
                    part = dict(ex.result_set())
                    judge_results(mon, part, {k: v for k, v in all_q.items() if v[0] not in hold}, s, timeout, f"{desc} (after queue timeout)", complete=False)
                    with s.cond:
                        for n in hold:
                            s.beh[n]["open_all"] = True
                        ctl.hold = set()
                        s.cond.notify_all()
                    for n, _ in qs:
                        s.beh[n]["open_all"] = True
                    ex.drain_queue(callback=cb)
                else:
                    ex.drain_queue(callback=cb)
            except psycopg.Error as e:
                err = e
            ctl.stop = True
            ctl.join()
            failing = [n for n, _ in qs if s.beh[n]["kind"] == "fail"]
            mon.count("par-failed", len(failing))
            mon.count("par-timeouts", len([1 for n, _ in qs if s.beh[n]["kind"] == "slow"]) if timeout else 0)
            if err is not None:
                mon.check(bool(failing), "parallel-error", lambda: f"{desc}: drain_queue raised {err!r}, no query fails")
            mon.check(not s.running, "drain-returned-early", lambda: f"{desc}: drain_queue ended, but {s.running} are still running (error: {err!r})")
            if len(qs) > 1:
                mon.count("par-orders")
                mon.sample("completion order", {"workers": n_threads, "order": [x[0] - qs[0][0] for x in ctl.order], "kinds": [s.beh[n]["kind"] for n, _ in qs]})
                mon.ok("order:" + str([qs_idx for qs_idx in [x[0] - qs[0][0] for x in ctl.order]])[:80])
            judge_results(mon, dict(ex.result_set()), all_q, s, timeout, desc, complete=True)
            judge_calls(mon, this_calls, qs, s, timeout, desc, use_cb)
        mon.check(s.max_running <= n_threads, "too-many-workers", lambda: f"{s.max_running} queries at the same time with {n_threads} workers")
        ex.close()
        before = s.execs
        mon.check(sum(1 for x in s.started) == before, "executions", "")


def expected_of(s, n, timeout):
    k = s.beh[n]["kind"]
    if k == "fail":
        return "fail"
    if k == "slow" and timeout:
        return None
    return s.beh[n]["rows"]


def judge_one(mon, s, n, res, timeout, desc, where):
    want = expected_of(s, n, timeout)
    if want == "fail":
        mon.fail("failed-has-result", f"{desc}: {where} has {str(res)[:200]} for the failing query {n}", {})
    elif want is None:
        mon.check(res is None, "timeout-result", lambda: f"{desc}: {where} has {str(res)[:200]} for query {n} that ran into its timeout")
    else:
        ok = isinstance(res, list) and len(res) == want and all(tuple(r)[0] == n for r in res) and len({r[1] for r in res}) <= 1 and [r[2] for r in res] == list(range(want))
        mon.check(ok, "wrong-result", lambda: f"{desc}: {where} has {str(res)[:200]} for query {n}, which delivers {want} rows tagged with {n}")


def judge_results(mon, results, all_q, s, timeout, desc, complete):
    got = {str(k): v for k, v in results.items()}
    for key, (n, q) in all_q.items():
        if expected_of(s, n, timeout) == "fail":
            if key in got:
                mon.fail("failed-has-result", f"{desc}: the results contain {got[key]} for the failing query {n}", {})
            continue
        if key not in got:
            if complete:
                mon.fail("result-lost", f"{desc}: the result of query {n} ({s.beh[n]['kind']}) is missing, there are results for {sorted(all_q[k][0] for k in got)}", {})
            continue
        mon.check(any(k == q for k in results), "result-key", lambda: f"{desc}: no key of the results equals the queued query {q!r}")
        judge_one(mon, s, n, got[key], timeout, desc, "the result set")
    mon.check(set(got) <= set(all_q), "foreign-result", lambda: f"{desc}: results for {set(got) - set(all_q)}")


def judge_calls(mon, calls, qs, s, timeout, desc, use_cb):
    if not use_cb:
        return
    want = Counter(str(q) for n, q in qs if expected_of(s, n, timeout) != "fail")
    fails = {str(q) for n, q in qs if expected_of(s, n, timeout) == "fail"}
    ids = {str(q): n for n, q in qs}
    got = Counter(str(q) for q, r in calls if str(q) not in fails)
    known = set(want) | fails
    mon.check({k: v for k, v in got.items() if k in known} == dict(want), "callbacks", lambda: f"{desc}: callbacks for {sorted((ids.get(k, k), v) for k, v in got.items())}, expected {sorted((ids[k], v) for k, v in want.items())}")
    mon.check(not (set(got) - known), "callback-again", lambda: f"{desc}: callbacks of an earlier batch are repeated: {set(got) - known}")
    toks = []
    for q, r in calls:
        if str(q) in want:
            mon.check(any(type(q) is type(o) and q == o for _, o in qs), "callback-query", lambda: f"{desc}: the callback receives {q!r}")
            judge_one(mon, s, ids[str(q)], r, timeout, desc, "the callback")
            if isinstance(r, list) and r and isinstance(r[0], tuple) and len(r[0]) == 3:
                toks.append(r[0][:2])
    mon.check(len(toks) == len(set(toks)), "delivered-twice", lambda: f"{desc}: one execution was delivered twice: {toks}")


# ---------------------------------------------------------------- Postgres timeouts in worker processes
def proc(mon, rng):
    s = PGServer(mon.tmp)
    with s.psycopg(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        db = postgres.PostgresInterface("dbname=x", cache_enabled=False)
        main_pids = {c.info.backend_pid for c in s.conns}
        cur_settings = {"work_mem": str(rng.randint(64, 9999)), "geqo": rng.choice(["on", "off"])}
        for k, v in cur_settings.items():
            db.cursor().execute(f"SET {k} = '{v}';")
        for i in range(3):
            n = 1000 * (i + 1) + rng.randint(1, 99)
            op = rng.choice(["rows", "rows", "large", "empty", "settings", "prep", "timeout", "timeout", "error", "die", "connect-error", "connect-die", "prep-error", "prep-die", "cached", "unpicklable"])
            sql = f"SELECT t.a FROM t WHERE t.a = {n}"
            q = parse_query(sql) if rng.random() < 0.5 else sql
            via = rng.choice(["with", "raw", "simple", "direct"])
            b = s.beh[n] = {"rows": {"large": 20000, "empty": 0}.get(op, rng.choice([1, 3, 10])), "kind": op, "trace": True}
            s.child_fault = None
            timeout = 45
            with contextlib.suppress(FileNotFoundError):
                s.trace.unlink()
            s.cancelled.clear()
            ctx = f"timeout executor, {op} via {via}"
            mon.count("proc-queries")
            if op in ("settings", "prep"):
                b["settings"] = True
            if op == "prep":
                q = transform.add_clause(parse_query(sql), qal.Hint("SET enable_hashjoin = 'off';", ""))
            if op == "timeout":
                b["sleep"] = rng.choice([50, 50, 3])
                timeout = rng.choice([0.05, 0.15, 0.3])
            if op == "error":
                b["error"] = rng.choice(PAR_ERRORS)
            if op == "unpicklable":
                class Odd(psycopg.DataError):
                    def __reduce__(self):
                        raise TypeError("cannot pickle")
                b["error"] = lambda: Odd("strange")
            if op == "die":
                b["die"] = True
            if op in ("connect-error", "connect-die", "prep-error", "prep-die"):
                s.child_fault = op
            n_before = s.execs
            if op == "cached":
                mon.count("proc-cached")
                # stored by an execution without timeout, the data change afterwards
                first = db.execute_query(q, cache_enabled=True, raw=True)
                via = rng.choice(["raw", "simple"])
                got = db.execute_query(q, cache_enabled=True, raw=via == "raw", timeout=30)
                want = first if via == "raw" else _db.simplify_result_set(list(first))
                mon.check(_strip(got) == _strip(want), "cached-shape", lambda: f"{ctx}: {got!r} instead of {want!r}")
                continue
            t0 = time.perf_counter()
            outcome = err = None
            try:
                outcome = run_with_timeout(rng, db, q, timeout, via)
            except Exception as e:
                err = e
            el = time.perf_counter() - t0
            alive = multiprocessing.active_children()
            mon.check(not alive, "leaked-process", lambda: f"{ctx}: worker processes are still alive: {alive}")
            mon.check(el < 40, "not-cancelled", lambda: f"{ctx}: took {el:.1f} s with a timeout of {timeout}")
            mon.check({c.info.backend_pid for c in s.conns if not c.closed} >= {db.backend_pid()}, "connection-closed", lambda: f"{ctx}: the connection of the interface is closed")
            backend = {int(x) for x in s.trace.read_text().split()} if s.trace.exists() else set()
            aborted = {pid for _, pid in s.cancelled}
            mon.check(not (aborted & main_pids), "cancelled-own-backend", lambda: f"{ctx}: the connection of the interface itself was cancelled ({s.cancelled})")
            if op == "timeout":
                mon.count("proc-timeouts")
                mon.check(outcome is not None and outcome[0] == "timeout", "timeout-lost", lambda: f"{ctx}: no timeout reported but {outcome} / {err!r}")
                mon.check(backend <= aborted, "backend-not-cancelled", lambda: f"{ctx}: the backend {backend} still runs the query, cancelled: {s.cancelled}")
                rt = db.last_query_runtime()
                mon.check(rt >= timeout, "runtime-timeout", lambda: f"{ctx}: last runtime {rt} after a timeout of {timeout} s")
            elif op in ("error", "die", "connect-error", "connect-die", "prep-error", "prep-die", "unpicklable"):
                mon.count("proc-deaths" if "die" in op else "proc-errors")
                mon.check(err is not None, "error-lost", lambda: f"{ctx}: delivers {str(outcome)[:200]} instead of an error")
            else:
                mon.check(err is None, "spurious-error", lambda: f"{ctx}: raised {err!r}")
                mon.check(outcome is None or outcome[0] != "timeout", "spurious-timeout", lambda: f"{ctx}: reported as timed out after {el:.1f} s")
                if outcome is not None:
                    exact = sorted((dict(s.settings) | cur_settings | ({"enable_hashjoin": "off"} if op == "prep" else {})).items()) if b.get("settings") else [(n, k) for k in range(b["rows"])]
                    got = outcome[1]
                    want = exact if outcome[0] == "rows" else _db.simplify_result_set(list(exact))
                    got = got if b.get("settings") else _strip(got)
                    if outcome[0] == "simple" and not b.get("settings"):
                        want = _strip(_db.simplify_result_set([(n, 0, k) for k in range(b["rows"])]))
                    mon.check(got == want, "result-rows", lambda: f"{ctx}: delivered {str(got)[:300]} instead of {str(want)[:300]}")
                    rt = db.last_query_runtime()
                    mon.check(0 <= rt <= el + 1, "runtime", lambda: f"{ctx}: last runtime {rt}, the call took {el:.2f} s")
            # the interface works as before, with its own settings
            s.child_fault = None
            s.beh[n + 500] = {"rows": 1, "kind": "settings", "settings": True}
            now = db.execute_query(f"SELECT t.a FROM t WHERE t.a = {n + 500}", cache_enabled=False, raw=True)
            mon.eq(sorted(now), sorted((dict(s.settings) | cur_settings).items()), "connection-after", f"{ctx}: settings of the connection afterwards")
        with contextlib.suppress(FileNotFoundError):
            s.trace.unlink()
        db.close()
        open_cons = [c for c in s.conns if not c.closed]
        mon.check(not open_cons, "leaked-connection", lambda: f"{len(open_cons)} connections are open after close(): {[c.kwargs.get('application_name') for c in open_cons]}")


def _strip(rows):
    """without the execution number"""
    if isinstance(rows, list):
        return [_strip(r) for r in rows]
    if isinstance(rows, tuple) and len(rows) == 3:
        return (rows[0], rows[2])
    return rows


# ---------------------------------------------------------------- counters
class SlowInt(int):
    """an increment that gives other threads the opportunity to run while it is being added"""
    gate = None

    def _pause(self):
        COUNTS["switches"] += 1
        time.sleep(0.0005)

    def __radd__(self, other):
        self._pause()
        return int(other) + int(self)

    def __add__(self, other):
        self._pause()
        return int(self) + int(other)


COUNTS = {"switches": 0}


def counter(mon, rng):
    AtomicInt = util.num.AtomicInt
    COUNTS["switches"] = 0
    start = rng.choice([0, 0, 0])
    c = AtomicInt(start)
    n_threads = rng.randint(2, 5)
    per = rng.randint(3, 10)
    tokens = [[1 << (t * per + i) for i in range(per)] for t in range(n_threads)]
    slow = [[rng.random() < 0.5 for _ in range(per)] for _ in range(n_threads)]
    seen, errors = [], []
    barrier = threading.Barrier(n_threads + 1)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    done = threading.Event()

    def work(t):
        try:
            barrier.wait(20)
            for tok, sl in zip(tokens[t], slow[t]):
                before = c.value
                if before & tok:
                    errors.append(f"token {tok} is counted before it was added")
                c.increment(SlowInt(tok) if sl else tok)
                if not c.value & tok:
                    errors.append(f"increment by {tok} is lost right after it was added")
                if sl:
                    _ = (c + 1, c == c, int(c), hash(c), str(c), c > 0)
        except Exception as e:
            errors.append(repr(e))

    def read():
        try:
            barrier.wait(20)
            last = 0
            while not done.is_set():
                v = int(c)
                if last & ~v:
                    errors.append(f"the value went from {last} to {v}")
                last = v
                seen.append(v)
                time.sleep(0.0002)
        except Exception as e:
            errors.append(repr(e))
    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n_threads)] + [threading.Thread(target=read, daemon=True)]
    try:
        for t in ths:
            t.start()
        for t in ths[:-1]:
            t.join(30)
        done.set()
        ths[-1].join(30)
    finally:
        sys.setswitchinterval(old)
    mon.check(not any(t.is_alive() for t in ths), "counter-deadlock", "threads that use one AtomicInt are stuck")
    mon.check(not errors, "counter-inconsistent", lambda: f"AtomicInt with {n_threads} threads: {errors[:3]}")
    want = sum(sum(t) for t in tokens)
    mon.check(c.value == want, "increments-lost", lambda: f"AtomicInt is {c.value} after increments that sum up to {want} ({n_threads} threads)")
    mon.check(all(not (v & ~want) for v in seen), "counter-foreign", "a reader saw a value that no set of increments produces")
    mon.count("counter-histories")
    mon.count("forced-switches", COUNTS["switches"])
    mon.count("counter-states", len(set(seen)))
    c.reset()
    mon.check(c.value == 0, "counter-reset", lambda: f"after reset: {c.value}")
    c.value = 7
    c.increment()
    mon.check(c == 8 and int(c) == 8 and c.value == 8, "counter-set", lambda: f"7 + 1 = {c}")
    # reset and concurrent increments: each increment is either before the reset (gone) or after it (fully there)
    c = AtomicInt(0)
    barrier2 = threading.Barrier(3)
    errors2 = []

    def inc(base):
        try:
            barrier2.wait(20)
            for i in range(4):
                c.increment(SlowInt(1 << (base + i)))
        except Exception as e:
            errors2.append(repr(e))

    def rst():
        try:
            barrier2.wait(20)
            time.sleep(rng.random() * 0.004)
            c.reset()
        except Exception as e:
            errors2.append(repr(e))
    ths = [threading.Thread(target=inc, args=(0,)), threading.Thread(target=inc, args=(4,)), threading.Thread(target=rst)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(30)
    mon.check(not errors2 and not any(t.is_alive() for t in ths), "counter-deadlock", lambda: f"reset during increments: {errors2}")
    v = c.value
    for base in (0, 4):
        bits = [(v >> (base + i)) & 1 for i in range(4)]
        mon.check(bits == sorted(bits) and v < 256, "reset-torn", lambda: f"after a reset during increments: {v:b} (no suffix of the increments of each thread)")


# ---------------------------------------------------------------- connection registry
def pool(mon, rng):
    old_pool = _db._DB_POOL if hasattr(_db, "_DB_POOL") else None
    Pool = _db.DatabasePool
    orig_init = Pool.__init__
    created = []

    def slow_init(self, *a, **kw):
        created.append(1)
        time.sleep(rng.random() * 0.003)
        orig_init(self, *a, **kw)
        time.sleep(rng.random() * 0.002)
    n = rng.randint(2, 8)
    barrier = threading.Barrier(n)
    pools, errors = [None] * n, []

    def work(i):
        try:
            barrier.wait(20)
            p = Pool.get_instance()
            pools[i] = p
            p.register_database(f"db{i}", ("db", i))
            if p.retrieve_database(f"db{i}") != ("db", i):
                errors.append(f"db{i} delivers another database")
        except Exception as e:
            errors.append(repr(e))
    fresh = rng.random() < 0.7
    try:
        if fresh:
            _db._DB_POOL = None
        else:
            Pool.get_instance().clear()
        Pool.__init__ = slow_init
        ths = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(30)
        mon.count("pool-races")
        mon.check(not any(t.is_alive() for t in ths), "pool-deadlock", "threads that use the pool are stuck")
        p = Pool.get_instance()
        mon.check(not errors, "pool-errors", lambda: f"{errors[:3]}")
        mon.check(all(x is p for x in pools), "several-pools", lambda: f"{len({id(x) for x in pools})} different pools exist for {n} threads")
        missing = [i for i in range(n) if f"db{i}" not in p]
        mon.check(not missing and p.n_databases() == n, "registration-lost", lambda: f"connections {missing} of {n} threads are missing in the pool")
        for i in range(n):
            if f"db{i}" in p:
                mon.check(p.retrieve_database(f"db{i}") == ("db", i), "registration-mixed", lambda: f"db{i} delivers {p.retrieve_database(f'db{i}')}")
        if n == 1:
            mon.check(p.current_database() == ("db", 0), "pool-current", "current database")
        else:
            mon.raises(lambda: p.current_database(), "pool-current", "several databases but there is a current one", ValueError)
        p.clear()
        mon.check(p.empty() and p.n_databases() == 0, "pool-clear", "the pool is not empty after clear()")
        mon.raises(lambda: p.retrieve_database("db0"), "pool-retrieve", "unknown database", KeyError)
        mon.raises(lambda: p.any_database(), "pool-any", "empty pool", ValueError)
        pool_connect(mon, rng, p)
    finally:
        Pool.__init__ = orig_init
        _db._DB_POOL = old_pool


def pool_connect(mon, rng, p):
    """connect() with names, refresh and private connections"""
    backend = rng.choice(["duckdb", "postgres"])
    paths = [f"{mon.tmp}/pool{rng.randrange(10**12)}.db" for _ in range(2)]
    made = []
    server = PGServer(mon.tmp)
    model = {}
    with server.psycopg():
        for _ in range(rng.randint(2, 6)):
            name = rng.choice(["x", "y"])
            refresh, private = rng.random() < 0.35, rng.random() < 0.2
            before = dict(model)
            if backend == "duckdb":
                db = duckdb.connect(rng.choice(paths), name=name, refresh=refresh, private=private)
            else:
                db = postgres.connect(connect_string="dbname=x", name=name, refresh=refresh, private=private)
            ctx = f"{backend}.connect(name={name}, refresh={refresh}, private={private}) with the pool {sorted(before)}"
            if name in before and not refresh:
                mon.check(db is before[name], "pool-reuse", lambda: f"{ctx}: did not provide the registered connection")
                continue
            mon.check(all(db is not x for x in made), "pool-fresh", lambda: f"{ctx}: provided an existing connection")
            made.append(db)
            if private:
                mon.check(all(p._pool.get(k) is v for k, v in before.items()) and p.n_databases() == len(before), "pool-private", lambda: f"{ctx}: a private connection changed the pool")
                continue
            mon.count("pool-refresh", int(refresh))
            for k, v in before.items():
                mon.check(k in p and p.retrieve_database(k) is v, "pool-overwritten", lambda: f"{ctx}: the connection registered as {k} is gone from the pool")
            mon.check(p.n_databases() == len(before) + 1, "pool-size", lambda: f"{ctx}: {p.n_databases()} registered connections instead of {len(before) + 1}")
            keys = [k for k in p._pool if p._pool[k] is db] if hasattr(p, "_pool") else []
            mon.check(len(keys) == 1 and (name in before or keys == [name]), "pool-key", lambda: f"{ctx}: registered as {keys}")
            model[keys[0]] = db
            if len(model) == 1:
                mon.check(p.current_database() is db, "pool-current", ctx)
        # a closed DuckDB connection is re-established when it is requested again
        if backend == "duckdb" and model and rng.random() < 0.5:
            k = rng.choice(sorted(model))
            model[k].close()
            again = duckdb.connect(paths[0], name=k)
            mon.check(again is model[k] and again.execute_query("SELECT 42", cache_enabled=False) == 42, "pool-reconnect", f"reconnecting {k}")
            mon.count("pool-reconnect")
        for db in made:
            with contextlib.suppress(Exception):
                db.close()
    p.clear()
    for x in paths:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(x)


SCENARIOS = [Scenario(duck_faults, quick=400, thorough=8000, cpu=120, name="duck-faults"), Scenario(duck_live, quick=16, thorough=240, cpu=200, name="duck-live"), Scenario(parallel, quick=600, thorough=15000, cpu=120, name="parallel"),
             Scenario(proc, quick=200, thorough=3000, cpu=200, name="proc"), Scenario(counter, quick=240, thorough=6000, cpu=120, name="counter"), Scenario(pool, quick=160, thorough=3000, cpu=120, name="pool")]
