"""P14: query cache histories against a model that knows when each statement was cached."""
import atexit
import datetime
import decimal
import json
import math
import os
import pathlib
import random
import shutil
import subprocess
import sys
import uuid
import warnings
from collections import UserString

import quacklab

import postbound as pb
from postbound import duckdb, mysql, postgres, qal, transform
from postbound.db import _db
from postbound.parser import parse_query

from lib import fakes
from lib.vlib import REPO, Scenario

PROPERTY = "P14"
TECHNIQUE = ("model-based monitoring of cache histories: the real DuckDB interface (and the real Postgres/MySQL interfaces over stand-in connections that are answered by a DuckDB engine) execute statements while the data "
             "change behind them; a model records the value of each statement when it was cached; process exits and restarts are played through the registered exit handlers and through real processes")
RULE = ("histories of 30-60 operations (cached/uncached/default executions as text, UserString or query object, raw or simplified, with and without timeout, data changes, cache resets, switching the cache, failing statements, "
        "preparatory settings, callers that modify their result, restarts with intact, truncated or missing cache files, a second database with the same statements) over 12 result shapes and 14 value types; distinct by backend x operation x shape x hit/miss")
ASSUMPTIONS = ["only queries are cached (no data modification through cached execution)", "no cached values that JSON objects cannot express even with type markers (maps with non-text keys)",
               "settings that users change behind the interface's back (by raw cursors) are not visible to the cache", "Postgres and MySQL run over stand-in connections"]
LEVEL_NOTE = "exact comparison (values, types, row structure) after every execution of seeded random histories"
REQUIRE = {"exec": 6000, "hits": 1200, "stale-hits": 400, "misses": 1500, "uncached": 1500, "restarts": 250, "reloaded-hits": 200, "prep": 300, "mutated-results": 150, "errors": 100, "truncated": 30, "simplified": 2000, "pg": 1000, "mysql": 1000, "processes": 2, "same-name": 100}


def ident(a, b):
    """same value, type and structure"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(ident(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, datetime.datetime):
        return a == b and (a.tzinfo is None) == (b.tzinfo is None) and a.utcoffset() == b.utcoffset()
    return a == b and str(a) == str(b)


def simplify(rows):
    """the documented simplification"""
    if not rows:
        return []
    if len(rows[0]) == 1:
        rows = [r[0] for r in rows]
    return rows[0] if len(rows) == 1 else rows


def fill(con, rng, schema_only=False):
    con.execute("CREATE TABLE IF NOT EXISTS ver (v INTEGER)")
    con.execute("CREATE TABLE IF NOT EXISTS vals (id INTEGER, i BIGINT, h HUGEINT, d DOUBLE, n DECIMAL(18,4), s VARCHAR, b BOOLEAN, dt DATE, ts TIMESTAMP, tz TIMESTAMPTZ, t TIME, iv INTERVAL, bl BLOB, u UUID, l INTEGER[], st STRUCT(a INTEGER, b VARCHAR))")
    con.execute("CREATE TABLE IF NOT EXISTS nt (x INTEGER)")
    con.execute("DELETE FROM nt")
    con.execute("INSERT INTO nt VALUES (1), (NULL), (3), (2)")
    change(con, rng)


def change(con, rng):
    con.execute("DELETE FROM ver")
    con.execute(f"INSERT INTO ver VALUES ({rng.randrange(10 ** 9)})")
    con.execute("DELETE FROM vals")
    for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
        v = [i, rng.randint(-10 ** 12, 10 ** 12), rng.choice([0, 10 ** 30, -5]), rng.choice([1.5, 0.1, 1e300, float("nan"), float("inf"), -0.25]), decimal.Decimal(rng.randint(-10 ** 9, 10 ** 9)) / 10000,
             rng.choice(["a", "it's", "ä", "", "x\ny", '"q"', "a  b", "null", "{}", "A"]), rng.choice([True, False]), datetime.date(rng.randint(1, 9999), 1, 31), datetime.datetime(2020, 2, 29, 23, 59, 59, rng.randint(0, 999999)),
             datetime.datetime(2021, 5, 1, 3, 4, 5, tzinfo=datetime.timezone.utc), datetime.time(1, 2, 3, rng.randint(0, 999999)), datetime.timedelta(days=rng.randint(0, 9999), microseconds=rng.randint(0, 10 ** 9)),
             bytes(rng.randrange(256) for _ in range(rng.randint(0, 5))), uuid.UUID(int=rng.getrandbits(128)), [rng.randint(0, 9) for _ in range(rng.randint(0, 3))], {"a": rng.randint(0, 9), "b": rng.choice(["x", "y"])}]
        if rng.random() < 0.3:
            for k in range(1, len(v)):
                if rng.random() < 0.4:
                    v[k] = None
        con.execute("INSERT INTO vals VALUES (" + ", ".join(["?"] * len(v)) + ")", v)


COLS = ["id", "i", "h", "d", "n", "s", "b", "dt", "ts", "t", "iv", "bl", "u", "l", "st"]


def statements(rng):
    out = ["SELECT ver.v FROM ver", "SELECT ver.v, ver.v + 1 FROM ver", "SELECT count(*) FROM vals", "SELECT vals.id FROM vals WHERE vals.id = -1", "SELECT vals.s FROM vals ORDER BY vals.id",
           "SELECT ver.v FROM ver WHERE ver.v <> -1", "SELECT ver.v, 'a b' FROM ver", "SELECT ver.v, 'a  b' FROM ver", "SELECT ver.v, 'A b' FROM ver", "SELECT ver.v, 1 FROM ver", "SELECT ver.v, 2 FROM ver"]
    for _ in range(6):
        cs = rng.sample(COLS, rng.randint(1, 4))
        out.append("SELECT " + ", ".join(f"vals.{c}" for c in cs) + " FROM vals ORDER BY vals.id")
    return out


class Backend:
    """one database system with two databases"""

    def __init__(self, mon, rng, kind, root):
        self.mon, self.rng, self.kind, self.root = mon, rng, kind, root
        self.dbs = []
        same_name = kind == "duck" and rng.random() < 0.5
        if same_name:
            mon.count("same-name")
        for i in range(2):
            sub = root / f"d{i}"
            sub.mkdir()
            path = sub / ("data.db" if same_name else f"data{i}.db")
            con = quacklab.connect(str(path))
            fill(con, rng)
            con.close()
            self.dbs.append(Db(self, path, f"pg{i}"))

    def close(self):
        for d in self.dbs:
            d.stop(final=True)


class Db:
    def __init__(self, backend, path, dbname):
        self.b, self.path, self.dbname = backend, path, dbname
        self.model, self.maybe, self.file, self.file_maybe = {}, {}, {}, {}   # maybe: left open whether the interface still knows it
        self.exits = []
        self.iface = None
        self.always_cached = False

    # --- life cycle

    def start(self, cached):
        kind = self.b.kind
        orig = atexit.register

        def register(fn, *a, **k):
            self.exits.append((fn, a, k))
            return fn

        atexit.register = self._register = register
        try:
            if kind == "duck":
                self.iface = duckdb.DuckDBInterface(self.path, cache_enabled=cached)
                self.con = self.iface.cursor()
            else:
                self.engine = quacklab.connect(str(self.path))
                self.con = self.engine.cursor()
                self.server = fakes.Server(self.handle, dbname=self.dbname, version="16.4" if kind == "pg" else "8.0.3")
                with (self.server.psycopg() if kind == "pg" else self.server.mysqlconnector()):
                    if kind == "pg":
                        self.iface = postgres.PostgresInterface("dbname=x", cache_enabled=cached)
                    else:
                        self.iface = mysql.MysqlInterface(mysql.MysqlConnectionArguments("u", "x"), cache_enabled=cached)
        finally:
            atexit.register = orig
        self.always_cached = cached
        self.model, self.maybe = (dict(self.file), dict(self.file_maybe)) if cached else ({}, {**self.file_maybe, **self.file})

    def handle(self, sql, params):
        return self.engine.execute(sql).fetchall()

    def with_atexit(self, fn):
        orig = atexit.register
        atexit.register = self._register
        try:
            return fn()
        finally:
            atexit.register = orig

    def stop(self, final=False):
        if self.iface is None:
            return
        mon = self.b.mon
        before = cache_state()
        for fn, a, k in reversed(self.exits):
            try:
                fn(*a, **k)
            except Exception as e:
                mon.fail("exit-handler", f"the exit handler {getattr(fn, '__name__', fn)} fails: {e!r}", {"cache": sorted(self.model)[:5]})
        after = cache_state()
        if not final:
            if before != after:
                self.file, self.file_maybe = dict(self.model), {k: v for k, v in {**self.file_maybe, **self.maybe}.items() if k not in self.model}
            elif self.always_cached and self.model != self.file:
                mon.fail("not-stored", f"the cache was enabled for the whole session, but it was not stored: {len(self.model)} results are lost", None)
        self.exits.clear()
        ex = getattr(self.iface, "_timeout_executor", None)
        if hasattr(ex, "shutdown"):
            ex.shutdown(wait=False)
        if self.b.kind != "duck":
            self.engine.close()
        self.iface = None

    # --- values

    def fresh(self, sql):
        return self.con.execute(sql).fetchall()


def cache_state():
    return {p.name: (p.stat().st_mtime_ns, p.read_bytes()) for p in pathlib.Path(".").glob(".query_cache*")}


def history(kind):
    def scenario(mon, rng):
        root = pathlib.Path(mon.tmp) / f"p14_{rng.randrange(10 ** 12)}"
        (root / "cwd").mkdir(parents=True)
        cwd = os.getcwd()
        os.chdir(root / "cwd")
        backend = Backend(mon, rng, kind, root)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                run_history(mon, rng, backend)
            finally:
                try:
                    backend.close()
                finally:
                    os.chdir(cwd)
                    shutil.rmtree(root, ignore_errors=True)
    scenario.__name__ = f"history_{kind}"
    return scenario


def run_history(mon, rng, backend):
    kind = backend.kind
    stmts = statements(rng)
    flags = [rng.random() < 0.6 for _ in backend.dbs]
    for d, f in zip(backend.dbs, flags):
        d.start(f)
    log = []
    for step in range(rng.randint(30, 60)):
        d = backend.dbs[0] if rng.random() < 0.75 else backend.dbs[1]
        which = backend.dbs.index(d)
        op = rng.choices(["exec", "change", "reset", "toggle", "error", "restart", "prep"], [14, 3, 0.4, 0.7, 0.8, 1.2, 1.6])[0]
        payload = lambda: {"backend": kind, "log": log[-40:]}
        if op == "change":
            log.append((which, "change"))
            change(d.con, rng)
        elif op == "reset":
            log.append((which, "reset"))
            d.iface.reset_cache()
            d.maybe = {**d.file_maybe, **d.file}
            d.model = {}
            d.always_cached = False
            sql = rng.choice(stmts)
            if kind == "duck":
                execute(mon, rng, d, sql, log, which, payload, cache=rng.choice([True, None]), strict=True)
        elif op == "toggle":
            on = rng.random() < 0.6
            log.append((which, "cache_enabled", on))
            d.with_atexit(lambda: setattr(d.iface, "cache_enabled", on))
            mon.check(d.iface.cache_enabled == on, "flag", "the cache flag does not read back", payload())
            if not on:
                d.always_cached = False
        elif op == "error":
            name = f"missing_{rng.randrange(10 ** 6)}"
            sql = f"SELECT {name}.v FROM {name}"
            log.append((which, "error", sql))
            for _ in range(rng.randint(1, 2)):
                try:
                    d.with_atexit(lambda: d.iface.execute_query(sql, cache_enabled=rng.choice([True, None])))
                    mon.fail("error-swallowed", "a failing statement delivered a result", payload())
                except Exception as e:
                    if isinstance(e, (AttributeError, NameError, KeyError)) or type(e).__name__ == "Violation":
                        raise
                mon.count("errors")
            d.con.execute(f"CREATE TABLE {name} AS SELECT * FROM ver")
            execute(mon, rng, d, sql, log, which, payload, cache=rng.choice([True, False, None]), strict=True)
        elif op == "restart":
            cached = rng.random() < 0.75
            d.stop()
            mon.count("restarts")
            how = rng.choices(["keep", "truncate", "delete", "change"], [6, 1, 0.5, 4])[0]
            files = [p for p in pathlib.Path(".").glob(".query_cache*") if mine(d, p)]
            if how == "truncate" and files:
                raw = files[0].read_bytes()
                if len(raw) > 4:
                    files[0].write_bytes(raw[:rng.randrange(0, len(raw) - 1)])
                    d.file, d.file_maybe = {}, {}
                    mon.count("truncated")
            elif how == "delete" and files:
                files[0].unlink()
                d.file, d.file_maybe = {}, {}
            log.append((which, "restart", cached, how))
            d.start(cached)
            if how == "change":
                change(d.con, rng)
            if d.file and cached:
                for key in rng.sample(sorted(d.file), min(3, len(d.file))):
                    if "\n" not in key:
                        mon.count("reloaded-hits")
                        execute(mon, rng, d, key, log, which, payload, cache=rng.choice([True, None]))
        elif op == "prep":
            prep(mon, rng, d, log, which, payload)
        else:
            execute(mon, rng, d, rng.choice(stmts), log, which, payload)


def mine(d, p):
    """cache files of this database: the one that this database's interface names"""
    return p.name == d.cache_name if hasattr(d, "cache_name") else False


def judge(mon, d, key, sql_fresh, got, raw, cached, payload, strict=False):
    """key: what the cache is about; sql_fresh: text for the direct execution"""
    fresh = d.fresh(sql_fresh)
    view = (lambda rows: rows) if raw else simplify
    if not cached:
        mon.count("uncached")
        mon.check(ident(got, view(fresh)), "uncached-value", lambda: f"uncached execution of {key!r} delivers {got!r}, the database says {view(fresh)!r}", payload())
        return "uncached"
    if key in d.model:
        want = d.model[key]
        mon.count("hits")
        if not ident(want, fresh):
            mon.count("stale-hits")
        mon.check(ident(got, view(want)), "cached-value", lambda: f"{key!r} was cached as {view(want)!r}, but now delivers {got!r} (the database says {view(fresh)!r})", payload())
        return "hit"
    if key in d.maybe and not strict and not ident(d.maybe[key], fresh) and ident(got, view(d.maybe[key])):
        d.model[key] = d.maybe[key]
        return "reload"
    mon.count("misses")
    mon.check(ident(got, view(fresh)), "first-value", lambda: f"{key!r} was never cached, but delivers {got!r}; the database says {view(fresh)!r}", payload())
    d.model[key] = fresh
    return "miss"


def execute(mon, rng, d, sql, log, which, payload, cache="?", strict=False):
    kind = d.b.kind
    cache = rng.choice([True, True, None, None, False]) if cache == "?" else cache
    raw = rng.random() < 0.4
    form = rng.choice(["text", "user", "query"])
    arg, key = sql, sql
    if form == "user":
        arg = UserString(sql) if kind != "mysql" else sql
    elif form == "query":
        arg = parse_query(sql, bind_columns=False)
        key = str(arg) if kind == "mysql" else d.iface.hinting().format_query(arg)
    d.cache_name = d.iface._query_cache_name()
    cached = d.iface.cache_enabled if cache is None else cache
    kw = {} if kind == "mysql" else ({"timeout": 60.0} if kind == "duck" and rng.random() < 0.1 else {})
    log.append((which, "exec", form, sql, cache, raw, kw))
    got = d.with_atexit(lambda: d.iface.execute_query(arg, cache_enabled=cache, raw=raw, **kw))
    mon.count("exec")
    mon.count(kind)
    if not raw:
        mon.count("simplified")
    how = judge(mon, d, key, key, got, raw, cached, payload, strict)
    mon.ok((kind, form, str(cache), raw, how, type(got).__name__))
    if isinstance(got, list) and (raw or any(isinstance(r, tuple) for r in got)) and rng.random() < 0.2:
        mon.count("mutated-results")
        log.append((which, "mutate"))
        got.append(("extra",)) if rng.random() < 0.5 else got.clear()


def prep(mon, rng, d, log, which, payload):
    place = rng.choice(["first", "last"])
    base = parse_query("SELECT nt.x FROM nt ORDER BY nt.x", bind_columns=False)
    text = str(base) if d.b.kind == "mysql" else d.iface.hinting().format_query(base)
    stmt = f"SET default_null_order = 'nulls_{place}';"
    query = transform.add_clause(base, qal.Hint(stmt, ""))
    cache = rng.choice([True, True, None])
    raw = rng.random() < 0.5
    log.append((which, "prep", place, cache, raw))
    d.cache_name = d.iface._query_cache_name()
    cached = d.iface.cache_enabled if cache is None else cache
    got = d.with_atexit(lambda: d.iface.execute_query(query, cache_enabled=cache, raw=raw))
    mon.count("prep")
    key = f"{stmt}\n{text}"
    how = judge(mon, d, key, f"SELECT nt.x FROM nt ORDER BY nt.x NULLS {place.upper()}", got, raw, cached, payload)
    mon.ok((d.b.kind, "prep", place, raw, how))


SCRIPT = """
import sys, warnings, json
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
from postbound.duckdb import DuckDBInterface
db = DuckDBInterface(sys.argv[2], cache_enabled=True)
out = []
for arg in sys.argv[3:]:
    flag, sql = arg[0], arg[1:]
    if flag == "!":
        db.cursor().execute(sql)
    else:
        out.append(repr(db.execute_query(sql, cache_enabled={"c": None, "t": True, "u": False}[flag], raw=True)))
print(json.dumps(out))
"""


def processes(mon, rng):
    root = pathlib.Path(mon.tmp) / f"p14p_{rng.randrange(10 ** 12)}"
    root.mkdir()
    try:
        path = root / "x.db"
        con = quacklab.connect(str(path))
        fill(con, rng)
        con.close()

        (root / "elsewhere").mkdir()
        twin = root / "elsewhere" / "x.db"      # same file name and working directory, other data
        con = quacklab.connect(str(twin))
        fill(con, rng)
        con.execute("UPDATE ver SET v = v + 1000")
        con.close()

        def run(*args, db=path):
            r = subprocess.run([sys.executable, "-c", SCRIPT, str(REPO), str(db), *args], cwd=root, capture_output=True, text=True, timeout=120)
            mon.check(r.returncode == 0 and "Traceback" not in r.stderr, "process", lambda: f"session fails: {r.stderr[-800:]}", {"args": args})
            mon.count("processes")
            return json.loads(r.stdout)
        qs = ["SELECT ver.v FROM ver", "SELECT * EXCLUDE (tz) FROM vals ORDER BY id"]
        a = run("c" + qs[0], "t" + qs[1], "u" + qs[0])
        mon.check(a[0] == a[2], "process-first", lambda: f"{a}")
        other = run("c" + qs[0], "u" + qs[0], db=twin)
        mon.check(other[0] == other[1], "process-twin", lambda: f"the other database delivers {other[1]}, with caching {other[0]}", {"other": other})
        b = run("!UPDATE ver SET v = v + 1", "!DELETE FROM vals", "c" + qs[0], "c" + qs[1], "u" + qs[0], "u" + qs[1])
        mon.check(b[0] == a[0] and b[1] == a[1], "process-reload", lambda: f"cached {a}, after the restart {b}", {"a": a, "b": b})
        mon.check(b[2] != a[0] and b[3] == "[]", "process-uncached", lambda: f"uncached executions deliver {b[2:]}", {"a": a, "b": b})
        mon.ok(("process", rng.randrange(3)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def simplification(mon, rng):
    for _ in range(30):
        rows = [tuple(rng.choice([1, None, 0, "", "x", 2.5, [], (1, 2), {}]) for _ in range(w)) for w in [rng.randint(1, 3)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        arg = rng.choice([rows, None]) if not rows else list(rows)
        got = _db.simplify_result_set(arg)
        mon.check(ident(got, simplify(rows)), "simplification", lambda: f"{rows!r} becomes {got!r}, expected {simplify(rows)!r}", {"rows": repr(rows)})
        mon.check(arg is None or arg == rows, "simplification-modifies", "the argument was modified", None)
        mon.ok(("simplify", len(rows), len(rows[0]) if rows else 0))


SCENARIOS = [Scenario(history("duck"), quick=220, thorough=4000, cpu=120, name="duck"), Scenario(history("pg"), quick=120, thorough=2000, cpu=120, name="pg"),
             Scenario(history("mysql"), quick=120, thorough=2000, cpu=120, name="mysql"), Scenario(processes, quick=4, thorough=24, cpu=120), Scenario(simplification, quick=40, thorough=400)]
