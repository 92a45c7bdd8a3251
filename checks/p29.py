"""P29: the workload shifter removes exactly the requested rows."""
import math
import os
import re
import uuid

import postbound as pb
from postbound import postgres
from postbound import ColumnReference, TableReference

from lib.vlib import Scenario

PROPERTY = "P29"
TECHNIQUE = "state monitoring: the shifter's statements run on a live database engine (DuckDB behind a stand-in for the Postgres connection); all tables are recorded before and after each step and compared with the rows that should have been removed"
RULE = ("seeded tables (0-40 rows, NULLs, ties, text/integer keys, table and column names that collide with names the shifter uses itself), histories of random/ordered/marked removals, marker generation, export, import, invalid requests; distinct by operation x parameters x table")
ASSUMPTIONS = ["DuckDB executes the DELETE, ORDER BY and COPY statements like Postgres; BIGSERIAL, the sample size of TABLESAMPLE and VACUUM are translated", "tables have a primary key of a single column"]
LEVEL_NOTE = "exact comparison of the table contents after every step, plus statistical bounds for random samples"
REQUIRE = {"steps": 800, "ordered": 200, "random": 200, "marked": 120, "removed-rows": 2000, "nulls": 80, "ties": 25, "roundtrips": 100, "invalid": 100, "untouched": 800, "vacuum": 60, "collisions": 100, "schema-steps": 150}


class Cursor:
    def __init__(self, con):
        self.con = con

    def execute(self, sql):
        self.con.owner.log.append(sql)
        if sql.strip().upper().startswith("VACUUM"):
            assert not self.con.in_txn, "VACUUM inside of a transaction"
            return self
        if "BIGSERIAL" in sql:
            self.con.raw.execute("CREATE SEQUENCE IF NOT EXISTS marker_seq")
            sql = sql.replace("BIGSERIAL", "BIGINT DEFAULT nextval('marker_seq')")
        sql = re.sub(r"BERNOULLI \(([^)]*)\)", r"BERNOULLI (\1 PERCENT)", sql)
        self.con.raw.execute(sql)
        return self

    def close(self):
        pass


class Connection:
    """like psycopg: the context manager commits and closes"""
    def __init__(self, owner):
        self.owner, self.raw, self.in_txn, self.autocommit, self.closed = owner, owner.iface.cursor().cursor(), False, False, False
        self.raw.execute("SET default_null_order='nulls_last_on_asc_first_on_desc'")
        owner.open.append(self)

    def cursor(self):
        if not self.autocommit and not self.in_txn:
            self.raw.execute("BEGIN")
            self.in_txn = True
        return Cursor(self)

    def close(self):
        if self.in_txn:
            self.raw.execute("ROLLBACK")
        self.in_txn, self.closed = False, True
        self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, tp, *_):
        if self.in_txn:
            self.raw.execute("ROLLBACK" if tp else "COMMIT")
        self.in_txn = False
        self.close()


class Instance:
    """the parts of a Postgres interface that the shifter uses"""
    def __init__(self, iface):
        self.iface, self.log, self.open = iface, [], []

    def obtain_new_local_connection(self):
        return Connection(self)

    def schema(self):
        return self.iface.schema()

    def statistics(self):
        return self.iface.statistics()

    def cursor(self):
        con = Connection.__new__(Connection)
        con.owner, con.raw, con.in_txn, con.autocommit = self, self.iface.cursor(), False, True
        return Cursor(con)


TABLES = ["r", "t", "items", "delete_samples2", "samples", "s"]
KEYS = ["id", "pk", "sample_id", "t_id", "key", "v_id"]
VALS = ["v", "val", "sample", "w", "x"]


def rows(iface, table):
    return iface.cursor().execute(f"SELECT * FROM {table}").fetchall()


def order_key(direction, nulls, col):
    """sorts rows like SQL: by value, NULL placement, then ascending key"""
    nulls = nulls or ("last" if direction else "first")

    def cmp(row):
        return row
    def sort(data):
        null = sorted((r for r in data if r[col] is None), key=lambda r: r[0])
        some = sorted((r for r in data if r[col] is not None), key=lambda r: r[0])
        some.sort(key=lambda r: r[col], reverse=not direction)
        return null + some if nulls == "first" else some + null
    return sort


def history(mon, rng):
    path = f"{mon.tmp}/sh{uuid.uuid4().hex}.db"
    pb.db.DatabasePool.get_instance().clear()
    iface = pb.duckdb.connect(path, name=f"sh{uuid.uuid4().hex}", private=True)
    try:
        run(mon, rng, iface)
    finally:
        iface.close()
        pb.db.DatabasePool.get_instance().clear()
        os.unlink(path)


def run(mon, rng, iface):
    cur = iface.cursor()
    names = rng.sample(TABLES, 2)
    meta = {}
    for t in names:
        key, val = rng.choice(KEYS), rng.choice(VALS)
        text = rng.random() < 0.3
        cur.execute(f"CREATE TABLE {t} ({key} {'VARCHAR' if text else 'INTEGER'} PRIMARY KEY, {val} INTEGER, note VARCHAR)")
        ids = rng.sample(range(-20, 80), rng.choice([0, 1, 2, 5, 12, 25, 40]))
        for i in ids:
            cur.execute(f"INSERT INTO {t} VALUES ({repr('k' + str(i)) if text else i}, {rng.choice(['NULL', 1, 2, 3, rng.randint(-9, 99)])}, {rng.choice(['NULL', repr('n,' + str(i)), repr('')])})")
        meta[t] = (key, val, text)
        if key == "sample_id" or t.startswith("s"):
            mon.count("collisions")
    # tables of the same name in another schema: the shifter works on one of the two
    home = rng.choice(["", "", "wh", "main"])
    if home:
        cur.execute("CREATE SCHEMA wh")
        for t in names:
            key, val, text = meta[t]
            cur.execute(f"CREATE TABLE wh.{t} ({key} {'VARCHAR' if text else 'INTEGER'} PRIMARY KEY, {val} INTEGER, note VARCHAR)")
            for i in rng.sample(range(-20, 80), rng.choice([1, 3, 10, 30])):
                cur.execute(f"INSERT INTO wh.{t} VALUES ({repr('k' + str(i)) if text else i}, {rng.choice(['NULL', 1, 2, rng.randint(-9, 99)])}, 'w')")
    inst = Instance(iface)
    shifter = postgres.WorkloadShifter(inst)
    markers = {}          # target table -> (marker table, target column, kwargs)
    for step in range(rng.randint(3, 8)):
        t = rng.choice(names)
        key, val, text = meta[t]
        other = names[1 - names.index(t)]
        kind = rng.choice(["random", "ordered", "ordered", "marker", "marker", "invalid"])
        own, twin = (f"{home}.{t}", [f"{'main' if home == 'wh' else 'wh'}.{x}" for x in names]) if home and kind in ("random", "ordered") else (t, [f"wh.{x}" for x in names] if home else [])
        before, untouched = rows(iface, own), [rows(iface, x) for x in [other] + twin]
        inst.log, inst.open = [], []
        vacuum = rng.random() < 0.2
        amount, n = request(rng, len(before))
        what = f"{t}({key}, {val}) with {len(before)} rows, {amount}"
        mon.count("steps")
        if kind == "random":
            shifter.remove_random(rng.choice([t, TableReference(t), TableReference(t, "al")]) if own == t else TableReference(t, rng.choice(["", "al"]), schema=home), **amount, vacuum=vacuum)
            after = rows(iface, own)
            mon.count("schema-steps", int(own != t))
            mon.eq(len(after), len(before) - min(n, len(before)), "random-count", what)
            mon.check(set(after) <= set(before), "random-rows", what)
            mon.count("random")
        elif kind == "ordered":
            asc, nulls = rng.random() < 0.5, rng.choice([None, None, "first", "last"])
            name, col = rng.choice([(val, 1), (val, 1), (key, 0)])
            kw = {} if asc and rng.random() < 0.5 else {"ascending": asc}
            shifter.remove_ordered(rng.choice([f"{t}.{name}", ColumnReference(name, TableReference(t)), ColumnReference(name, TableReference(t, "al"))]) if own == t else
                                   ColumnReference(name, TableReference(t, rng.choice(["", "al"]), schema=home)), **amount, null_placement=nulls, vacuum=vacuum, **kw)
            after = rows(iface, own)
            mon.count("schema-steps", int(own != t))
            ordered = order_key(asc, nulls, col)(before)
            mon.eq(sorted(after, key=repr), sorted(ordered[n:], key=repr), "ordered-rows", f"{what}, by {name}, ascending={asc}, nulls={nulls}, before {ordered}")
            mon.count("ordered")
            if any(r[col] is None for r in before):
                mon.count("nulls")
            if 0 < n < len(ordered) and ordered[n - 1][col] == ordered[n][col]:
                mon.count("ties")
        elif kind == "marker":
            marker_step(mon, rng, iface, shifter, inst, markers, t, meta, before, vacuum, what)
            after = rows(iface, t)
        else:
            bad = rng.choice([{}, {"n_rows": 3, "row_pct": 0.5}, {"n_rows": 0}, {"n_rows": -1}, {"row_pct": 0.0}, {"row_pct": 1.0}, {"row_pct": 1.5}, {"row_pct": -0.1}])
            mon.raises(lambda: shifter.remove_random(t, **bad), "invalid-amount", f"{what}: {bad}", ValueError)
            mon.raises(lambda: shifter.remove_ordered(f"{t}.{val}", **bad), "invalid-amount", f"{what}: {bad}", ValueError)
            mon.raises(lambda: shifter.remove_ordered(ColumnReference(val), n_rows=1), "unbound-column", what, Exception)
            mon.raises(lambda: shifter.export_marker_table(), "no-marker-table", what, ValueError)
            mon.raises(lambda: shifter.import_marker_table(), "no-marker-table", what, ValueError)
            after = rows(iface, t)
            mon.eq(after, before, "invalid-changes", f"{what}: {bad}")
            vacuum = False
            mon.count("invalid")
        mon.count("removed-rows", len(before) - len(after))
        mon.eq([rows(iface, x) for x in [other] + twin], untouched, "other-table", f"{what} in schema '{home}'")
        mon.count("untouched")
        mon.check(all(c.closed for c in inst.open), "open-connections", what)
        if kind in ("random", "ordered"):
            mon.eq(sum("VACUUM" in s for s in inst.log), int(vacuum), "vacuum", what)
            mon.count("vacuum", int(vacuum))
        mon.ok(f"{kind}:{sorted(amount)}:{n}:{len(before)}:{key}:{t}")
    cur.execute("CREATE TABLE nokey (a INTEGER)")
    cur.execute("INSERT INTO nokey VALUES (1), (2)")
    mon.raises(lambda: shifter.remove_random("nokey", n_rows=1), "no-key", "", ValueError)
    mon.raises(lambda: shifter.remove_ordered("nokey.a", n_rows=1), "no-key", "", ValueError)
    mon.eq(len(rows(iface, "nokey")), 2, "no-key-rows", "")


def request(rng, total):
    if rng.random() < 0.6:
        n = rng.choice([1, 2, 3, 5, 10, max(total, 1), total + 3])
        return {"n_rows": n}, n
    pct = rng.choice([0.01, 0.1, 0.25, 0.5, 0.75, 0.99])
    return {"row_pct": pct}, round(pct * total)


def marker_step(mon, rng, iface, shifter, inst, markers, t, meta, before, vacuum, what):
    key, val, text = meta[t]
    pct = rng.choice([0.0, 0.004, 0.1, 0.3, 0.5, 0.9, 1.0])
    col = rng.choice([key, key, val])
    kw = {"target_column": col} if col != "id" or rng.random() < 0.5 else {}
    mtable, mcol = f"{t}_delete_marker", f"{t}_{col}"
    custom = rng.random() < 0.3
    if custom:
        mtable, mcol = f"{t}_{col}_marks", f"m_{col}"
        kw |= {"marker_table": mtable, "marker_column": mcol}
    existing = markers.get(mtable)
    if existing is not None and existing != mcol:
        return     # the table exists with another column
    markers[mtable] = mcol
    shifter.generate_marker_table(t, pct, **kw)
    marks = iface.cursor().execute(f"SELECT * FROM {mtable}").fetchall()
    names = [d[0] for d in iface.cursor().execute(f"SELECT * FROM {mtable}").description]
    mon.eq(names, ["marker_idx", mcol], "marker-columns", what)
    idx = 0 if col == key else 1
    source = [r[idx] for r in before]
    got = [m[1] for m in marks]
    mon.check(all(got.count(g) <= source.count(g) for g in got), "marker-values", lambda: f"{what}: markers {got}, rows {source}")
    mon.eq(len({m[0] for m in marks}), len(marks), "marker-index", what)
    n = len(source)
    sd = math.sqrt(n * pct * (1 - pct))
    mon.check(abs(len(marks) - n * pct) <= 6 * sd + (0.5 if pct in (0.0, 1.0) else 3), "marker-share", lambda: f"{what}: {len(marks)} of {n} rows marked, share {pct}")
    mon.eq(rows(iface, t), before, "marker-changes", what)
    if rng.random() < 0.6:
        os.makedirs(f"{mon.tmp}/exports", exist_ok=True)
        path = f"{mon.tmp}/exports/{rng.choice([mtable, 'markers'])}.csv"
        out = {"out_file": path} if rng.random() < 0.6 else {}
        sel = {"marker_table": mtable} if custom else {"target_table": t}
        shifter.export_marker_table(**sel, **out)
        if not out:
            path = f"{os.getcwd()}/{mtable}.csv"
        mon.check(os.path.exists(path), "export-file", what)
        if rng.random() < 0.5:
            iface.cursor().execute(f"DROP TABLE {mtable}")
        imp = {"in_file": path} if out or rng.random() < 0.5 else {}
        if rng.random() < 0.5:
            imp["target_column_type"] = ("VARCHAR" if text else "INTEGER") if col == key else "INTEGER"
        shifter.import_marker_table(target_table=t, **kw, **imp)
        os.unlink(path)
        again = iface.cursor().execute(f"SELECT * FROM {mtable}").fetchall()
        mon.eq(sorted(again, key=repr), sorted(marks, key=repr), "marker-roundtrip", what)
        mon.count("roundtrips")
    inst.log = []
    shifter.remove_marked(t, **kw, vacuum=vacuum)
    after = rows(iface, t)
    want = [r for r in before if r[idx] is None or r[idx] not in set(got)]
    mon.eq(sorted(after, key=repr), sorted(want, key=repr), "marked-rows", f"{what}: markers {got}")
    mon.eq(sum("VACUUM" in s for s in inst.log), int(vacuum), "vacuum", what)
    mon.count("marked")


def share(mon, rng):
    """large samples, also for small shares; random removals do not depend on the order of rows"""
    path = f"{mon.tmp}/sh{uuid.uuid4().hex}.db"
    pb.db.DatabasePool.get_instance().clear()
    iface = pb.duckdb.connect(path, name=f"sh{uuid.uuid4().hex}", private=True)
    try:
        cur = iface.cursor()
        n = 20000
        cur.execute(f"CREATE TABLE big AS SELECT i AS id, i % 7 AS v FROM range({n}) q(i)")
        cur.execute("ALTER TABLE big ADD PRIMARY KEY (id)")
        shifter = postgres.WorkloadShifter(Instance(iface))
        pct = rng.choice([0.003, 0.004, 0.015, 0.125, 0.333])
        shifter.generate_marker_table("big", pct)
        got = cur.execute("SELECT COUNT(*) FROM big_delete_marker").fetchone()[0]
        mon.check(abs(got - n * pct) <= 6 * math.sqrt(n * pct * (1 - pct)), "sample-share", lambda: f"{got} of {n} rows marked, share {pct}")
        shifter.remove_random("big", n_rows=n // 2)
        left = cur.execute(f"SELECT COUNT(*) FILTER (WHERE id < {n // 2}), COUNT(*) FILTER (WHERE id % 2 = 0), COUNT(*) FROM big").fetchone()
        mon.eq(left[2], n - n // 2, "random-count", "")
        for part in left[:2]:
            mon.check(abs(part - n / 4) <= 6 * math.sqrt(n / 16), "random-bias", lambda: f"after removing half of {n} rows at random: {left}")
        mon.ok(f"{pct}")
        mon.count("shares")
    finally:
        iface.close()
        pb.db.DatabasePool.get_instance().clear()
        os.unlink(path)


SCENARIOS = [Scenario(history, quick=320, thorough=4000, cpu=60, name="history"), Scenario(share, quick=16, thorough=200, cpu=60, name="share")]
