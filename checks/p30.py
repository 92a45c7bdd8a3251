"""P30: catalogs, native statistics, settings and connection data of PostgreSQL and MySQL servers."""
import copy
import datetime
import json
import os
import pickle
import re
import types
import uuid
import warnings
from collections import Counter

import psycopg
import quacklab
from psycopg.adapt import PyFormat, Transformer

import postbound as pb
from postbound import BoundColumnReference, ColumnReference, TableReference, mysql, postgres
from postbound._core import IntermediateOperator, JoinOperator, ScanOperator, UnboundColumnError, VirtualTableError

from lib import fakes
from lib.vlib import Scenario

PROPERTY = "P30"
TECHNIQUE = ("model-based monitoring: random server catalogs (several schemas, equal table names, simple/compound keys and indexes, foreign keys, pg_stats entries computed from real rows, buffer contents, settings) are stored in an emulated catalog "
             "behind stand-ins for the client libraries; the statements of the real interfaces run against it and every answer and every recorded side effect is compared with the model")
RULE = ("random catalogs with 2-4 tables in each of two schemas (same names in both, quoted names), every schema question for every column, native row counts, distinct values, most common values and histograms for integer and text columns with NULLs, zeros and skew, "
        "ANALYZE/SET STATISTICS requests, buffer inspection, prewarming and cooling, configuration edits, connection files in all formats, infinite dates; distinct by question x kind of the column")
ASSUMPTIONS = ["the catalog statements run on DuckDB tables that are laid out like pg_catalog, information_schema and pg_stats; casts to regclass/regnamespace and the server functions are translated", "constraint names are unique within a schema, foreign keys have a single column",
               "min/max values and missing statistics that are computed by queries are judged by P15", "listing the tables and columns of a MySQL server is not judged (the default implementation relies on functions that MySQL does not have)"]
LEVEL_NOTE = "exact comparison of every answer with the catalog model on seeded random catalogs"
REQUIRE = {"catalogs": 60, "questions": 6000, "fk": 150, "pk-and-index": 60, "compound": 100, "shared-names": 60, "native-stats": 700, "histograms": 150, "mcvs": 150, "updates": 150, "buffers": 150, "prewarm": 150, "config-edits": 900, "config-applied": 150, "connects": 200,
           "special-values": 60, "adapters": 500, "mysql-questions": 2500, "mysql-connects": 60, "extensions": 100}

NAMES = ["title", "users", "cast_info", "Mixed", "votes", "kind"]
COLS = ["id", "a", "b", "c", "movie_id", "Col", "note"]
DTYPES = {"integer": "int", "text": "text", "character varying": "varchar(20)"}
DB = "db"


class Table:
    def __init__(self, rng, schema, name, kinds=None):
        self.schema, self.name = schema, name
        self.cols = ["id"] + rng.sample(COLS[1:], rng.randint(1, 4))
        if rng.random() < 0.3:
            rng.shuffle(self.cols)
        self.types = {c: rng.choice(["integer", "integer", "text", "character varying"]) for c in self.cols}
        self.types["id"] = "integer"
        self.nullable = {c: rng.random() < 0.5 for c in self.cols}
        self.view = False
        self.pk = rng.choice([["id"], ["id"], ["id"], self.cols[:2], [], [self.cols[-1]]])
        self.indexes = {}           # name -> columns (in index order), without the primary key
        for k in range(rng.randint(0, 3)):
            cols = rng.sample(self.cols, rng.choice([1, 1, min(2, len(self.cols))]))
            if rng.random() < 0.2 and self.pk:
                cols = [self.pk[0]]
            self.indexes[f"{name}_{'_'.join(cols)}_{k}"] = cols
        self.fks = {}               # constraint -> (column, target table, target column)
        for c in self.pk:
            self.nullable[c] = False
        n = rng.choice([1, 3, 10, 40, 100])
        self.n = n
        self.rows = []
        pools = {}
        for c in self.cols:
            ints = rng.choice([[0, 1, 2], list(range(-3, 4)), list(range(0, 60)), [0, 0, 0, 0, 5, 7, 9, 11], [3]])
            pools[c] = ints if self.types[c] == "integer" else [f"w{chr(97 + v % 26)}{abs(v)}" for v in ints]
        for i in range(n):
            self.rows.append({c: (None if self.nullable[c] and rng.random() < 0.2 else rng.choice(pools[c])) for c in self.cols})

    def ref(self, rng=None, alias=False):
        schema = self.schema if self.schema != "public" or (rng is not None and rng.random() < 0.3) else ""
        return TableReference(self.name, "al" if alias else "", schema=schema)

    def all_indexes(self):
        out = dict(self.indexes)
        if self.pk:
            out[f"{self.name}_pkey"] = self.pk
        return out

    def values(self, c):
        return [r[c] for r in self.rows]


def pg_stats(rng, values):
    """the entry that ANALYZE could create for a column"""
    n = len(values)
    nn = [v for v in values if v is not None]
    counts = Counter(nn)
    d = len(counts)
    n_distinct = d if rng.random() < 0.5 else -d / n
    target = rng.choice([1, 2, 4, 10])
    common = [(v, k) for v, k in sorted(counts.items(), key=lambda p: (-p[1], str(p[0]))) if k > 1][:target]
    rest = sorted(v for v in nn if v not in dict(common))
    bounds = []
    if len(set(rest)) >= 2:
        buckets = min(target, len(rest) - 1)
        bounds = [rest[round(i * (len(rest) - 1) / buckets)] for i in range(buckets + 1)]
    return n_distinct, common, bounds


class Catalog:
    """the emulated catalog and the model"""

    def __init__(self, rng, system):
        self.system = system
        self.default, self.foreign = ("public", "other") if system == "pg" else (DB, "other")
        self.tables = []
        names = rng.sample(NAMES, rng.randint(2, 4))
        for n in names:
            self.tables.append(Table(rng, self.default, n))
        for n in rng.sample(NAMES, rng.randint(1, 3)):
            self.tables.append(Table(rng, self.foreign, n))
        self.shared = len({t.name for t in self.tables}) < len(self.tables)
        if system == "pg":
            for t in self.tables:
                if rng.random() < 0.15:
                    t.view, t.pk, t.indexes = True, [], {}
        k = 0
        for t in self.tables:
            for _ in range(rng.choice([0, 1, 2])):
                targets = [o for o in self.tables if o.schema == t.schema and not o.view]
                if t.view or not targets:
                    continue
                o = rng.choice(targets)
                k += 1
                t.fks[f"fk_{k}"] = (rng.choice(t.cols), o, rng.choice(o.cols))
        self.con = quacklab.connect()
        run = self.con.execute
        run("CREATE SCHEMA pgcat; CREATE SCHEMA infoschema; CREATE SCHEMA public; CREATE SCHEMA other; CREATE SCHEMA db")
        run("""CREATE TABLE pgcat.pg_class (oid BIGINT, relname VARCHAR, relnamespace BIGINT, relkind VARCHAR, reltuples FLOAT, relpages INT, relfilenode BIGINT);
            CREATE TABLE pgcat.pg_namespace (oid BIGINT, nspname VARCHAR);
            CREATE TABLE pgcat.pg_index (indexrelid BIGINT, indrelid BIGINT, indisprimary BOOLEAN, indisunique BOOLEAN, indnatts SMALLINT, indnkeyatts SMALLINT, indkey SMALLINT[]);
            CREATE TABLE pgcat.pg_attribute (attrelid BIGINT, attname VARCHAR, attnum SMALLINT);
            CREATE TABLE pgcat.pg_stats (schemaname VARCHAR, tablename VARCHAR, attname VARCHAR, null_frac FLOAT, n_distinct DOUBLE, most_common_vals VARCHAR, most_common_freqs DOUBLE[], histogram_bounds VARCHAR);
            CREATE TABLE pgcat.pg_buffercache (bufferid INT, relfilenode BIGINT, reldatabase BIGINT);
            CREATE TABLE pgcat.pg_database (oid BIGINT, datname VARCHAR);
            CREATE TABLE pgcat.pg_extension (extname VARCHAR);
            CREATE TABLE infoschema.columns (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, ordinal_position INT, data_type VARCHAR, column_type VARCHAR, is_nullable VARCHAR, column_key VARCHAR);
            CREATE TABLE infoschema.tables (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, table_type VARCHAR, table_rows BIGINT);
            CREATE TABLE infoschema.table_constraints (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, constraint_type VARCHAR);
            CREATE TABLE infoschema.key_column_usage (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, referenced_table_schema VARCHAR, referenced_table_name VARCHAR, referenced_column_name VARCHAR);
            CREATE TABLE infoschema.constraint_column_usage (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR);
            CREATE TABLE infoschema.statistics (table_schema VARCHAR, table_name VARCHAR, non_unique INT, index_name VARCHAR, seq_in_index INT, column_name VARCHAR, cardinality BIGINT)""")
        run("CREATE MACRO pgcat.pg_relation_filenode(o) AS (SELECT max(c.relfilenode) FROM pgcat.pg_class c WHERE c.oid = o)")
        self.namespaces = {"public": 2200, "other": 2300, "pg_catalog": 11}
        rows = {k: [] for k in ("pg_class", "pg_index", "pg_attribute", "pg_stats", "pg_buffercache", "infoschema.columns", "infoschema.tables", "infoschema.table_constraints", "infoschema.key_column_usage", "infoschema.constraint_column_usage", "infoschema.statistics")}
        rows["pg_namespace"] = [(v, k) for k, v in self.namespaces.items()]
        rows["pg_database"] = [(5, DB), (6, "otherdb")]
        rows["infoschema.tables"].append(("db", "pg_catalog", "pg_class", "BASE TABLE", 5))
        cat = DB if system == "pg" else "def"
        oid, self.relations, self.stats, self.pages = 16384, {}, {}, {}
        self.buffered = Counter()
        for t in self.tables:
            oid += 1
            t_oid, ns = oid, self.namespaces.get(t.schema, 0)
            self.relations[(t.schema, t.name)] = t_oid
            self.pages[(t.schema, t.name)] = rng.randint(0, 500)
            rows["pg_class"].append((t_oid, t.name, ns, "v" if t.view else "r", float(t.n), self.pages[(t.schema, t.name)], t_oid + 50000))
            rows["infoschema.tables"].append((cat, t.schema, t.name, "VIEW" if t.view else "BASE TABLE", t.n))
            for i, c in enumerate(t.cols, 1):
                key = "PRI" if c in t.pk else "MUL" if any(cols[0] == c for cols in t.indexes.values()) else ""
                rows["pg_attribute"].append((t_oid, c, i))
                rows["infoschema.columns"].append((cat, t.schema, t.name, c, i, t.types[c], DTYPES[t.types[c]], "YES" if t.nullable[c] else "NO", key))
                nd, common, bounds = pg_stats(rng, t.values(c))
                self.stats[(t.schema, t.name, c)] = (nd, common, bounds)
                if not t.view:
                    rows["pg_stats"].append((t.schema, t.name, c, sum(v is None for v in t.values(c)) / t.n, nd, f"[{', '.join(str(v) for v, _ in common)}]" if common else None, [k / t.n for _, k in common] or None, f"[{', '.join(map(str, bounds))}]" if bounds else None))
            for name, cols in t.all_indexes().items():
                oid += 1
                primary = name.endswith("_pkey")
                self.relations[(t.schema, name)] = oid
                rows["pg_class"].append((oid, name, ns, "i", 0.0, 1, oid + 50000))
                rows["pg_index"].append((oid, t_oid, primary, primary, len(cols), len(cols), [t.cols.index(c) + 1 for c in cols]))
                for i, c in enumerate(cols, 1):
                    rows["pg_attribute"].append((oid, c, i))
                    rows["infoschema.statistics"].append((t.schema, t.name, 0 if primary else 1, "PRIMARY" if primary else name, i, c, len({tuple(r[x] for x in cols[:i]) for r in t.rows})))
            if t.pk:
                rows["infoschema.table_constraints"].append((cat, t.schema, f"{t.name}_pkey", cat, t.schema, t.name, "PRIMARY KEY"))
                for c in t.pk:
                    rows["infoschema.key_column_usage"].append((cat, t.schema, f"{t.name}_pkey", cat, t.schema, t.name, c, None, None, None))
                    rows["infoschema.constraint_column_usage"].append((cat, t.schema, f"{t.name}_pkey", cat, t.schema, t.name, c))
            for name, (c, o, oc) in t.fks.items():
                rows["infoschema.table_constraints"].append((cat, t.schema, name, cat, t.schema, t.name, "FOREIGN KEY"))
                rows["infoschema.key_column_usage"].append((cat, t.schema, name, cat, t.schema, t.name, c, o.schema, o.name, oc))
                rows["infoschema.constraint_column_usage"].append((cat, t.schema, name, cat, o.schema, o.name, oc))
            run(f'CREATE TABLE {t.schema}."{t.name}" ({", ".join(f"{chr(34)}{c}{chr(34)} " + ("INTEGER" if t.types[c] == "integer" else "VARCHAR") for c in t.cols)})')
            self.con.executemany(f'INSERT INTO {t.schema}."{t.name}" VALUES ({", ".join("?" * len(t.cols))})', [[r[c] for c in t.cols] for r in t.rows])
        for (schema, rel), o in self.relations.items():
            for _ in range(rng.choice([0, 0, 1, 3])):
                dbs = rng.choice([0, 5, 5, 6])
                rows["pg_buffercache"].append((len(rows["pg_buffercache"]), o + 50000, dbs))
                if dbs != 6:
                    self.buffered[(schema, rel)] += 1
        rows["pg_buffercache"].append((9999, None, None))
        for name, data in rows.items():
            rng.shuffle(data)
            name = name if "." in name else "pgcat." + name
            if data:
                self.con.executemany(f"INSERT INTO {name} VALUES ({', '.join('?' * len(data[0]))})", data)
        run("SET search_path='pgcat,public'" if system == "pg" else "SET search_path='db'")
        self.effects, self.extensions, self.settings = [], set(), {}

    def regclass(self, text):
        parts = re.findall(r'"((?:[^"]|"")*)"|([^".]+)', text)
        names = [a or b.lower() for a, b in parts]
        key = (names[0], names[1]) if len(names) == 2 else ("public", names[0])
        if key not in self.relations:
            raise psycopg.errors.UndefinedTable(f'relation "{text}" does not exist')
        return key

    def handle(self, sql, params):
        text = " ".join(sql.split())
        up = text.upper()
        if up.startswith(("ANALYZE", "ALTER TABLE", "SET ")) or not text:
            self.effects.append(sql)
            return None
        if "PG_PREWARM(" in up or "PG_COOLDOWN(" in up:
            self.effects.append(sql)
            return [(1,)]
        if up.startswith("SHOW "):
            return [(self.settings[text[5:].rstrip("; ").lower()],)]
        params = list(params or ())
        out, i = [], 0
        pieces = re.split(r"(%s(?:::\w+)?)", sql)
        args = []
        for p in pieces:
            if not p.startswith("%s"):
                out.append(p)
                continue
            v = params[i]
            i += 1
            if p == "%s::regclass":
                v = self.relations[self.regclass(v)]
            elif p == "%s::regnamespace":
                if v not in self.namespaces:
                    raise psycopg.errors.InvalidSchemaName(f'schema "{v}" does not exist')
                v = self.namespaces[v]
            args.append(v)
            out.append("?")
        assert i == len(params), "number of parameters"
        sql = "".join(out)
        for a, b in [(r"\binformation_schema\.", "infoschema."), (r"\bpg_catalog\.", "pgcat."), (r"\bcurrent_database\(\)", f"'{DB}'"), (r"\bcurrent_schema\(\)", f"'{self.default}'"), (r"\bdatabase\(\)", f"'{DB}'")]:
            sql = re.sub(a, b, sql, flags=re.I)
        return self.con.execute(sql, args).fetchall()


def open_interface(mon, rng, cat):
    server = fakes.Server(cat.handle, dbname=DB, version="16.4" if cat.system == "pg" else "8.0.3", settings=[])
    server_settings = {}
    with (server.psycopg() if cat.system == "pg" else server.mysqlconnector()):
        iface = postgres.PostgresInterface("dbname=db", cache_enabled=False) if cat.system == "pg" else mysql.MysqlInterface(mysql.MysqlConnectionArguments("u", DB), cache_enabled=False)
    return server, iface


def close(iface):
    ex = getattr(iface, "_timeout_executor", None)
    if hasattr(ex, "shutdown"):
        ex.shutdown(wait=False)


def schema_questions(mon, rng, cat, iface, counter):
    schema = iface.schema()
    pg = cat.system == "pg"
    mon.count("catalogs")
    mon.count("shared-names", cat.shared)
    payload = lambda: {"tables": [(t.schema, t.name, t.cols, t.pk, t.indexes, {k: (c, o.name, oc) for k, (c, o, oc) in t.fks.items()}) for t in cat.tables]}
    if pg:
        for s in ("public", "other"):
            got = schema.tables(schema=s) if s != "public" or rng.random() < 0.5 else schema.tables()
            mon.eq({t.full_name for t in got}, {t.name for t in cat.tables if t.schema == s}, "tables", f"tables in schema {s}")
            mon.count("questions")
    todo = [(t, c) for t in cat.tables for c in t.cols]
    rng.shuffle(todo)
    for t, c in todo:
        default_schema = t.schema == cat.default
        ref = TableReference(t.name, rng.choice(["", "al"]), schema="" if default_schema and rng.random() < 0.7 else t.schema)
        col = rng.choice([ColumnReference, BoundColumnReference])(c, ref)
        where = f"{t.schema}.{t.name}.{c}"
        single = [cols for cols in t.indexes.values() if cols == [c]]
        compound = any(c in cols and len(cols) > 1 for cols in t.all_indexes().values())
        kind = (t.pk == [c], c in t.pk, bool(single), compound, default_schema)
        mon.count(counter, 8)
        mon.count("compound", compound)
        mon.count("pk-and-index", t.pk == [c] and bool(single))
        mon.eq(schema.is_primary_key(col), t.pk == [c], "primary-key", lambda: f"is_primary_key({where}), the primary key is {t.pk}, indexes {t.indexes}")
        mon.eq(schema.has_secondary_index(col), bool(single), "secondary-index", lambda: f"has_secondary_index({where}), indexes {t.indexes}, primary key {t.pk}")
        mon.eq(schema.has_index(col), t.pk == [c] or bool(single), "any-index", lambda: f"has_index({where}), indexes {t.all_indexes()}")
        names = {(n if pg or not n.endswith("_pkey") else "PRIMARY") for n, cols in t.all_indexes().items() if c in cols}
        mon.eq(set(schema.indexes_on(col)), names, "index-names", lambda: f"indexes_on({where}), indexes {t.all_indexes()}")
        mon.eq(schema.datatype(col), t.types[c] if pg else DTYPES[t.types[c]], "datatype", lambda: f"datatype({where})")
        mon.check(schema.is_nullable(col) is t.nullable[c] or schema.is_nullable(col) == t.nullable[c], "nullable", lambda: f"is_nullable({where}) = {schema.is_nullable(col)}")
        want = {(o.name, oc) for cc, o, oc in t.fks.values() if cc == c}
        got = schema.foreign_keys_on(col)
        mon.count("fk", len(want))
        mon.eq({(x.table.full_name, x.name) for x in got}, want, "foreign-keys", lambda: f"foreign_keys_on({where})")
        mon.check(all(x.table.schema == (t.schema if ref.schema else "") for x in got), "foreign-key-schema", lambda: f"foreign keys of {where} (asked with schema {ref.schema!r}) point to {sorted(map(repr, got))}", payload())
        cands = [rng.choice(cat.tables) for _ in range(rng.choice([1, 2, 3, 7]))]
        refs = [TableReference(o.name, schema="" if o.schema == cat.default else o.schema) for o in cands]
        probe = rng.choice([c, col, ColumnReference(c), "nope"])
        pname = probe if isinstance(probe, str) else probe.name
        hits = {r for r, o in zip(refs, cands) if pname in o.cols}
        expect = rng.random() < 0.5
        arg = rng.choice([list, set, iter])(refs)
        if hits or not expect:
            found = schema.lookup_column(probe, arg, expect_match=expect)
            ok = found in hits if hits else found is None
            ordered = [r for r, o in zip(refs, cands) if pname in o.cols]
            mon.check(ok and (not hits or len(refs) > 5 or not isinstance(arg, list) or found == ordered[0]), "lookup", lambda: f"lookup_column({pname}, {refs}) = {found}, expected {ordered}", payload())
        else:
            mon.raises(lambda: schema.lookup_column(probe, arg, expect_match=True), "lookup-missing", f"column {pname} found in {refs}", exc=ValueError)
        if pg and default_schema and not t.view:
            mon.eq(schema.columns(ref) if False else [x.name for x in schema.columns(ref)], t.cols, "columns", lambda: f"columns({t.name})")
            mon.eq(schema.is_view(ref), False, "view", where)
        mon.ok((cat.system, kind, len(names), len(want)))
    if pg:
        for t in cat.tables:
            for name, cols in t.all_indexes().items():
                same = [(o, n) for o in cat.tables for n in o.all_indexes() if n == name and o.schema == t.schema]
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("always")
                    got = schema.indexed_column(name, schema=t.schema)
                mon.count("questions")
                mon.check(got is not None and got.name == cols[0] and got.table.full_name == t.name, "indexed-column", lambda: f"indexed_column({name}) = {got}, index on {t.name}{cols}", payload())
                mon.check(bool(caught) == (len(cols) > 1), "indexed-column-warning", lambda: f"{name} on {cols}: {caught}", payload())
        mon.check(schema.indexed_column("no_such_index") is None, "indexed-column-missing", "column for a missing index")
    t = rng.choice(cat.tables)
    for fn in (schema.is_primary_key, schema.has_secondary_index, schema.indexes_on, schema.foreign_keys_on, schema.datatype, schema.is_nullable):
        mon.raises(lambda: fn(ColumnReference(t.cols[0])), "unbound", f"{fn.__name__} of an unbound column", exc=UnboundColumnError)
        mon.raises(lambda: fn(ColumnReference(t.cols[0], TableReference.create_virtual("cte"))), "virtual", f"{fn.__name__} of a virtual table", exc=VirtualTableError)


def catalog_pg(mon, rng):
    cat = Catalog(rng, "pg")
    server, iface = open_interface(mon, rng, cat)
    try:
        schema_questions(mon, rng, cat, iface, "questions")
    finally:
        close(iface)
        cat.con.close()


def catalog_mysql(mon, rng):
    cat = Catalog(rng, "mysql")
    server, iface = open_interface(mon, rng, cat)
    try:
        schema_questions(mon, rng, cat, iface, "mysql-questions")
        stats = iface.statistics()
        stats.emulated = False
        for t in cat.tables:
            ref = TableReference(t.name, schema="" if t.schema == cat.default else t.schema)
            mon.eq(stats.total_rows(ref), t.n, "mysql-rows", f"{t.schema}.{t.name}")
            for c in t.cols:
                lead = [cols for cols in t.all_indexes().values() if cols[0] == c]
                if lead:
                    mon.eq(stats.num_distinct(ColumnReference(c, ref)), len(set(t.values(c))), "mysql-distinct", lambda: f"{t.schema}.{t.name}.{c}, indexes {t.all_indexes()}")
    finally:
        close(iface)
        cat.con.close()


# ------------------------------------------------------------------ native statistics

def native_stats(mon, rng):
    cat = Catalog(rng, "pg")
    server, iface = open_interface(mon, rng, cat)
    try:
        judge_stats(mon, rng, cat, iface)
        judge_updates(mon, rng, cat, iface)
        judge_buffers(mon, rng, cat, iface)
    finally:
        close(iface)
        cat.con.close()


def judge_stats(mon, rng, cat, iface):
    stats = iface.statistics()
    local = rng.random() < 0.5
    stats.emulated = local
    kw = {"emulated": False} if local else {}
    close_to = lambda a, b: abs(float(a) - float(b)) <= 1e-3 * max(1.0, abs(float(b)))
    for t in cat.tables:
        if t.view:
            continue
        ref = t.ref(rng, alias=rng.random() < 0.3)
        where = f"{t.schema}.{t.name}"
        mon.eq(stats.total_rows(ref, **kw), t.n, "rows", where)
        mon.eq(stats.n_pages(ref) if t.schema != "public" or rng.random() < 0.7 else stats.n_pages(t.name), cat.pages[(t.schema, t.name)], "pages", where)
        for c in t.cols:
            col = ColumnReference(c, ref)
            values = [v for v in t.values(c) if v is not None]
            nd, common, bounds = cat.stats[(t.schema, t.name, c)]
            payload = lambda: {"column": f"{where}.{c}", "type": t.types[c], "values": t.values(c), "pg_stats": [nd, common, bounds]}
            mon.count("native-stats")
            got = stats.num_distinct(col, **kw)
            d = len(set(values))
            mon.check(got == d if nd >= 0 else abs(got - d) <= 1, "distinct", lambda: f"num_distinct({where}.{c}) = {got}, n_distinct is {nd} for {t.n} rows", payload())
            k = rng.choice([None, None, 1, 2, 5])
            mcv = stats.most_common_values(col, k=k, **kw)
            pairs = list(mcv)
            want = common if k is None else common[:k]
            mon.count("mcvs", bool(common))
            mon.check([v for v, _ in pairs] == [v for v, _ in want] or sorted(map(repr, dict(pairs))) == sorted(map(repr, dict(want))), "mcv-values", lambda: f"MCVs of {where}.{c} (k={k}): {pairs} instead of {want}", payload())
            mon.check(all(close_to(f, dict(want)[v]) for v, f in pairs), "mcv-frequency", lambda: f"MCVs of {where}.{c}: {pairs} instead of {want}", payload())
            freqs = [f for _, f in pairs]
            mon.check(all(a >= b or close_to(a, b) for a, b in zip(freqs, freqs[1:])), "mcv-order", lambda: f"{pairs}", payload())
            strategy = rng.choice(["bound", "approx-uni"])
            h = stats.histogram(col, interpolation=strategy, **kw)
            if not bounds:
                mon.check(h is None, "histogram-missing", lambda: f"histogram {h} of {where}.{c} without bounds", payload())
                continue
            mon.count("histograms")
            mon.check(h is not None, "histogram-lost", lambda: f"no histogram for {where}.{c}", payload())
            expected = sorted(set(bounds) | {v for v, _ in common})
            mon.eq(list(h.bounds), expected, "histogram-bounds", lambda: f"{where}.{c}: bounds {bounds}, MCVs {common}")
            mon.eq(h.lower, expected[0], "histogram-lower", lambda: f"{where}.{c}: bounds {bounds}, MCVs {common}")
            mon.eq(h.bucket_interpolation, strategy, "histogram-strategy", where)
            got = dict(h)
            for v, f in common:
                mon.check(close_to(got[v], f), "histogram-mcv", lambda: f"{v!r} occurs {f} times in {where}.{c}, its bucket has {got[v]}", payload())
            shares = {round(float(got[b]) / bounds.count(b), 3) for b in bounds}
            mon.check(len(shares) == 1, "histogram-depth", lambda: f"histogram of {where}.{c} is not equi-depth: {got}", payload())
            total = sum(got.values())
            mon.check(total <= t.n * (1 + 1e-3) and total >= len(values) - len(bounds) - 1, "histogram-rows", lambda: f"histogram of {where}.{c} represents {total} rows, the table has {t.n} ({len(values)} values)", payload())
            mon.ok(("stats", t.types[c], nd < 0, len(common) > 0, len(bounds) > 2, None in t.values(c), 0 in values, k))


IDENT = r'(?:"(?:[^"]|"")*"|[A-Za-z_][A-Za-z_0-9]*)'


def unquote(name):
    return name[1:-1].replace('""', '"') if name.startswith('"') else name.lower()


def relation(text):
    parts = re.findall(IDENT, text)
    names = [unquote(p) for p in parts]
    return (names[0], names[1]) if len(names) == 2 else ("public", names[0])


def judge_updates(mon, rng, cat, iface):
    stats = iface.statistics()
    base = [t for t in cat.tables if not t.view]
    if not base:
        return
    pub = [t for t in base if t.schema == "public"]
    for _ in range(4):
        cat.effects.clear()
        mode = rng.choice(["columns", "columns", "tables", "all", "one-column", "one-table"])
        mcv, dist = rng.random() < 0.5, rng.random() < 0.5
        kw = {}
        if mode in ("columns", "one-column"):
            cols = [(t, c) for t in base for c in t.cols]
            cols = rng.sample(cols, min(len(cols), 1 if mode == "one-column" else rng.randint(1, 6)))
            refs = [ColumnReference(c, TableReference(t.name, schema="" if t.schema == "public" else t.schema)) for t, c in cols]
            args = [refs[0] if mode == "one-column" else rng.choice([list, set, tuple])(refs)]
        else:
            if not pub:
                continue
            ts = pub if mode == "all" else rng.sample(pub, 1 if mode == "one-table" else rng.randint(1, len(pub)))
            cols = [(t, c) for t in ts for c in t.cols]
            args = []
            if mode != "all":
                refs = [TableReference(t.name) for t in ts]
                kw["tables"] = refs[0] if mode == "one-table" else rng.choice([list, set])(refs)
        kw |= {name: on for name, on in (("perfect_mcv", mcv), ("perfect_n_distinct", dist)) if on or rng.random() < 0.5}
        stats.update_statistics(*args, **kw)
        mon.count("updates")
        analyzed, targets, distinct, pos = set(), {}, {}, {}
        for i, sql in enumerate(cat.effects):
            text = " ".join(sql.split()).rstrip("; ")
            if text.upper().startswith("ANALYZE"):
                for rel, cs in re.findall(rf"({IDENT}(?:\.{IDENT})?)\s*\(([^)]*)\)", text[len("ANALYZE"):]):
                    key = relation(rel)
                    for c in re.findall(IDENT, cs):
                        analyzed.add((*key, unquote(c)))
                pos["analyze"] = i
                continue
            m = re.fullmatch(rf"ALTER TABLE ({IDENT}(?:\.{IDENT})?) ALTER (?:COLUMN )?({IDENT}) SET (?:STATISTICS (\d+)|\(\s*n_distinct = ([-\d.]+)\s*\))", text, flags=re.I)
            mon.check(m is not None, "update-statement", lambda: f"unexpected statement {text}")
            key = (*relation(m.group(1)), unquote(m.group(2)))
            if m.group(3) is not None:
                targets[key] = int(m.group(3))
                pos.setdefault("target", i)
            else:
                distinct[key] = float(m.group(4))
        want = {(t.schema, t.name, c) for t, c in cols}
        payload = lambda: {"mode": mode, "columns": sorted(want), "effects": cat.effects, "mcv": mcv, "distinct": dist}
        mon.eq(analyzed, want, "update-columns", lambda: f"{mode}: {cat.effects}")
        count = {(t.schema, t.name, c): len({v for v in t.values(c) if v is not None}) for t, c in cols}
        mon.eq(targets, count if mcv else {}, "update-targets", lambda: f"{mode} mcv={mcv}: {cat.effects}")
        mon.eq(distinct, {k: float(v) for k, v in count.items()} if dist else {}, "update-distinct", lambda: f"{mode} distinct={dist}: {cat.effects}")
        mon.check(not mcv or pos["target"] < pos["analyze"], "update-order", lambda: f"statistics targets are set after ANALYZE: {cat.effects}", payload())
        mon.ok(("update", mode, mcv, dist))


def judge_buffers(mon, rng, cat, iface):
    stats = iface.statistics()
    for s in ("public", "other"):
        want = {rel: n for (sc, rel), n in cat.buffered.items() if sc == s}
        mon.eq({k: v for k, v in (stats.buffer_state(schema=s) if s != "public" else stats.buffer_state()).items()}, want, "buffer-state", f"schema {s}")
    for (s, rel) in cat.relations:
        got = stats.n_buffered(TableReference(rel, schema="" if s == "public" else s))
        mon.count("buffers")
        mon.eq(got, cat.buffered[(s, rel)], "buffered", f"{s}.{rel}")
    cat.con.execute("DELETE FROM pgcat.pg_extension")
    base = [t for t in cat.tables if not t.view]
    if not base:
        return
    tab = lambda t: TableReference(t.name, rng.choice(["", "al"]), schema="" if t.schema == "public" else t.schema)
    for fn, ext in ((iface.prewarm_tables, "pg_prewarm"), (iface.cooldown_tables, "pg_temperature")):
        cat.effects.clear()
        cat.con.execute("INSERT INTO pgcat.pg_extension VALUES ('plpgsql'), ('x" + ext + "')")
        mon.raises(lambda: fn(tab(base[0])), "missing-extension", f"{ext} is not installed", exc=pb.util.StateError)
        mon.check(not cat.effects, "missing-extension-effect", lambda: f"{cat.effects}")
        cat.con.execute(f"INSERT INTO pgcat.pg_extension VALUES ('{ext}')")
        for _ in range(3):
            cat.effects.clear()
            ts = rng.sample(base, rng.randint(0, len(base)))
            refs = [tab(t) for t in ts] + [tab(t) for t in ts[:1]]
            virtual = [TableReference.create_virtual("cte")] if rng.random() < 0.3 else []
            flags = {"exclude_table_pages": rng.random() < 0.3, "include_primary_index": rng.random() < 0.6, "include_secondary_indexes": rng.random() < 0.6}
            given = {k: v for k, v in flags.items() if v != {"exclude_table_pages": False}.get(k, True) or rng.random() < 0.5}
            mode = rng.choice(["list", "varargs", "mixed", "set"])
            if mode == "varargs" and refs:
                fn(*refs, *virtual, **given)
            elif mode == "mixed" and refs:
                fn(refs[:1] + virtual, *refs[1:], **given)
            elif mode == "set":
                fn(set(refs + virtual), **given)
            else:
                fn(refs + virtual, **given)
            want = set()
            for t in ts:
                if not flags["exclude_table_pages"]:
                    want.add((t.schema, t.name))
                if flags["include_primary_index"] and t.pk:
                    want.add((t.schema, f"{t.name}_pkey"))
                if flags["include_secondary_indexes"]:
                    want |= {(t.schema, n) for n in t.indexes}
            mon.count("prewarm")
            func = "pg_prewarm" if ext == "pg_prewarm" else "pg_cooldown"
            raw = [x for sql in cat.effects for x in re.findall(rf"{func}\('([^']*)'", sql)]
            payload = lambda: {"tables": [(t.schema, t.name, t.pk, t.indexes) for t in ts], "flags": flags, "effects": cat.effects}
            try:
                got = [cat.regclass(x) for x in raw]
            except psycopg.Error as e:
                mon.fail("prewarm-unknown", f"{func}: {e}", payload())
                continue
            mon.check(set(got) == want and len(got) == len(set(got)), "prewarm-relations", lambda: f"{func} for {sorted(got)} instead of {sorted(want)}", payload())
            mon.ok(("prewarm", func, mode, tuple(flags.values()), bool(virtual), len(ts)))


# ------------------------------------------------------------------ settings

RUNTIME = ["work_mem", "temp_buffers", "hash_mem_multiplier", "maintenance_work_mem", "effective_io_concurrency", "max_parallel_workers_per_gather", "max_parallel_workers", "parallel_leader_participation", "enable_hashjoin", "enable_nestloop", "enable_seqscan", "enable_memoize",
           "enable_material", "enable_sort", "enable_indexonlyscan", "enable_bitmapscan", "enable_mergejoin", "enable_gathermerge", "seq_page_cost", "random_page_cost", "cpu_tuple_cost", "cpu_operator_cost", "effective_cache_size", "geqo", "geqo_threshold", "geqo_seed",
           "default_statistics_target", "from_collapse_limit", "join_collapse_limit", "jit", "plan_cache_mode", "recursive_worktable_factor", "constraint_exclusion", "cursor_tuple_fraction"]
STATIC = ["shared_buffers", "huge_pages", "max_worker_processes", "autovacuum", "autovacuum_naptime", "autovacuum_max_workers", "autovacuum_analyze_threshold", "bgwriter_delay", "shared_memory_type", "autovacuum_work_mem"]
OTHER = ["port", "listen_addresses", "log_statement", "max_connections", "ssl", "wal_level"]
VALUES = [True, False, 4, 0, 1.5, "4MB", "on", "off", "it's", "auto", "", "a'b'c"]
OPERATORS = {JoinOperator.NestedLoopJoin: "enable_nestloop", JoinOperator.HashJoin: "enable_hashjoin", JoinOperator.SortMergeJoin: "enable_mergejoin", ScanOperator.SequentialScan: "enable_seqscan", ScanOperator.IndexScan: "enable_indexscan",
             ScanOperator.IndexOnlyScan: "enable_indexonlyscan", ScanOperator.BitmapScan: "enable_bitmapscan", IntermediateOperator.Memoize: "enable_memoize", IntermediateOperator.Materialize: "enable_material", IntermediateOperator.Sort: "enable_sort"}


def sent(sql):
    """the settings that a list of SET statements establishes"""
    out, rest = [], sql
    pattern = re.compile(r"\s*SET\s+([\w.]+)\s*(?:=|\bTO\b)\s*(?:'((?:[^']|'')*)'|([\w.+-]+))\s*;?", re.I)
    while rest.strip():
        m = pattern.match(rest)
        if m is None:
            return None
        out.append((m.group(1).lower(), m.group(2).replace("''", "'") if m.group(2) is not None else m.group(3)))
        rest = rest[m.end():]
    return out


def shown(v):
    return "on" if v is True else "off" if v is False else str(v)


def settings(mon, rng):
    model = {}
    S, C = postgres.PostgresSetting, postgres.PostgresConfiguration
    names = rng.sample(RUNTIME + STATIC, 6)
    conf = C.load(*[S(n, v) for n, v in [(names[0], rng.choice(VALUES))] if not model.update({n: v})], **{n: v for n in names[1:3] for v in [rng.choice(VALUES)] if not model.update({n: v})})
    log = [("load", dict(model))]

    def judge():
        payload = lambda: {"log": [repr(x) for x in log], "text": str(conf)}
        mon.check(list(conf.parameters()) == list(model), "config-parameters", lambda: f"{conf.parameters()} instead of {list(model)}", payload())
        mon.check(conf.as_dict() == model and all(type(v) is type(model[k]) for k, v in conf.as_dict().items()), "config-dict", lambda: f"as_dict() = {conf.as_dict()!r} instead of {model!r}", payload())
        mon.check(all(isinstance(s, S) and s.parameter == n and s.value == v for s, (n, v) in zip(conf.settings, model.items())) and len(conf.settings) == len(model), "config-settings", lambda: f"{conf.settings} instead of {model}", payload())
        mon.check(sent(str(conf)) == [(n, shown(v)) for n, v in model.items()], "config-text", lambda: f"{str(conf)!r} does not establish {model}", payload())
        for n, v in model.items():
            mon.check(conf[n] == S(n, v) and conf[n].value == v, "config-lookup", lambda: f"{n}: {conf[n]!r}", payload())
        if model:
            mon.check(conf[0] == "S" and conf[-1] == str(conf)[-1] and list(conf) == list(str(conf)), "config-char", lambda: f"{conf[0]!r}, {conf[-1]!r}", payload())

    judge()
    for _ in range(rng.randint(4, 9)):
        op = rng.choice(["add", "add-setting", "add-kw", "remove", "remove-setting", "update", "update-setting", "set", "set-setting", "copy"])
        n, v = rng.choice(names), rng.choice(VALUES)
        before, old = dict(model), conf
        if op == "add":
            conf = conf.add(n, v)
        elif op == "add-setting":
            conf = conf.add(S(n, v))
        elif op == "add-kw":
            conf = conf.add(**{n: v})
        elif op == "remove":
            conf = conf.remove(n)
        elif op == "remove-setting":
            conf = conf.remove(S(n, 42))
        elif op == "update":
            conf = conf.update(n, v)
        elif op == "update-setting":
            conf = conf.update(S(n, "old"), v)
        elif op == "set":
            conf[n] = v
        elif op == "set-setting":
            conf[n] = S(n, v)
        else:
            conf = rng.choice([copy.copy, copy.deepcopy, lambda c: pickle.loads(pickle.dumps(c))])(conf)
        if op.startswith("remove"):
            model.pop(n, None)
        elif op != "copy":
            model[n] = v
        log.append((op, n, v))
        mon.count("config-edits")
        judge()
        if op not in ("set", "set-setting", "copy"):
            mon.check(old.as_dict() == before and sent(str(old)) == [(a, shown(b)) for a, b in before.items()], "config-immutable", lambda: f"{op} changed the original: {old} instead of {before}", {"log": [repr(x) for x in log]})
        s = S(n, v)
        for t in (copy.copy(s), copy.deepcopy(s), pickle.loads(pickle.dumps(s)), s.update("x").update(v)):
            mon.check(t == s and (t.parameter, t.value) == (n, v) and isinstance(t, str) and sent(t) == [(n, shown(v))], "setting-copy", lambda: f"{t!r} instead of {s!r}")
        mon.ok(("config", op, type(v).__name__, n in before))
    apply_settings(mon, rng, model, conf)


def apply_settings(mon, rng, model, conf):
    effects = []
    current = {n: rng.choice(["on", "1", "4096", "x"]) for n in RUNTIME + STATIC + OTHER}

    def handle(sql, params):
        if sql.upper().lstrip().startswith("SHOW"):
            return [(current[sql.split()[1].rstrip(";")],)]
        effects.append(sql)
        return None
    server = fakes.Server(handle, settings=list(current.items()))
    with server.psycopg():
        iface = postgres.PostgresInterface("dbname=x")
    try:
        got = iface.current_configuration()
        mon.eq({k: v for k, v in got.as_dict().items()}, {n: current[n] for n in RUNTIME + STATIC}, "current-configuration", "all relevant settings")
        got = iface.current_configuration(runtime_changeable_only=True)
        mon.eq({k: v for k, v in got.as_dict().items()}, {n: current[n] for n in RUNTIME}, "runtime-configuration", "settings that can be changed at runtime")
        n = rng.choice(RUNTIME + OTHER)
        mon.eq(iface.config[n], current[n], "config-interface", n)
        for conf in (conf, C_single(conf, rng), rng.choice(OTHER_FORMS)(rng)):
            effects.clear()
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                iface.apply_configuration(conf)
            if isinstance(conf, postgres.PostgresConfiguration):
                want = [(k, shown(v)) for k, v in conf.as_dict().items() if k in RUNTIME]
                skipped = [k for k in conf.parameters() if k not in RUNTIME]
            elif isinstance(conf, postgres.PostgresSetting):
                want = [(conf.parameter, shown(conf.value))] if conf.parameter in RUNTIME else []
                skipped = [] if want else [conf.parameter]
            else:
                want, skipped = sent(conf), []
            got = [x for sql in effects for x in (sent(str(sql)) or [("?", sql)] if str(sql).strip() else [])]
            mon.count("config-applied")
            mon.check(got == want, "apply-settings", lambda: f"applying {conf!r} sent {effects}, expected {want}")
            mon.check(bool(caught) == bool(skipped) and all(any(k in str(w.message) for w in caught) for k in skipped), "apply-warning", lambda: f"{conf!r}: skipped {skipped}, warnings {[str(w.message) for w in caught]}")
            mon.check(all(isinstance(s, str) for s in effects), "apply-type", lambda: f"{effects!r} cannot be executed by psycopg")
        effects.clear()
        for op in rng.sample(list(OPERATORS), 3):
            on = rng.random() < 0.5
            iface.optimizer().configure_operator(op, enabled=on)
            mon.eq(sent(effects[-1]), [(OPERATORS[op], "on" if on else "off")], "configure-operator", f"{op} {on}")
        judge_extensions(mon, rng, iface, server)
    finally:
        close(iface)


def C_single(conf, rng):
    n, v = rng.choice(RUNTIME + STATIC), rng.choice(VALUES)
    return postgres.PostgresSetting(n, v)


OTHER_FORMS = [lambda rng: "SET geqo = 'off';", lambda rng: postgres.PostgresConfiguration([postgres.PostgresSetting(n, rng.choice(VALUES)) for n in rng.sample(STATIC, 2)]), lambda rng: postgres.PostgresSetting("work_mem", "4MB")]


def judge_extensions(mon, rng, iface, server):
    libs = rng.sample(["pg_hint_plan", "pg_lab", "pg_prewarm", "my_pg_lab", "xpg_hint_plan", "auto_explain"], 3)
    installed = rng.sample(["pg_hint_plan", "pg_prewarm", "plpgsql", "xpg_temperature", "pg_temperature"], 2)
    orig, seen = pb.util.system.open_files, []

    def files(pid=None):
        seen.append(pid)
        return [f"/usr/lib/postgresql/16/lib/{lib}.so" for lib in libs] + ["/lib/libc.so.6"]
    answer = server.handler
    server.handler = lambda sql, params: [(e,) for e in installed] if "pg_extension" in sql else answer(sql, params)
    pb.util.system.open_files = files
    try:
        for ext in ("pg_hint_plan", "pg_lab", "pg_prewarm", "pg_temperature"):
            for shared in (True, False):
                got = iface.has_extension(ext, is_shared_object=shared)
                want = ext in libs if shared or ext in ("pg_hint_plan", "pg_lab") else ext in installed
                mon.count("extensions")
                mon.check(got == want, "extension", lambda: f"has_extension({ext}, shared={shared}) = {got}: libraries {libs}, extensions {installed}")
        mon.check(iface.has_extension("pg_lab.so") == ("pg_lab" in libs), "extension-suffix", lambda: f"{libs}")
        mon.check(set(seen) <= {iface.backend_pid()}, "extension-backend", lambda: f"inspected the processes {seen} instead of the backend {iface.backend_pid()}")
    finally:
        pb.util.system.open_files = orig
        server.handler = answer


# ------------------------------------------------------------------ connections

def connections(mon, rng):
    root = f"{mon.tmp}/c{uuid.uuid4().hex}"
    os.mkdir(root)
    cwd, env = os.getcwd(), dict(os.environ)
    os.chdir(root)
    for v in ("PGDATABASE", "PGHOST", "PGPORT", "PGUSER", "PGPASSWORD", "PGPASSFILE"):
        os.environ.pop(v, None)
    pb.db.DatabasePool.get_instance().clear()
    server = fakes.Server(lambda sql, params: [])
    opened = []
    try:
        with server.psycopg(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for _ in range(3):
                pg_connect(mon, rng, server, opened)
        with server.mysqlconnector(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            my_connect(mon, rng, server)
    finally:
        for db in opened:
            close(db)
        pb.db.DatabasePool.get_instance().clear()
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        for f in os.listdir(root):
            os.unlink(f"{root}/{f}")
        os.rmdir(root)


def conninfo(params):
    esc = lambda v: str(v).replace("\\", "\\\\").replace("'", "\\'")
    return " ".join(f"{k}='{esc(v)}'" for k, v in params.items())


def pg_connect(mon, rng, server, opened):
    for f in os.listdir("."):
        os.unlink(f)
    for v in ("PGDATABASE", "PGHOST", "PGPORT", "PGUSER", "PGPASSWORD", "PGPASSFILE"):
        os.environ.pop(v, None)
    secret = rng.choice(["secret", "", "with space", "it's", "back\\slash", "50%", "a\\'b", "p=q #x", "ü"])
    params = {"dbname": rng.choice(["imdb", "stats", "my db"]), "host": rng.choice(["localhost", "/tmp"]), "port": rng.choice([5432, 5433]), "user": "postbound", "password": secret}
    for k in rng.sample(["host", "port", "password"], rng.randint(0, 2)):
        params.pop(k)
    if params.get("password") == "":
        params.pop("password")
    other = conninfo({"dbname": "wrong"})
    src = rng.choice(["string", "plain", "default", "json", "toml", "ini", "env", "JSON", "missing", "nothing", "unknown"])
    if rng.random() < 0.4 and src in ("string", "plain", "json", "ini", "toml"):
        open(".psycopg_connection", "w").write(other)
    if src != "env" and rng.random() < 0.3 and src != "nothing":
        os.environ["PGDATABASE"] = "wrong"
    kw = {"name": f"pg{uuid.uuid4().hex}", "private": rng.random() < 0.5}
    if src == "string":
        kw["connect_string"] = rng.choice(["", " "]) + conninfo(params) + rng.choice(["", "\n"])
        if rng.random() < 0.3:
            kw["config_file"] = "nope.json"
    elif src in ("plain", "default"):
        name = ".psycopg_connection" if src == "default" else "conn"
        sep = rng.choice([" ", "\n"])
        open(name, "w").write(sep.join(conninfo({k: v}) for k, v in params.items()) + "\n")
        if src == "plain":
            kw["config_file"] = rng.choice([name, os.path.abspath(name)])
    elif src in ("json", "JSON"):
        open(f"c.{src}", "w").write(json.dumps(params))
        kw["config_file"] = f"c.{src}"
    elif src == "toml":
        open("c.toml", "w").write("\n".join(f"{k} = {v}" if isinstance(v, int) else f"{k} = {json.dumps(v)}" for k, v in params.items()))
        kw["config_file"] = "c.toml"
    elif src == "ini":
        params = {k: v for k, v in params.items()}
        open("c.ini", "w").write("[postgres]\n" + "\n".join(f"{k} = {v}" for k, v in params.items()))
        kw["config_file"] = "c.ini"
    elif src == "env":
        for var, key in (("PGDATABASE", "dbname"), ("PGHOST", "host"), ("PGPORT", "port"), ("PGUSER", "user"), ("PGPASSWORD", "password")):
            if key in params:
                os.environ[var] = str(params[key])
    elif src == "missing":
        kw["config_file"] = "absent.toml"
    elif src == "unknown":
        open("c.xml", "w").write("<x/>")
        kw["config_file"] = "c.xml"
    count = len(server.conns)
    mon.count("connects")
    mon.count("special-values", any(ch in params.get("password", "") for ch in "'\\%"))
    if src in ("missing", "nothing", "unknown"):
        mon.raises(lambda: postgres.connect(**kw), "bad-connection", f"connected with {src}", exc=ValueError)
        mon.check(len(server.conns) == count, "bad-connection-opened", lambda: f"{src}")
        mon.ok(("connect", src))
        return
    db = postgres.connect(**kw)
    opened.append(db)
    text = server.conns[count].args[0]
    payload = lambda: {"source": src, "params": params, "connect_string": text}
    try:
        got = psycopg.conninfo.conninfo_to_dict(text)
    except psycopg.Error as e:
        mon.fail("conninfo-malformed", f"{src}: the connect string {text!r} for {params} is not valid: {e}", payload())
        return
    mon.check({k: str(v) for k, v in got.items()} == {k: str(v) for k, v in params.items()}, "conninfo", lambda: f"{src}: connected with {got} instead of {params}", payload())
    mon.check((kw["name"] in pb.db.DatabasePool.get_instance()) == (not kw["private"]), "connect-pool", lambda: f"private={kw['private']}", payload())
    mon.ok(("connect", src, tuple(params), any(ch in params.get("password", "") for ch in "'\\% ")))


def my_connect(mon, rng, server):
    want = {"user": rng.choice(["u", "a b"]), "database": "imdb"}
    lines = [f"User = {want['user']}", "Database = imdb"]
    opts = {"Password": ("password", rng.choice(["x", "50%", "it's"])), "Host": ("host", "example.org"), "Port": ("port", 3307), "UseUnicode": ("use_unicode", rng.choice([True, False])), "Charset": ("charset", "latin1"), "AutoCommit": ("autocommit", rng.choice([True, False])), "SqlMode": ("sql_mode", "ANSI_QUOTES")}
    for k in rng.sample(list(opts), rng.randint(0, 5)):
        name, v = opts[k]
        want[name] = v
        lines.append(f"{k} = {v}")
    drop = rng.random() < 0.2
    if drop:
        lines.pop(rng.choice([0, 1]))
    rng.shuffle(lines)
    open("my.config", "w").write("[MYSQL]\n" + "\n".join(lines))
    mon.count("mysql-connects")
    name = f"my{uuid.uuid4().hex}"
    if drop:
        mon.raises(lambda: mysql.connect(config_file="my.config", name=name), "mysql-incomplete", f"{lines}", exc=ValueError)
        return
    count = len(server.conns)
    mysql.connect(config_file="my.config", name=name, private=rng.random() < 0.5)
    got = server.conns[count].kwargs
    mon.check(all(got.get(k) == v and type(got[k]) is type(v) for k, v in want.items()), "mysql-arguments", lambda: f"connected with {got} instead of {want}", {"lines": lines})
    mon.ok(("mysql-connect", tuple(sorted(want))))


# ------------------------------------------------------------------ infinite dates

def adapters(mon, rng):
    """values that are read from the server and sent back have to denote the same point in time"""
    UTC = datetime.timezone.utc
    server = fakes.Server(lambda sql, params: [])
    amap = psycopg.adapters.__class__(psycopg.adapters)
    orig = fakes.Connection.__init__

    def init(self, *a):
        orig(self, *a)
        self.adapters = amap
    fakes.Connection.__init__ = init
    try:
        with server.psycopg():
            iface = postgres.PostgresInterface("dbname=x")
    finally:
        fakes.Connection.__init__ = orig
    close(iface)
    tf = Transformer(types.SimpleNamespace(adapters=amap, connection=None))

    def send(obj):
        d = tf.get_dumper(obj, PyFormat.TEXT)
        return bytes(d.dump(obj))

    def load(kind, data):
        return tf.get_loader(psycopg.adapters.types[kind].oid, psycopg.pq.Format.TEXT).load(data)

    day = datetime.date(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28))
    ts = datetime.datetime(day.year, day.month, day.day, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, rng.randint(1, 999999)]))
    known = {"date": [(day.isoformat().encode(), day), (b"infinity", datetime.date.max), (b"-infinity", datetime.date.min)],
             "timestamp": [(ts.isoformat(sep=" ").encode(), ts), (b"infinity", datetime.datetime.max), (b"-infinity", datetime.datetime.min)],
             "timestamptz": [(ts.isoformat(sep=" ").encode() + b"+00", ts.replace(tzinfo=UTC)), (b"infinity", datetime.datetime.max.replace(tzinfo=UTC)), (b"-infinity", datetime.datetime.min.replace(tzinfo=UTC))],
             "interval": [(b"infinity", datetime.timedelta.max), (b"-infinity", datetime.timedelta.min)]}
    for kind, pairs in known.items():
        for text, obj in pairs:
            got = load(kind, text)
            mon.count("adapters")
            mon.check(got == obj and type(got) is type(obj), "adapter-load", lambda: f"{kind} {text!r} is read as {got!r} instead of {obj!r}")
            if kind == "interval":
                continue
            back = send(got)
            mon.check(back == text if b"inf" in text else load(kind, back) == obj, "adapter-dump", lambda: f"{kind} {text!r} is read as {got!r}, but sent as {back!r}")
            mon.ok(("adapter", kind, text if b"inf" in text else b""))
    year = str(rng.randint(10000, 290000)).encode()
    mon.eq(load("date", year + b"-01-05"), datetime.date.max, "late-date", f"{year}")
    mon.eq(load("timestamp", year + b"-01-05 00:00:00"), datetime.datetime.max, "late-timestamp", f"{year}")
    mon.eq(load("timestamptz", year + b"-01-05 00:00:00+00"), datetime.datetime.max.replace(tzinfo=UTC), "late-timestamptz", f"{year}")
    mon.raises(lambda: load("date", b"0044-03-15 BC"), "early-date", "a date BC is read as a valid date", exc=psycopg.DataError)


SCENARIOS = [Scenario(catalog_pg, quick=60, thorough=1500, cpu=60), Scenario(catalog_mysql, quick=60, thorough=1200, cpu=60), Scenario(native_stats, quick=60, thorough=1500, cpu=60), Scenario(settings, quick=160, thorough=4000, cpu=30),
             Scenario(connections, quick=120, thorough=3000, cpu=30), Scenario(adapters, quick=60, thorough=1000, cpu=20)]
