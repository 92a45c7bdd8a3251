"""P15: schema answers against the DDL that was executed, statistics against the rows that were inserted."""
import bisect
import datetime
import decimal
import os
import pathlib
import random
import shutil
import warnings
from collections import Counter, defaultdict

import networkx as nx
import quacklab

from postbound import duckdb, mysql, postgres
from postbound._core import BoundColumnReference, ColumnReference, TableReference
from postbound.db import UnsupportedDatabaseFeatureError, _db
from postbound.db._db import DatabaseSchema, Histogram, MostCommonValues

from lib import fakes
from lib.vlib import Scenario

PROPERTY = "P15"
TECHNIQUE = ("model-based monitoring: random DDL (several schemas, views, simple and compound keys, foreign keys, indexes, quoted names) is executed on real DuckDB databases, every schema question is asked in random order - also after further DDL - "
             "and judged against the model of the DDL; the system-independent implementation is asked against a standard information_schema; every statistic of DuckDB, Postgres and MySQL interfaces (the latter two over stand-in connections) is "
             "compared with the rows fetched by independent SQL, also after data changes")
RULE = ("schemas with 1-7 tables in 1-2 schemas and 1-6 columns of 8 types, tables with 0-60 rows, NULLs, ties and skew; all questions in random order; distinct by question kind x interface x answer class")
ASSUMPTIONS = ["no live Postgres or MySQL server: their catalogs are not read, only the emulated statistics", "indexes that the engine creates implicitly for UNIQUE and foreign keys may or may not count as secondary indexes (DuckDB)",
               "whether compound keys and compound or expression indexes are mentioned for their single columns is open, but they must not pass as simple ones", "estimates that the engine maintains itself (row count estimates) are not judged", "NULL may or may not be listed as most common value"]
LEVEL_NOTE = "exact comparison with the model for each question of seeded random schemas, tables and change histories"
REQUIRE = {"schemas": 100, "questions": 6000, "after-ddl": 40, "fk": 200, "graphs": 150, "std-questions": 2500, "composite-pk": 20, "two-schemas": 40, "stats": 3000, "after-change": 300, "histograms": 700, "hist-probes": 8000, "mcv": 900, "null-columns": 200, "pg-stats": 500, "mysql-stats": 500, "lookup": 800, "no-fallback": 150}

TYPES = ["INTEGER", "BIGINT", "VARCHAR", "DOUBLE", "DATE", "TIMESTAMP", "DECIMAL(10,2)", "BOOLEAN"]


def q(name):
    return '"' + name.replace('"', '""') + '"'


class Table:
    def __init__(self, schema, name):
        self.schema, self.name = schema, name
        self.cols, self.types, self.notnull = [], {}, set()
        self.pk, self.unique, self.fks, self.cfks = (), set(), [], []      # fks: (col, Table, col)
        self.indexes = {}           # name -> column (simple ones)
        self.other = defaultdict(set)      # column -> names of compound / expression indexes
        self.view = False

    def ref(self, rng=None):
        return TableReference(self.name, "", schema=self.schema) if self.schema else TableReference(self.name)

    def col(self, c):
        return BoundColumnReference(c, self.ref())

    def qname(self):
        return (q(self.schema) + "." if self.schema else "") + q(self.name)


class Model:
    def __init__(self, rng, simple=False):
        self.rng, self.simple = rng, simple
        self.tables = []
        self.n = 0
        self.schemas = [""] + (["s2"] if rng.random() < 0.6 else [])

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def new_table(self):
        rng = self.rng
        schema = rng.choice(self.schemas)
        taken = {t.name for t in self.tables if t.schema == schema}
        elsewhere = [t.name for t in self.tables if t.schema != schema and t.name not in taken]
        name = rng.choice(elsewhere) if elsewhere and rng.random() < 0.5 else self.fresh("t") if rng.random() < 0.85 else "My " + self.fresh("Tab")
        t = Table(schema, name)
        pool = ["id", "name", "val", "x", "y", "my col", "Order", "kind", "it's", "ref"]
        rng.shuffle(pool)
        n = rng.randint(1, 6)
        names = (["id"] if rng.random() < 0.6 else []) + [c for c in pool if c != "id"]
        for c in names[:n]:
            t.cols.append(c)
            t.types[c] = rng.choice(TYPES)
            if rng.random() < 0.25:
                t.notnull.add(c)
        r = rng.random()
        if r < 0.6:
            t.pk = (rng.choice(t.cols),)
        elif r < 0.8 and len(t.cols) > 1:
            t.pk = tuple(rng.sample(t.cols, 2))
        for c in t.pk:
            if t.types[c] in ("DOUBLE",):
                t.types[c] = "INTEGER"
        for c in t.cols:
            if c not in t.pk and rng.random() < 0.15:
                t.unique.add(c)
        targets = [(o, c) for o in self.tables + [t] if o.schema == schema and not o.view for c in (list(o.pk) if len(o.pk) == 1 else []) + sorted(o.unique)]
        for c in t.cols:
            if targets and rng.random() < 0.6:
                for o, oc in rng.sample(targets, min(len(targets), rng.choice([1, 1, 1, 2]))):
                    if (o, oc) == (t, c) or any(x[0] == c and x[1] is o and x[2] == oc for x in t.fks):
                        continue
                    if t.types[c] != o.types[oc]:
                        if o is t or c in t.pk or c in t.unique or any(x[0] == c for x in t.fks):
                            continue
                        t.types[c] = o.types[oc]
                    t.fks.append((c, o, oc))
        comp = [o for o in self.tables if o.schema == schema and len(o.pk) == 2]
        if comp and not self.simple and rng.random() < 0.4:
            o = rng.choice(comp)
            free = [c for c in t.cols if not any(f[0] == c for f in t.fks) and c not in t.pk and c not in t.unique]
            if len(free) >= 2:
                cs = rng.sample(free, 2)
                for c, oc in zip(cs, o.pk):
                    t.types[c] = o.types[oc]
                t.cfks.append((cs, o))
        return t

    def ddl(self, t):
        parts = [f"{q(c)} {t.types[c]}" + (" NOT NULL" if c in t.notnull else "") + (" UNIQUE" if c in t.unique else "") for c in t.cols]
        if t.pk:
            parts.append("PRIMARY KEY (" + ", ".join(q(c) for c in t.pk) + ")")
        for c, o, oc in t.fks:
            parts.append(f"FOREIGN KEY ({q(c)}) REFERENCES {o.qname()} ({q(oc)})")
        for cs, o in t.cfks:
            parts.append("FOREIGN KEY (" + ", ".join(map(q, cs)) + f") REFERENCES {o.qname()} (" + ", ".join(map(q, o.pk)) + ")")
        return f"CREATE TABLE {t.qname()} (" + ", ".join(parts) + ")"

    def new_index(self):
        rng = self.rng
        cands = [t for t in self.tables if not t.view]
        if not cands:
            return None
        t = rng.choice(cands)
        name = self.fresh("ix")
        if rng.random() < 0.3 and len(t.cols) > 1:
            cs = rng.sample(t.cols, 2)
            for c in cs:
                t.other[c].add(name)
            return f"CREATE INDEX {name} ON {t.qname()} ({', '.join(map(q, cs))})"
        c = rng.choice(t.cols)
        if t.types[c] == "VARCHAR" and rng.random() < 0.3:
            t.other[c].add(name)
            return f"CREATE INDEX {name} ON {t.qname()} (lower({q(c)}))"
        t.indexes[name] = c
        return f"CREATE {rng.choice(['', 'UNIQUE '])}INDEX {name} ON {t.qname()} ({q(c)})"

    def new_view(self):
        rng = self.rng
        base = rng.choice([t for t in self.tables if not t.view])
        schema = rng.choice(self.schemas)
        taken = {t.name for t in self.tables if t.schema == schema}
        elsewhere = [t.name for t in self.tables if t.schema != schema and t.name not in taken]
        v = Table(schema, rng.choice(elsewhere) if elsewhere and rng.random() < 0.6 else self.fresh("v"))
        v.view = True
        v.cols = rng.sample(base.cols, rng.randint(1, len(base.cols)))
        v.types = {c: base.types[c] for c in v.cols}
        return v, f"CREATE VIEW {v.qname()} AS SELECT {', '.join(q(c) for c in v.cols)} FROM {q(base.schema or 'main')}.{q(base.name)}"

    def extend(self, execute, log, kind=None):
        kind = kind or self.rng.choices(["table", "index", "view"], [5, 4, 1])[0]
        if kind == "view" and any(not t.view for t in self.tables):
            v, sql = self.new_view()
            if self.attempt(execute, sql, log):
                self.tables.append(v)
            return
        if kind == "index":
            snapshot = [(t, dict(t.indexes), {k: set(s) for k, s in t.other.items()}) for t in self.tables]
            sql = self.new_index()
            if sql and self.attempt(execute, sql, log):
                return
            for t, i, o in snapshot:
                t.indexes, t.other = i, defaultdict(set, o)
            if sql:
                return
        t = self.new_table()
        if self.attempt(execute, self.ddl(t), log):
            self.tables.append(t)

    @staticmethod
    def attempt(execute, sql, log):
        try:
            execute(sql)
        except quacklab.Error:
            return False
        log.append(sql)
        return True


# --- schema questions

def tdesc(t):
    return t.ref()


def expect_fk(t, c):
    return {o.col(oc) for cc, o, oc in t.fks if cc == c}


def composite_targets(t, c):
    return {o.col(oc) for cs, o in t.cfks if c in cs for oc in o.pk}


def ask(mon, rng, schema, model, t, c, kind, std, payload):
    """asks one question about column c of table t"""
    col = rng.choice([t.col(c), ColumnReference(c, t.ref())])
    where = f"{t.qname()}.{c}"
    if kind == "columns":
        arg = t.name if not t.schema and rng.random() < 0.3 else t.ref()
        got = schema.columns(arg)
        mon.check([x.name for x in got] == t.cols and all(x.table.full_name == t.name and x.table.schema == t.schema for x in got), "columns", lambda: f"columns of {t.qname()}: {[str(x) for x in got]}, created as {t.cols}", payload())
    elif kind == "datatype":
        got = schema.datatype(col)
        mon.check(got == t.types[c], "datatype", lambda: f"{where} is a {t.types[c]}, reported as {got!r}", payload())
    elif kind == "nullable":
        got = schema.is_nullable(col)
        want = not (c in t.notnull or c in t.pk)
        mon.check(bool(got) == want, "nullable", lambda: f"{where} nullable: {got!r}, created as {want}", payload())
    elif kind == "pk":
        got = schema.is_primary_key(col)
        mon.check(bool(got) == (t.pk == (c,)), "primary-key", lambda: f"is_primary_key({where}) = {got!r}, the primary key is {t.pk}", payload())
    elif kind == "pkcol":
        arg = t.name if not t.schema and rng.random() < 0.3 else t.ref()
        if len(t.pk) > 1:
            try:
                got = schema.primary_key_column(arg)
            except ValueError:
                got = None
            mon.check(got is None, "primary-key-column", lambda: f"the compound key {t.pk} of {t.qname()} passes as {got}", payload())
        else:
            got = schema.primary_key_column(arg)
            want = t.pk[0] if t.pk else None
            mon.check((got.name if got is not None else None) == want and (got is None or (got.table.full_name, got.table.schema) == (t.name, t.schema)), "primary-key-column", lambda: f"primary key of {t.qname()}: {got}, created as {want}", payload())
    elif kind == "fk":
        got = schema.foreign_keys_on(col)
        want = expect_fk(t, c)
        mon.count("fk", len(want))
        if not std or not composite_targets(t, c):
            mon.check(want <= set(got) <= want | composite_targets(t, c), "foreign-keys", lambda: f"foreign keys on {where}: {sorted(map(str, got))}, created as {sorted(map(str, want))}", payload())
    elif kind == "sec":
        got = bool(schema.has_secondary_index(col))
        explicit = c in t.indexes.values()
        implicit = c in t.unique or bool(expect_fk(t, c))
        if std:
            explicit = implicit
            implicit = bool(composite_targets(t, c))
        mon.check(got == explicit or (implicit and got), "secondary-index", lambda: f"has_secondary_index({where}) = {got}; simple indexes {t.indexes}, unique {sorted(t.unique)}, primary key {t.pk}", payload())
        both = bool(schema.has_index(col))
        if t.pk == (c,) or got:
            mon.check(both, "has-index", lambda: f"has_index({where}) = {both}, but the column is the primary key or has a secondary index", payload())
        elif not implicit:
            mon.check(not both, "has-index", lambda: f"has_index({where}) = {both}; simple indexes {t.indexes}, primary key {t.pk}", payload())
    elif kind == "indexes":
        got = set(schema.indexes_on(col))
        if std:
            want = {n for n, cc in model.constraint_names(t) if cc == (c,)}
            may = {n for n, cc in model.constraint_names(t) if c in cc}
            mon.check(want <= got <= may, "indexes-on", lambda: f"indexes on {where}: {got}, expected {want}", payload())
        else:
            want = {n for n, cc in t.indexes.items() if cc == c}
            foreign = {n for o in model.tables for n in o.indexes} | {n for o in model.tables for s in o.other.values() for n in s}
            rest = got - want
            mon.check(want <= got and not (rest & (foreign - t.other[c])), "indexes-on", lambda: f"indexes on {where}: {got}, created {want}", payload())
            involved = c in t.pk or c in t.unique or expect_fk(t, c) or composite_targets(t, c)
            mon.check(involved or not rest - t.other[c], "indexes-on-extra", lambda: f"indexes on {where}: {got}, created {want}; the column has no key constraint", payload())
            if t.pk == (c,) or c in t.unique:
                mon.check(bool(rest - t.other[c]), "indexes-on-key", lambda: f"indexes on {where}: {got}; the index of the key constraint is missing", payload())
    elif kind == "view":
        arg = t.name if not t.schema and rng.random() < 0.3 else t.ref()
        got = schema.is_view(arg)
        mon.check(bool(got) == t.view, "is-view", lambda: f"is_view({t.qname()}) = {got}", payload())
    elif kind == "lookup":
        others = [o for o in model.tables]
        cands = rng.sample(others, rng.randint(1, len(others)))
        if rng.random() < 0.3 and not any(o.name == "x" for o in others):
            refs = [o.ref().with_alias(f"a{i}") if hasattr(o.ref(), "with_alias") else o.ref() for i, o in enumerate(cands)]
        else:
            refs = [o.ref() for o in cands]
        arg = rng.choice([c, ColumnReference(c), c])
        low = lambda s: s.lower()
        owners = [r for r, o in zip(refs, cands) if c in o.cols]
        similar = [r for r, o in zip(refs, cands) if low(c) in map(low, o.cols)]
        mon.count("lookup")
        if not similar:
            mon.check(schema.lookup_column(arg, refs) is None, "lookup", lambda: f"column {c!r} was found although no candidate has it", payload())
            mon.raises(lambda: schema.lookup_column(arg, refs, expect_match=True), "lookup-expected", "a missing column was accepted", exc=ValueError)
        else:
            got = schema.lookup_column(arg, list(refs), expect_match=rng.random() < 0.5)
            mon.check(got in (owners[:1] + similar[:1]), "lookup", lambda: f"column {c!r} among {[str(r) for r in refs]}: {got}, owners {[str(r) for r in owners]}", payload())
    mon.count("questions")
    mon.ok((kind, std, t.schema != "", t.view, len(t.pk), bool(t.fks), c.isidentifier()))


KINDS = ["columns", "datatype", "nullable", "pk", "pk", "pkcol", "fk", "fk", "fk", "sec", "sec", "indexes", "indexes", "view", "lookup", "lookup"]


def tables_and_graph(mon, rng, schema, model, std, payload):
    base = [t for t in model.tables if not t.schema and not t.view]
    views = [t for t in model.tables if not t.schema and t.view]
    got = schema.tables()
    names = {t.full_name for t in got}
    mon.check({t.name for t in base} <= names <= {t.name for t in base + views}, "tables", lambda: f"tables: {sorted(names)}, created {sorted(t.name for t in base)} and views {sorted(v.name for v in views)}", payload())
    mon.check(set(schema) == set(got) and len(schema) == len(got), "tables-iteration", "iterating the schema does not deliver its tables", payload())
    g = schema.as_graph()
    mon.count("graphs")
    mon.check({n.full_name for n in g.nodes} == {t.name for t in base}, "graph-nodes", lambda: f"nodes {sorted(map(str, g.nodes))}, tables {[t.name for t in base]}", payload())
    if any(t.cfks for t in base) and std:
        return
    edges = defaultdict(set)
    comp = defaultdict(set)
    for t in base:
        attrs = g.nodes[t.ref()]
        mon.check([c.name for c in attrs["columns"]] == t.cols, "graph-columns", lambda: f"{t.name}: {attrs['columns']}", payload())
        mon.check({c.name: d for c, d in attrs["data_type"].items()} == t.types, "graph-types", lambda: f"{t.name}: {attrs['data_type']}", payload())
        pk = attrs["primary_key"]
        want = t.pk[0] if len(t.pk) == 1 else None
        mon.check((pk.name if pk is not None else None) == want, "graph-primary-key", lambda: f"{t.name}: {pk}, created as {t.pk}", payload())
        for c, o, oc in t.fks:
            edges[t.ref(), o.ref()].add((t.col(c), o.col(oc)))
        for c in t.cols:
            for trg in composite_targets(t, c):
                comp[t.ref(), trg.table].add((t.col(c), trg))
    seen = {}
    for a, b, fks in g.edges(data="foreign_keys"):
        pairs = [(f.fk_col, f.referenced_col) for f in fks]
        mon.check(len(pairs) == len(set(pairs)), "graph-duplicates", lambda: f"{pairs}", payload())
        seen[a, b] = set(pairs)
    for e in set(seen) | set(edges):
        mon.check(edges.get(e, set()) <= seen.get(e, set()) <= edges.get(e, set()) | comp.get(e, set()), "graph-edges", lambda: f"edge {e[0]} -> {e[1]}: {seen.get(e)}, created {edges.get(e)}", payload())
    if not comp:
        h = nx.Graph()
        h.add_edges_from(p for s in edges.values() for p in s)
        want = {frozenset(s) for s in nx.connected_components(h)}
        classes = [frozenset(s) for s in schema.join_equivalence_classes()]
        mon.check(len(classes) == len(want) and set(classes) == want, "equivalence-classes", lambda: f"{classes} instead of {want}", payload())
        keys = schema.join_equivalence_keys()
        mon.check({k: frozenset(v) for k, v in keys.items()} == {k: s for s in want for k in s}, "equivalence-keys", lambda: f"{keys}", payload())
    # summaries
    for t in rng.sample(base, min(2, len(base))):
        info = schema[rng.choice([t.ref(), t.name])]
        out = {p for (a, b), s in edges.items() if a == t.ref() for p in s}
        inc = {p for (a, b), s in edges.items() if b == t.ref() for p in s}
        mon.check([ci.column.name for ci in info.columns] == t.cols and len(info) == len(t.cols) and [x.name for x in info] == t.cols, "table-info", lambda: f"{info}", payload())
        if not comp:
            mon.check({(f.fk_col, f.referenced_col) for f in info.outgoing_foreign_keys} == out and {(f.fk_col, f.referenced_col) for f in info.incoming_foreign_keys} == inc, "table-info-keys", lambda: f"{t.name}: {info.outgoing_foreign_keys} / {info.incoming_foreign_keys}, created {out} / {inc}", payload())
        mon.check((info.primary_key.name if info.primary_key is not None else None) == (t.pk[0] if len(t.pk) == 1 else None), "table-info-primary-key", lambda: f"{t.name}: {info.primary_key}", payload())
        c = rng.choice(t.cols)
        for ci in (info[c], schema[t.col(c)], schema[f"{t.name}.{c}"]):
            mon.check(hasattr(ci, "datatype") and (ci.column.name, ci.table.full_name, ci.datatype, bool(ci.nullable), bool(ci.primary_key)) == (c, t.name, t.types[c], not (c in t.notnull or c in t.pk), t.pk == (c,)), "column-info", lambda: f"{t.name}.{c}: {ci}", payload())
    for key in ("missing_table", "missing_table.x", f"{base[0].name}.missing" if base else "a.b"):
        mon.raises(lambda: schema[key], "unknown-key", f"schema[{key!r}] delivers a summary of something that does not exist", exc=KeyError)


def interrogate(mon, rng, schema, model, std, payload, n):
    todo = [t for t in model.tables if not std or not t.other]
    for _ in range(n):
        t = rng.choice(model.tables)
        kind = rng.choice(KINDS)
        if t.view and kind not in ("columns", "datatype", "view", "lookup"):
            continue
        ask(mon, rng, schema, model, t, rng.choice(t.cols), kind, std, payload)
    tables_and_graph(mon, rng, schema, model, std, payload)


def workspace(mon, rng, tag):
    root = pathlib.Path(mon.tmp) / f"p15{tag}_{rng.randrange(10 ** 12)}"
    root.mkdir(parents=True)
    return root


def schema_live(mon, rng):
    root = workspace(mon, rng, "s")
    try:
        path = root / "x.db"
        con = quacklab.connect(str(path))
        model, log = Model(rng), []
        for s in model.schemas[1:]:
            con.execute(f"CREATE SCHEMA {s}")
        model.extend(con.execute, log, "table")
        for _ in range(rng.randint(2, 10)):
            model.extend(con.execute, log)
        con.close()
        if not any(not t.view for t in model.tables):
            return
        mon.count("schemas")
        mon.count("two-schemas", len(model.schemas) > 1)
        iface = duckdb.connect(str(path), name=f"p15_{rng.randrange(10 ** 9)}", refresh=True, private=True)
        payload = lambda: {"ddl": log}
        mon.count("composite-pk", any(len(t.pk) > 1 for t in model.tables))
        schema = iface.schema()
        mon.sample("ddl", list(log))
        interrogate(mon, rng, schema, model, False, payload, 40)
        if rng.random() < 0.7:
            for _ in range(rng.randint(1, 3)):
                model.extend(iface.cursor().execute, log)
            droppable = [t for t in model.tables if not t.view and not t.indexes and not t.other and not any(o is not t and any(f[1] is t for f in o.fks) or any(cf[1] is t for cf in o.cfks) for o in model.tables)]
            if len(model.tables) > 2 and droppable and not any(t.view for t in model.tables) and rng.random() < 0.5:
                t = rng.choice(droppable)
                if Model.attempt(iface.cursor().execute, f"DROP TABLE {t.qname()}", log):
                    model.tables.remove(t)
            mon.count("after-ddl")
            interrogate(mon, rng, schema, model, False, payload, 25)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if hasattr(iface, "close"):
                iface.close()
    finally:
        shutil.rmtree(root, ignore_errors=True)


# --- the system-independent implementation on a standard information_schema

class StdDb:
    """database whose information_schema is kept by the harness"""

    def __init__(self, con):
        self.con = con

    def database_name(self):
        return "memory"

    def cursor(self):
        return self

    def execute(self, sql, params=()):
        self.con.execute(sql.replace("information_schema.", "std."), list(params))
        return self

    def fetchall(self):
        return self.con.fetchall()

    def fetchone(self):
        return self.con.fetchone()


class StdModel(Model):
    def __init__(self, rng):
        super().__init__(rng)
        self.names = {}

    def constraint_names(self, t):
        return self.names[t]

    def publish(self, con):
        con.execute("CREATE SCHEMA std")
        con.execute("CREATE TABLE std.tables (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, table_type VARCHAR)")
        con.execute("CREATE TABLE std.columns (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, ordinal_position INTEGER, is_nullable VARCHAR, data_type VARCHAR)")
        con.execute("CREATE TABLE std.table_constraints (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, constraint_type VARCHAR)")
        con.execute("CREATE TABLE std.key_column_usage (constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR, table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, ordinal_position INTEGER, position_in_unique_constraint INTEGER)")
        con.execute("CREATE TABLE std.constraint_column_usage (table_catalog VARCHAR, table_schema VARCHAR, table_name VARCHAR, column_name VARCHAR, constraint_catalog VARCHAR, constraint_schema VARCHAR, constraint_name VARCHAR)")
        rows = defaultdict(list)
        for t in self.tables:
            s = t.schema or "main"
            rows["tables"].append(("memory", s, t.name, "VIEW" if t.view else "BASE TABLE"))
            for i, c in enumerate(t.cols, 1):
                rows["columns"].append(("memory", s, t.name, c, i, "NO" if c in t.notnull or c in t.pk else "YES", t.types[c]))
            self.names[t] = []

            def constraint(kind, cols, target=None, tcols=None):
                name = f"{t.name}_{'_'.join(cols)}_{kind[0].lower()}{len(self.names[t])}"
                self.names[t].append((name, tuple(cols)))
                rows["table_constraints"].append(("memory", s, name, "memory", s, t.name, kind))
                for i, c in enumerate(cols, 1):
                    rows["key_column_usage"].append(("memory", s, name, "memory", s, t.name, c, i, i if target else None))
                o, oc = (target, tcols) if target else (t, cols)
                for c in oc:
                    rows["constraint_column_usage"].append(("memory", o.schema or "main", o.name, c, "memory", s, name))
            if t.pk:
                constraint("PRIMARY KEY", t.pk)
            for c in sorted(t.unique):
                constraint("UNIQUE", [c])
            for c, o, oc in t.fks:
                constraint("FOREIGN KEY", [c], o, [oc])
            for cs, o in t.cfks:
                constraint("FOREIGN KEY", cs, o, o.pk)
        for name, rs in rows.items():
            self.rng.shuffle(rs)
            for r in rs:
                con.execute(f"INSERT INTO std.{name} VALUES (" + ", ".join("?" * len(r)) + ")", list(r))


def schema_std(mon, rng):
    con = quacklab.connect()
    model, log = StdModel(rng), []
    model.extend(lambda sql: None, log, "table")
    for _ in range(rng.randint(2, 8)):
        model.extend(lambda sql: None, log, rng.choice(["table", "table", "view"]))
    if not any(not t.view for t in model.tables):
        return
    model.publish(con)
    schema = DatabaseSchema(StdDb(con), prep_placeholder="?")
    before = mon.counters["questions"]
    interrogate(mon, rng, schema, model, True, lambda: {"ddl": log}, 60)
    mon.count("std-questions", mon.counters["questions"] - before)
    con.close()


# --- statistics

def column_values(rng, typ, n):
    pool = {"INTEGER": lambda: rng.choice([0, 1, -5, 7, rng.randint(-100, 100)]), "BIGINT": lambda: rng.choice([10 ** 12, 3, rng.randint(0, 9)]), "VARCHAR": lambda: rng.choice(["a", "b", "it's", "", "Zz", "ä", "a b", str(rng.randint(0, 20))]),
            "DOUBLE": lambda: rng.choice([0.5, -1.25, 3.0, rng.random()]), "DATE": lambda: datetime.date(2020, 1, 1) + datetime.timedelta(days=rng.randint(0, 40)), "TIMESTAMP": lambda: datetime.datetime(2020, 1, 1, 0, 0, 0) + datetime.timedelta(minutes=rng.randint(0, 50)),
            "DECIMAL(10,2)": lambda: decimal.Decimal(rng.randint(-500, 500)) / 100, "BOOLEAN": lambda: rng.random() < 0.5}[typ]
    if rng.random() < 0.4:
        vals = [pool() for _ in range(rng.randint(1, 4))]
        base, pool = pool, lambda: rng.choice(vals)
    p = rng.choice([0, 0, 0.1, 0.5, 1.0])
    return [None if rng.random() < p else pool() for _ in range(n)]


class Data:
    def __init__(self, rng):
        self.rng = rng
        self.tables = []
        for i in range(rng.randint(1, 3)):
            t = Table("s2" if rng.random() < 0.25 else "", rng.choice([f"t{i}", f"t{i}", f"My T{i}"]))
            for c in rng.sample(["id", "x", "my col", "Order", "val", "n"], rng.randint(1, 3)):
                t.cols.append(c)
                t.types[c] = rng.choice(TYPES)
            self.tables.append(t)

    def create(self, ex):
        ex("CREATE SCHEMA IF NOT EXISTS s2")
        for t in self.tables:
            ex(f"CREATE TABLE {t.qname()} (" + ", ".join(f"{q(c)} {t.types[c]}" for c in t.cols) + ")")
            self.change(ex, t)
        # namesakes in the other schema
        for t in list(self.tables):
            if self.rng.random() < 0.3:
                o = Table("" if t.schema else "s2", t.name)
                if any(x.name == o.name and x.schema == o.schema for x in self.tables):
                    continue
                o.cols, o.types = list(t.cols), dict(t.types)
                ex(f"CREATE TABLE {o.qname()} (" + ", ".join(f"{q(c)} {o.types[c]}" for c in o.cols) + ")")
                self.tables.append(o)
                self.change(ex, o)

    def change(self, ex, t):
        rng = self.rng
        if rng.random() < 0.5:
            ex(f"DELETE FROM {t.qname()}")
        n = rng.choice([0, 1, 2, 5, 12, 30, 60])
        cols = [column_values(rng, t.types[c], n) for c in t.cols]
        for row in zip(*cols):
            ex(f"INSERT INTO {t.qname()} VALUES (" + ", ".join("?" * len(row)) + ")", list(row))


def judge_mcv(mon, got, values, k, where, payload):
    mon.count("mcv")
    full = Counter(values)
    pairs = list(got)
    mon.check(all(full.get(v) == n for v, n in pairs) and len({repr(v) for v, _ in pairs}) == len(pairs), "mcv-frequencies", lambda: f"most common values of {where}: {pairs}, true frequencies {full}", payload())
    with_null = any(v is None for v, _ in pairs)
    ok = False
    for counts in ([full] if with_null else [Counter({v: n for v, n in full.items() if v is not None}), full]):
        order = sorted(counts.values(), reverse=True)
        want = order if k is None or k < 0 else order[:k]
        ok = ok or [n for _, n in pairs] == want
    mon.check(ok, "mcv-top", lambda: f"the {k} most common values of {where}: {pairs}, true frequencies {full}", payload())
    nn = [(n, v) for v, n in pairs if v is not None]
    mon.check(nn == sorted(nn, reverse=True), "mcv-order", lambda: f"most common values of {where} are not in descending order: {pairs}", payload())
    mon.check(got.k == len(got) == len(pairs) and (not pairs or (got.max_freq, got.min_freq) == (pairs[0][1], pairs[-1][1])), "mcv-summary", lambda: f"{pairs}: k={got.k} min={got.min_freq} max={got.max_freq}", payload())
    for v in list(full)[:3]:
        listed = dict(pairs).get(v)
        mon.check(got.frequency_of(v) == listed and got.frequency_of(v, default=-3) == (listed if listed is not None else -3)
                  and got.frequency_of(v, bound_missing=True) == (listed if listed is not None else got.min_freq) and (v in got) == (listed is not None), "mcv-lookup", lambda: f"frequency_of({v!r}) in {pairs}: {got.frequency_of(v)}", payload())


def numeric(v):
    return isinstance(v, (int, float, datetime.date, datetime.datetime)) and not isinstance(v, bool)


def judge_histogram_probe(mon, rng, h, bounds, freqs, lower, strategy, probe, payload, truth=None):
    """documented estimates from the buckets (lower, b0], (b0, b1], ..."""
    total = sum(freqs)
    mon.count("hist-probes")
    aligned = probe in bounds or probe < lower or probe > bounds[-1]
    try:
        below, above = h.frequency_below(probe), h.frequency_above(probe)
    except ValueError:
        mon.check(strategy == "approx-uni" and not numeric(probe) and not aligned, "hist-refused", lambda: f"estimate for {probe!r} refused", payload())
        return
    if probe < lower:
        want = (0, total)
    elif probe >= bounds[-1]:
        want = (total, 0)
    else:
        i = bisect.bisect_left(bounds, probe)
        done, cur = sum(freqs[:i]), freqs[i]
        if probe == bounds[i]:
            want = (done + cur, total - done - cur)
        elif strategy == "bound":
            want = (done + cur, total - done)
        else:
            lo = bounds[i - 1] if i else lower
            frac = (probe - lo) / (bounds[i] - lo)
            want = (done + frac * cur, total - done - frac * cur)
    close = lambda a, b: abs(a - b) <= 1e-6 * max(1, abs(b)) + 1e-9
    mon.check(close(below, want[0]), "hist-below", lambda: f"frequency_below({probe!r}) = {below}, expected {want[0]} ({strategy}, {list(zip(bounds, freqs))}, lower {lower!r})", payload())
    mon.check(close(above, want[1]), "hist-above", lambda: f"frequency_above({probe!r}) = {above}, expected {want[1]} ({strategy}, {list(zip(bounds, freqs))}, lower {lower!r})", payload())
    if truth is not None and strategy == "bound":
        n_below, n_above = sum(v <= probe for v in truth), sum(v > probe for v in truth)
        mon.check(below >= n_below - 1e-9 and above >= n_above - 1e-9, "hist-bound", lambda: f"{probe!r}: {below} / {above}, but {n_below} values are below and {n_above} above", payload())
    mon.ok(("hist", strategy, aligned, type(probe).__name__))


def probes(rng, bounds, lower):
    out = [lower, bounds[0], bounds[-1], rng.choice(bounds)]
    for a, b in [(lower, bounds[0])] + [(bounds[i], bounds[i + 1]) for i in range(len(bounds) - 1)]:
        if isinstance(a, bool) or isinstance(a, str):
            if isinstance(a, str):
                out.append(a + "\x01")
            continue
        if isinstance(a, (int, float, decimal.Decimal)):
            out.append((a + b) / 2 if not isinstance(a, int) or rng.random() < 0.5 else (a + b) // 2)
        else:
            out.append(a + (b - a) / rng.choice([2, 3]))
    if isinstance(lower, (int, float, decimal.Decimal)) and not isinstance(lower, bool):
        out += [lower - 1, bounds[-1] + 1]
    elif isinstance(lower, datetime.date):
        out += [lower - datetime.timedelta(days=2), bounds[-1] + datetime.timedelta(days=2)]
    rng.shuffle(out)
    return out[:10]


def judge_histogram(mon, rng, h, values, n_bins, strategy, where, payload):
    mon.count("histograms")
    vals = sorted(v for v in values if v is not None)
    if not vals:
        mon.check(h is None, "hist-empty", lambda: f"histogram of the empty column {where}: {h}", payload())
        return
    mon.check(h is not None, "hist-missing", lambda: f"no histogram for {where}", payload())
    bounds, freqs = h.bounds, [n for _, n in h]
    mon.check(all(a < b for a, b in zip(bounds, bounds[1:])), "hist-order", lambda: f"bounds of {where}: {bounds}", payload())
    mon.check(h.lower == vals[0] and h.upper == vals[-1], "hist-range", lambda: f"histogram of {where} covers {h.lower!r} to {h.upper!r}, the values {vals[0]!r} to {vals[-1]!r}", payload())
    mon.check(h.n_rows == len(vals) == sum(freqs), "hist-rows", lambda: f"histogram of {where} represents {h.n_rows} rows instead of {len(vals)}", payload())
    prev = 0
    for b, n in zip(bounds, freqs):
        upto = bisect.bisect_right(vals, b)
        mon.check(n == upto - prev, "hist-frequency", lambda: f"bucket up to {b!r} of {where} has {n} rows instead of {upto - prev}", payload())
        prev = upto
    mon.check(len(bounds) == h.n_buckets == len(h), "hist-buckets", lambda: f"{len(bounds)} buckets of {where}", payload())
    # equi-depth: no bucket can be split further without falling below its share
    share = len(vals) // n_bins
    heavy = max(Counter(vals).values())
    mon.check(all(n <= max(share, 1) + heavy + 1 for n in freqs), "hist-depth", lambda: f"{n_bins} bins for {len(vals)} values of {where}: {freqs}", payload())
    for p in probes(rng, bounds, h.lower):
        judge_histogram_probe(mon, rng, h, bounds, freqs, h.lower, strategy, p, payload, truth=vals)


def stats_history(kind):
    def scenario(mon, rng):
        root = workspace(mon, rng, kind)
        cwd = os.getcwd()
        os.chdir(root)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                run_stats(mon, rng, kind, root)
        finally:
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)
    scenario.__name__ = f"stats_{kind}"
    return scenario


def run_stats(mon, rng, kind, root):
    path = root / "x.db"
    data = Data(rng)
    if kind == "duck":
        iface = duckdb.DuckDBInterface(path)
        con = iface.cursor()
        own = con.cursor() if hasattr(con, "cursor") else con
    else:
        engine = quacklab.connect(str(path))
        con = own = engine.cursor()
        server = fakes.Server(lambda sql, params: engine.execute(sql).fetchall(), dbname="x", version="16.4" if kind == "pg" else "8.0.3")
        with (server.psycopg() if kind == "pg" else server.mysqlconnector()):
            iface = postgres.PostgresInterface("dbname=x", cache_enabled=False) if kind == "pg" else mysql.MysqlInterface(mysql.MysqlConnectionArguments("u", "x"), cache_enabled=False)
    data.create(con.execute)
    stats = iface.statistics()
    fallback = kind == "duck" and not stats.emulated
    caching = rng.choice([False, None, True, False])
    stats.cache_enabled = caching
    log = [("cache", caching)]
    first = {}
    for step in range(rng.randint(15, 30)):
        t = rng.choice(data.tables)
        payload = lambda: {"log": log[-30:], "kind": kind}
        if rng.random() < 0.2:
            data.change(con.execute, t)
            log.append(("change", t.qname()))
            mon.count("after-change")
            continue
        c = rng.choice(t.cols)
        col = rng.choice([t.col(c), ColumnReference(c, t.ref())])
        values = [r[0] for r in own.execute(f"SELECT {q(c)} FROM {t.qname()}").fetchall()]
        if rng.random() < 0.1:
            missing = rng.choice({"duck": ["distinct", "minmax", "mcv", "hist"], "pg": ["minmax"], "mysql": ["minmax", "mcv", "hist"]}[kind])
            ask = {"distinct": stats.num_distinct, "minmax": stats.min_max, "mcv": stats.most_common_values, "hist": stats.histogram}[missing]
            stats.enable_emulation_fallback = False
            try:
                mon.raises(lambda: ask(col, emulated=False), "no-fallback", f"native {missing} of {kind} without emulation", UnsupportedDatabaseFeatureError)
            finally:
                stats.enable_emulation_fallback = True
            mon.count("no-fallback")
            continue
        what = rng.choice(["rows", "distinct", "minmax", "mcv", "hist"])
        emulated = rng.choice([True, True, None]) if not fallback or what in ("distinct", "minmax", "mcv") else True
        if what == "hist" and kind != "duck" or what == "rows" and kind == "mysql":
            emulated = True
        local = rng.choice([None, None, False]) if emulated else None
        cached = caching if local is None else local
        kw = {} if local is None else {"cache_enabled": local}
        if emulated is not None:
            kw["emulated"] = emulated
        k = rng.choice([None, -1, 1, 2, 3, 10]) if what == "mcv" else None
        log.append((what, t.qname(), c, str(kw), k))
        where = f"{t.qname()}.{q(c)}"
        key = (what if what not in ("mcv", "hist") else what, t.qname(), c if what != "rows" else "", (k if k is not None and k > 0 else None) if what == "mcv" else None)
        if cached:
            values = first.setdefault(key, values)
        mon.count("stats")
        mon.count(f"{kind}-stats")
        mon.count("null-columns", None in values)
        nn = [v for v in values if v is not None]
        if what == "rows":
            got = stats.total_rows(t.ref(), **kw)
            mon.check(got == len(values), "total-rows", lambda: f"total_rows({t.qname()}) = {got}, the table has {len(values)}", payload())
        elif what == "distinct":
            got = stats.num_distinct(col, **kw) if rng.random() < 0.8 else stats.distinct_values(col, **kw)
            mon.check(got == len(set(nn)), "distinct", lambda: f"num_distinct({where}) = {got}, the column has {len(set(nn))}", payload())
        elif what == "minmax":
            got = stats.min_max(col, **kw)
            want = (min(nn), max(nn)) if nn else (None, None)
            mon.check(got is None and not nn or got is not None and tuple(got) == want, "min-max", lambda: f"min_max({where}) = {got}, expected {want}", payload())
        elif what == "mcv":
            got = stats.most_common_values(col, k=k, **kw)
            judge_mcv(mon, got, values, k, where, payload)
        else:
            n_bins = rng.choice([1, 2, 3, 5, 10, 50])
            strategy = rng.choice(["bound", "approx-uni"])
            h = stats.histogram(col, n_bins=n_bins, interpolation=strategy, **kw)
            judge_histogram(mon, rng, h, values, n_bins, strategy, where, payload)
        mon.ok((kind, what, t.types[c], caching, local, emulated, len(values) == 0, None in values))
    ex = getattr(iface, "_timeout_executor", None)
    if hasattr(ex, "shutdown"):
        ex.shutdown(wait=False)
    if kind != "duck":
        engine.close()


def containers(mon, rng):
    """histograms and value lists as plain data structures"""
    kind = rng.choice(["int", "float", "date", "ts", "str", "dec"])
    mk = {"int": lambda: rng.randint(-50, 200), "float": lambda: round(rng.uniform(-5, 5), 3), "date": lambda: datetime.date(2000, 1, 1) + datetime.timedelta(days=rng.randint(0, 400)),
          "ts": lambda: datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=rng.randint(0, 10 ** 6)), "str": lambda: "".join(rng.choice("abcxyz") for _ in range(rng.randint(1, 4))), "dec": lambda: decimal.Decimal(rng.randint(-999, 999)) / 10}[kind]
    bounds = sorted({mk() for _ in range(rng.randint(1, 9))})
    lower = bounds[0] if rng.random() < 0.3 else min(mk(), bounds[0])
    freqs = [rng.choice([0, 1, 2, 10, rng.randint(0, 1000)]) for _ in bounds]
    if rng.random() < 0.3:
        freqs = [rng.randint(1, 50)] * len(bounds)
    strategy = rng.choice(["bound", "approx-uni"])
    payload = lambda: {"bounds": repr(bounds), "freqs": freqs, "lower": repr(lower), "strategy": strategy}
    if rng.random() < 0.2:
        h = Histogram(iter(bounds), iter(freqs), lower=lower)
        h.bucket_interpolation = strategy
    else:
        h = Histogram(bounds, freqs, lower=lower, bucket_interpolation=strategy)
    mon.check(h.bounds == bounds and [tuple(x) for x in h] == list(zip(bounds, freqs)) and h.n_rows == sum(freqs) and h.lower == lower and h.upper == bounds[-1] and h.n_buckets == len(h) == len(bounds), "hist-content", lambda: f"{h}", payload())
    mon.check(all(h[i] == (bounds[i], freqs[i]) for i in range(len(bounds))), "hist-getitem", lambda: f"{h}", payload())
    if h.n_rows:
        for p in probes(rng, bounds, lower):
            judge_histogram_probe(mon, rng, h, bounds, freqs, lower, strategy, p, payload)
    mon.raises(lambda: Histogram([], [], lower=lower), "hist-no-buckets", "a histogram without buckets was accepted", exc=ValueError)
    mon.raises(lambda: Histogram(bounds, freqs + [1], lower=lower), "hist-mismatch", "a histogram with more frequencies than buckets was accepted", exc=ValueError)
    other = Histogram(bounds, [f + 1 for f in freqs], lower=lower, bucket_interpolation=strategy)
    mon.check(h == Histogram(bounds, freqs, lower=lower, bucket_interpolation=strategy) and h != other, "hist-equality", lambda: f"{h}", payload())
    vals = [mk() for _ in range(rng.randint(0, 30))]
    pairs = list(Counter(vals).items())
    rng.shuffle(pairs)
    got = MostCommonValues(iter(pairs) if rng.random() < 0.5 else pairs)
    judge_mcv(mon, got, vals, None, "a list", payload)
    full = list(got)
    k = rng.randint(0, len(full) + 2)
    mon.check(list(got.top(k)) == full[:k] and list(got.below(k)) == full[k:], "mcv-split", lambda: f"top/below {k} of {full}: {got.top(k)} / {got.below(k)}", payload())
    mon.check(list(got.values) == [v for v, _ in full] and list(got.frequencies) == [n for _, n in full] and bool(got) == bool(full), "mcv-lists", lambda: f"{got.values} {got.frequencies}", payload())
    mon.ok(("container", kind, strategy, len(bounds) > 3))


SCENARIOS = [Scenario(schema_live, quick=140, thorough=3000, cpu=90), Scenario(schema_std, quick=120, thorough=3000, cpu=90), Scenario(stats_history("duck"), quick=180, thorough=4000, cpu=90, name="stats-duck"),
             Scenario(stats_history("pg"), quick=80, thorough=1500, cpu=90, name="stats-pg"), Scenario(stats_history("mysql"), quick=80, thorough=1500, cpu=90, name="stats-mysql"), Scenario(containers, quick=400, thorough=10000, cpu=30)]
