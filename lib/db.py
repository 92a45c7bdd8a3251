"""DuckDB fixtures: a fixed small schema, random instances, result normalisation and comparison."""
from __future__ import annotations

import datetime
import decimal
import math
import random

import quacklab

# table -> (columns [(name, type)], primary key, foreign keys {col: (table, col)})
SCHEMA: dict[str, dict] = {
    "users": dict(cols=[("id", "int"), ("age", "int"), ("score", "num"), ("name", "text"), ("joined", "date")],
                  pk=["id"], fk={}),
    "posts": dict(cols=[("id", "int"), ("owner_id", "int"), ("views", "int"), ("title", "text"), ("closed", "bool")],
                  pk=["id"], fk={"owner_id": ("users", "id")}),
    "votes": dict(cols=[("id", "int"), ("post_id", "int"), ("user_id", "int"), ("kind", "int"), ("day", "date")],
                  pk=["id"], fk={"post_id": ("posts", "id"), "user_id": ("users", "id")}),
    "tags": dict(cols=[("id", "int"), ("post_id", "int"), ("label", "text"), ("weight", "num")],
                 pk=["id"], fk={"post_id": ("posts", "id")}),
    "badges": dict(cols=[("id", "int"), ("user_id", "int"), ("name", "text"), ("class", "int"), ("gold", "bool")],
                   pk=["id"], fk={"user_id": ("users", "id")}),
    "links": dict(cols=[("post_id", "int"), ("related_id", "int"), ("kind", "int")],
                  pk=["post_id", "related_id"], fk={"post_id": ("posts", "id"), "related_id": ("posts", "id")}),
    "Odd Table": dict(cols=[("select", "int"), ("Mixed Case", "text"), ("group", "int"), ("amount", "num")],
                      pk=[], fk={}),
}
SQLTYPE = {"int": "INTEGER", "num": "DOUBLE", "text": "VARCHAR", "bool": "BOOLEAN", "date": "DATE"}
TEXTS = ["a", "b", "ab", "AB", "abc", "it's", "", "50%", "x_y", "a b", "ä", "--", "/*x*/", "null", "b;c", '"q"']


def q(ident: str) -> str:
    import re
    if re.fullmatch(r"[a-z_][a-z0-9_]*", ident) and ident not in {"select", "group", "order", "user", "table"}:
        return ident
    return '"' + ident.replace('"', '""') + '"'


def random_value(rng: random.Random, typ: str, null=0.15):
    if rng.random() < null:
        return None
    if typ == "int":
        return rng.randint(-2, 6)
    if typ == "num":
        return rng.randint(-8, 24) / 4
    if typ == "text":
        return rng.choice(TEXTS)
    if typ == "bool":
        return rng.random() < 0.5
    if typ == "date":
        return datetime.date(2020, 1, 1) + datetime.timedelta(days=rng.randint(0, 6))
    raise ValueError(typ)


def create_tables(con, schema=SCHEMA, constraints=False):
    for t, d in schema.items():
        cols = [f"{q(c)} {SQLTYPE[ty]}" for c, ty in d["cols"]]
        if constraints:
            cols += [f"UNIQUE ({q(c)})" for c in d.get("unique", ())]
            if d["pk"]:
                cols.append("PRIMARY KEY (" + ", ".join(q(c) for c in d["pk"]) + ")")
            for c, (rt, rc) in d["fk"].items():
                cols.append(f"FOREIGN KEY ({q(c)}) REFERENCES {q(rt)} ({q(rc)})")
        con.execute(f"CREATE TABLE {q(t)} ({', '.join(cols)})")


def fill_random(con, rng: random.Random, schema=SCHEMA, max_rows=7, respect_fk=False):
    data = {}
    for t, d in schema.items():
        n = rng.choice([0, 1, 3, max_rows, max_rows, max_rows]) if not respect_fk else rng.randint(max_rows // 2, max_rows)
        rows = []
        seen = set()
        for i in range(n):
            row = []
            for c, ty in d["cols"]:
                if c == "id":
                    row.append(i)
                elif respect_fk and c in d["fk"]:
                    rt, rc = d["fk"][c]
                    ref = [r[[x for x, _ in schema[rt]["cols"]].index(rc)] for r in data[rt]]
                    row.append(rng.choice(ref) if ref and (c in d["pk"] or rng.random() > 0.1) else None)
                else:
                    row.append(random_value(rng, ty))
            if d["pk"]:
                idx = [[x for x, _ in d["cols"]].index(c) for c in d["pk"]]
                key = tuple(row[i] for i in idx)
                if respect_fk and (key in seen or None in key):
                    continue
                seen.add(key)
            rows.append(tuple(row))
        data[t] = rows
        if rows:
            con.executemany(f"INSERT INTO {q(t)} VALUES ({', '.join('?' * len(d['cols']))})", rows)
    return data


def make_instances(seed, n=3, schema=SCHEMA):
    cons = []
    for i in range(n):
        rng = random.Random(f"db/{seed}/{i}")
        con = quacklab.connect(":memory:")
        con.execute("SET threads = 1")
        create_tables(con, schema)
        # instance 0 is guaranteed to be dense, so that wrong results cannot hide behind empty tables
        if i == 0:
            data = {}
            for t, d in schema.items():
                rows = [tuple(j if c == "id" else random_value(rng, ty, 0.12) for c, ty in d["cols"]) for j in range(8)]
                con.executemany(f"INSERT INTO {q(t)} VALUES ({', '.join('?' * len(d['cols']))})", rows)
        else:
            fill_random(con, rng, schema)
        cons.append(con)
    return cons


def norm_value(v):
    if v is None:
        return ("0",)
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float, decimal.Decimal)):
        f = float(v)
        if math.isnan(f):
            return ("n", "nan")
        if math.isinf(f):
            return ("n", "inf" if f > 0 else "-inf")
        if isinstance(v, int) and abs(v) > 2 ** 52:
            return ("n", str(v))
        return ("n", float(f"{f:.9g}") + 0.0)
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(norm_value(x) for x in v)
    if isinstance(v, datetime.datetime):
        return ("d", v.isoformat())
    if isinstance(v, datetime.date):
        return ("d", datetime.datetime(v.year, v.month, v.day).isoformat())
    return ("s", str(v))


def norm_rows(rows, ordered=False):
    out = [tuple(norm_value(v) for v in r) for r in rows]
    return out if ordered else sorted(out, key=repr)


class SqlError(Exception):
    pass


def run(con, sql, ordered=False, limit=4000):
    """Execute; returns normalised rows. Raises SqlError for database errors."""
    try:
        rows = con.execute(sql).fetchmany(limit)
    except quacklab.Error as e:
        raise SqlError(str(e)) from None
    return norm_rows(rows, ordered)


def postbound_db(path, rng=None, schema=SCHEMA, constraints=True, max_rows=7, populate=True):
    """A DuckDB file with the schema (and random referentially intact data), opened through PostBOUND."""
    import postbound as pb
    from postbound import duckdb as pbduck

    con = quacklab.connect(str(path))
    create_tables(con, schema, constraints)
    data = {}
    if populate:
        data = fill_random(con, rng or random.Random(0), schema, max_rows=max_rows, respect_fk=True)
    con.close()
    iface = pbduck.connect(str(path), name=f"db{path}", refresh=True, private=True)
    return iface, data
