"""P23: generated queries against the schema graph, the column domains, and independently recovered placeholder values."""
import collections
import itertools
import json
import os
import pathlib
import random
import re
import warnings

import quacklab

warnings.filterwarnings("ignore", category=DeprecationWarning)

import postbound as pb
from postbound import TableReference, qal
from postbound.experiments import ceb, querygen
from postbound.parser import parse_query

from lib import db as dbl
from lib.vlib import Scenario

PROPERTY = "P23"
TECHNIQUE = ("online monitors over the streams of both generators on live DuckDB databases with generated schemas: every query is re-read and judged against the declared foreign keys, configured limits and current column values; placeholder values are "
             "recovered from the generated text and looked up in independently executed candidate queries; non-termination is caught by CPU watchdogs")
RULE = ("random schemas (1-7 tables in 1-3 components, parallel/self/composite foreign keys, odd names, all column types, empty columns and tables) x random generator configurations; random templates with 1-5 predicates (lists, SQL, dependencies, "
        "weights, IN, LIKE, tuples), distinct by configuration class x shape")
ASSUMPTIONS = ["configurations that cannot be satisfied may raise ValueError right away, but must not be satisfiable", "NULL is no filter constant", "columns without values cannot be filtered, so fewer filters are fine if they were selected",
               "templates use one generator per placeholder and values without placeholder markers", "only DuckDB databases (sampling of large Postgres tables is not exercised)"]
LEVEL_NOTE = "all queries of seeded generator runs judged online"
REQUIRE = {"shared-dependencies": 60, "queries": 1600, "joins": 1700, "filters": 3200, "one-filter": 300, "no-filter": 500, "max-tables": 400, "disconnected": 400, "quoted": 300, "numeric": 400, "no-keys": 400, "ignored": 350, "executed": 800, "infeasible": 8,
           "template-queries": 1200, "list-values": 1300, "sql-values": 1300, "in-values": 500, "like-values": 250, "dependent-values": 500, "weighted": 700, "tuples": 500, "distribution": 40, "workloads": 20, "persisted": 20, "redraw": 230}
DATE_TYPES = {"date"}


# --- random schemas -------------------------------------------------------------------------------------------------------

def random_schema(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7])
    odd = rng.random() < 0.35
    names = ["users", "posts", "votes", "tags", "badges", "links", "notes"]
    if odd:
        names[rng.randrange(3)] = "Odd Table"
        names[3 + rng.randrange(3)] = "order"
    rng.shuffle(names)
    n_comp = rng.choice([1, 1, 1, 2, 3])
    comp, schema = {}, {}
    for t in names[:n]:
        c = rng.randrange(n_comp)
        peers = [x for x in comp if comp[x] == c]
        comp[t] = c
        cols, fk, unique = [("id", "int")], {}, []
        if rng.random() < 0.4:
            cols.append(("code", "int"))
            unique.append("code")
        for p in rng.sample(peers, min(len(peers), rng.choice([1, 1, 1, 2, 3]))) if peers else []:
            for k in range(rng.choice([1, 1, 1, 2])):
                col = f"{p.split()[0].lower()}_{k}" if not odd or rng.random() < 0.7 else f"Ref {p} {k}"
                cols.append((col, "int"))
                fk[col] = (p, "code" if schema[p]["unique"] and rng.random() < 0.5 else "id")
        if rng.random() < 0.1:
            cols.append(("parent", "int"))
            fk["parent"] = (t, "id")
        for ty in rng.sample(["int", "num", "text", "bool", "date", "text"], rng.choice([0, 1, 2, 3, 4])):
            base = {"int": "amount", "num": "score", "text": "label", "bool": "flag", "date": "day"}[ty]
            name = base if not odd or rng.random() < 0.6 else {"amount": "select", "label": "Mixed Case"}.get(base, base)
            if name not in dict(cols):
                cols.append((name, ty))
        schema[t] = {"cols": cols, "pk": ["id"], "fk": fk, "unique": unique}
    return schema


def fill(con, rng, schema):
    """referentially intact data with empty tables and columns without values"""
    data = {}
    for t, d in schema.items():
        refd = any(r == t for o in schema.values() for r, _ in o["fk"].values())
        n = rng.choice([0, 1, 5, 8]) if not refd else rng.choice([1, 4, 8])
        empty = {c for c, _ in d["cols"] if c not in ("id", "code") and rng.random() < 0.06}
        single = {c: rng.random() < 0.1 for c, _ in d["cols"]}
        const = {c: dbl.random_value(rng, ty, 0) for c, ty in d["cols"]}
        rows = []
        for i in range(n):
            row = []
            for c, ty in d["cols"]:
                if c == "id":
                    row.append(i)
                elif c in d["unique"]:
                    row.append(7 * i + 100)
                elif c in empty:
                    row.append(None)
                elif c in d["fk"]:
                    rt, rc = d["fk"][c]
                    k = [n for n, _ in schema[rt]["cols"]].index(rc)
                    ids = [r[k] for r in (data.get(rt) or [])] if rt != t else [r[k] for r in rows]
                    row.append(rng.choice(ids) if ids and rng.random() > 0.1 else None)
                elif single[c]:
                    row.append(const[c])
                else:
                    row.append(dbl.random_value(rng, ty, 0.15))
            rows.append(tuple(row))
        data[t] = rows
        for r in rows:
            con.execute(f"INSERT INTO {dbl.q(t)} VALUES ({', '.join('?' * len(r))})", r)
    return data


def make_db(mon, rng, schema):
    path = f"{mon.tmp}/g{rng.randrange(10**12)}.db"
    con = quacklab.connect(path)
    dbl.create_tables(con, schema, True)
    data = fill(con, rng, schema)
    con.close()
    return path, pb.duckdb.connect(path, name=path, refresh=True, private=True), data


def components(schema, without=()):
    adj = collections.defaultdict(set)
    for t, d in schema.items():
        for r, _ in d["fk"].values():
            if t not in without and r not in without:
                adj[t].add(r)
                adj[r].add(t)
    todo, res = [t for t in schema if t not in without], []
    while todo:
        seen, stack = set(), [todo[0]]
        while stack:
            x = stack.pop()
            if x not in seen:
                seen.add(x)
                stack += adj[x]
        res.append(seen)
        todo = [t for t in todo if t not in seen]
    return res, adj


def connected_subsets(tables, adj):
    for k in range(1, len(tables) + 1):
        for s in itertools.combinations(sorted(tables), k):
            seen, stack = set(), [s[0]]
            while stack:
                x = stack.pop()
                if x not in seen:
                    seen.add(x)
                    stack += [y for y in adj[x] if y in s]
            if len(seen) == k:
                yield s


NUMERIC = {"int", "num", "date"}


def random_queries(mon, rng):
    schema = random_schema(rng)
    path, iface, data = make_db(mon, rng, schema)
    cur = iface.cursor()
    comps, adj = components(schema)
    for _ in range(3):
        cfg = {}
        ignored = set()
        if rng.random() < 0.3 and len(schema) > 1:
            ignored = set(rng.sample(sorted(schema), rng.randint(1, len(schema) - 1)))
            cfg["ignore_tables"] = {TableReference(t) for t in ignored} | ({TableReference("elsewhere")} if rng.random() < 0.2 else set())
        comps, adj = components(schema, ignored)
        largest = max(map(len, comps))
        if rng.random() < 0.4:
            cfg["min_tables"] = rng.randint(1, largest + (rng.random() < 0.15))
        if rng.random() < 0.5:
            cfg["max_tables"] = rng.randint(cfg.get("min_tables", 1), len(schema) + 1)
        if rng.random() < 0.3:
            cfg["filter_key_columns"] = False
        if rng.random() < 0.3:
            cfg["numeric_filters"] = True
        if rng.random() < 0.4:
            cfg["max_filters"] = rng.choice([0, 1, 1, 2, 3, 6])
        if rng.random() < 0.4:
            cfg["min_filters"] = rng.randint(0, min(cfg.get("max_filters", 4), 4))
        if rng.random() < 0.4:
            cfg["count_star"] = rng.random() < 0.7
        usable = {t: [c for c, ty in d["cols"] if (cfg.get("filter_key_columns", True) or (c not in d["pk"] and c not in d["fk"])) and (not cfg.get("numeric_filters") or ty in NUMERIC)] for t, d in schema.items()}
        lo_t, hi_t = cfg.get("min_tables", 1), min(cfg.get("max_tables", 99), largest)
        lo_f = cfg.get("min_filters", 0)
        subsets = [s for c in comps for s in connected_subsets(c, adj) if lo_t <= len(s) <= hi_t]
        feasible = [s for s in subsets if sum(len(usable[t]) for t in s) >= lo_f]
        ctx = f"{cfg} on {json.dumps({t: [d['cols'], d['fk']] for t, d in schema.items()})}"
        if not feasible:
            # raising is the only way out; whether it is noticed before the first query is left open only for hidden dependencies between columns and tables
            total = sum(sorted([len(v) for t, v in usable.items() if t not in ignored], reverse=True)[:hi_t]) if hi_t >= lo_t else -1
            if not subsets or total < lo_f:
                mon.count("infeasible")
                mon.raises(lambda: next(querygen.generate_query(iface, **cfg)), "infeasible-config", f"no query can satisfy {ctx}", ValueError)
            continue
        if len(feasible) < len(subsets) * 0.02:
            continue
        gen = querygen.generate_query(iface, **cfg)
        shapes = set()
        for step in range(8):
            query = next(gen)
            shapes.add(judge_query(mon, rng, cur, query, schema, data, cfg, ignored, usable, lo_t, hi_t, lo_f, ctx))
            mon.count("disconnected", int(len(comps) > 1))
            mon.count("numeric", int(bool(cfg.get("numeric_filters"))))
            mon.count("no-keys", int(cfg.get("filter_key_columns") is False))
            mon.count("ignored", int(bool(ignored)))
        mon.ok(f"gen:{len(comps)}:{largest}:{sorted(cfg)}")
    iface.close()
    os.unlink(path)


def split_and(pred):
    if isinstance(pred, qal.CompoundPredicate) and pred.operation == qal.CompoundOperator.And:
        return [x for c in pred.children for x in split_and(c)]
    return [pred]


def judge_query(mon, rng, cur, query, schema, data, cfg, ignored, usable, lo_t, hi_t, lo_f, ctx):
    text = str(query)
    tables = [t.full_name for t in query.tables()]
    why = lambda: f"{text} generated for {ctx}"
    mon.count("queries")
    mon.count("quoted", int('"' in text))
    mon.check(all(not t.alias and not t.virtual for t in query.tables()) and set(tables) <= set(schema) and len(tables) == len(set(tables)), "tables", why)
    mon.check(not set(tables) & ignored, "ignored-table", why)
    mon.check(lo_t <= len(tables) <= hi_t, "table-count", lambda: f"{len(tables)} tables instead of {lo_t} to {hi_t}: {why()}")
    mon.count("max-tables", int(len(tables) == hi_t > 1))
    preds = split_and(query.where_clause.predicate) if query.where_clause else []
    joins, filters = [p for p in preds if p.is_join()], [p for p in preds if not p.is_join()]
    edges, seen = collections.defaultdict(set), set()
    for p in joins:
        ok = isinstance(p, qal.BinaryPredicate) and p.operation == qal.LogicalOperator.Equal and isinstance(p.first_argument, qal.ColumnExpression) and isinstance(p.second_argument, qal.ColumnExpression)
        mon.check(ok, "join-shape", why)
        a, b = p.first_argument.column, p.second_argument.column
        mon.check(schema[a.table.full_name]["fk"].get(a.name) == (b.table.full_name, b.name) or schema[b.table.full_name]["fk"].get(b.name) == (a.table.full_name, a.name), "join-foreign-key",
                  lambda: f"{p} is no foreign key: {why()}")
        edges[a.table.full_name].add(b.table.full_name)
        edges[b.table.full_name].add(a.table.full_name)
        pair = frozenset([a, b])
        mon.check(pair not in seen, "duplicate-join", why)
        seen.add(pair)
        mon.count("joins")
    reach, stack = set(), [tables[0]]
    while stack:
        x = stack.pop()
        if x not in reach:
            reach.add(x)
            stack += edges[x]
    mon.check(reach == set(tables), "cross-product", why)
    cols = []
    for p in filters:
        ok = isinstance(p, qal.BinaryPredicate) and isinstance(p.first_argument, qal.ColumnExpression) and isinstance(p.second_argument, qal.StaticValueExpression)
        mon.check(ok, "filter-shape", why)
        c, v = p.first_argument.column, p.second_argument.value
        cols.append(c)
        t = c.table.full_name
        mon.check(c.name in usable[t], "filter-column", lambda: f"{c} must not be filtered: {why()}")
        idx = [n for n, _ in schema[t]["cols"]].index(c.name)
        domain = [r[idx] for r in data[t] if r[idx] is not None]
        mon.check(any(type(x) is type(v) and x == v or str(x) == str(v) for x in domain), "filter-constant", lambda: f"{v!r} is no value of {c}, which has {domain}: {why()}")
        mon.count("filters")
        # the printed filter also has to select by that value
        got = cur.execute(f"SELECT COUNT(*) FROM {dbl.q(t)} WHERE {p}").fetchone()[0]
        op = {"=": lambda a, b: a == b, "<>": lambda a, b: a != b, ">": lambda a, b: a > b, "<": lambda a, b: a < b}
        mon.check(p.operation.value in op, "filter-operator", why)
        if not isinstance(v, str):
            mon.eq(got, sum(op[p.operation.value](x, v) for x in domain), "filter-meaning", f"rows of {p}")
    mon.check(len(cols) == len(set(cols)), "duplicate-filter", why)
    hi_f = min(cfg.get("max_filters", 99), sum(len(usable[t]) for t in tables))
    mon.check(len(filters) <= hi_f, "too-many-filters", lambda: f"{len(filters)} filters instead of at most {hi_f}: {why()}")
    empty = sum(all(r[[n for n, _ in schema[t]["cols"]].index(c)] is None for r in data[t]) for t in tables for c in usable[t])
    mon.check(len(filters) >= lo_f - empty, "too-few-filters", lambda: f"{len(filters)} filters instead of at least {lo_f}: {why()}")
    mon.count("one-filter", int(len(filters) == 1))
    mon.count("no-filter", int(not filters))
    select = text.split(" FROM ")[0].upper()
    mon.check(select == ("SELECT COUNT(*)" if cfg.get("count_star") else "SELECT *"), "projection", why)
    mon.check(len(list(query.clauses())) == (3 if query.where_clause else 2), "clauses", why)
    if rng.random() < 0.5:
        try:
            cur.execute(text).fetchall()
        except quacklab.InternalException:
            return None
        except quacklab.Error as e:
            mon.fail("invalid-query", f"{e}: {why()}")
        mon.count("executed")
    return None


# --- templates ------------------------------------------------------------------------------------------------------------

COLS = [("u.age", "int"), ("u.score", "num"), ("u.name", "text"), ("u.joined", "date"), ("p.views", "int"), ("p.title", "text"), ("p.closed", "bool"), ("p.id", "int"), ("tags.label", "text"), ("tags.weight", "num"), ("u.id", "int")]
SAMPLE_OPTS = {"int": [0, 1, 2, -1, 10], "num": [0.5, 1.25, -2.0, 3.0], "text": ["a", "ab", "it's", "50%", "x_y", "a b", "", "null", 'say "x"'], "date": ["2020-01-02", "2020-01-05"], "bool": [True, False]}


def lit(v, ty):
    if v is None:
        return "NULL"
    if ty in ("int", "num", "bool"):
        return str(v)
    return "'" + str(v).replace("'", "''") + "'"


class Template:
    """a template together with the independent reading of its predicates"""

    def __init__(self, rng, cur, risky=False):
        self.rng, self.risky = rng, risky
        self.preds, conds, used = [], [], 0
        # unqualified columns are only allowed for tables without alias
        n = rng.choice([1, 1, 2, 3, 4])
        unaliased = rng.random() < 0.5
        for i in range(n):
            kind = rng.choice(["list", "list", "sql", "sql", "sql", "tuple-list", "tuple-sql", "in-list", "in-sql", "like"])
            p = {"name": f"P{i}", "sampling": rng.choice(["uniform", "weighted"]), "deps": [], "kind": kind, "weights": None}
            m = rng.choice([2, 2, 3]) if kind.startswith("tuple") else 1
            pool = [c for c in COLS if (c[1] == "text") == (kind == "like") or kind != "like"]
            cols = rng.sample(pool, m)
            if kind.endswith("sql"):
                # candidate values come from one table
                tab = rng.choice(["u", "p", "tags"])
                pool = [c for c in COLS if c[0].split(".")[0] == tab]
                m = min(m, len(pool))
                cols = rng.sample(pool, m)
            ops = []
            for _, ty in cols:
                ops.append("IN" if kind.startswith("in-") else ("LIKE" if kind == "like" and rng.random() < 0.7 else "ILIKE") if kind == "like" else rng.choice(["=", "=", "<>", "<", ">", "<=", ">="]))
            keys = [f"K{i}{x}" for x in "abc"[:m]]
            p |= {"cols": cols, "ops": ops, "keys": keys}
            if kind.startswith("in-"):
                p["min"] = rng.choice([None, 1, 1, 2])
                p["max"] = rng.choice([None, None, 2, 3, 1]) if p["min"] != 2 else rng.choice([None, 2, 3])
            if kind in ("list", "like", "in-list"):
                opts = rng.sample(SAMPLE_OPTS[cols[0][1]], rng.randint(2, len(SAMPLE_OPTS[cols[0][1]])))
                if rng.random() < 0.4:
                    opts.append(opts[0])
                p["options"] = [[o] for o in opts]
                p["plain"] = True
            elif kind == "tuple-list":
                p["options"] = [[rng.choice(SAMPLE_OPTS[ty]) for _, ty in cols] for _ in range(rng.randint(2, 5))]
                p["plain"] = False
            else:
                self.sql_pred(p, i)
            if p["sampling"] == "weighted" and rng.random() < 0.6 and kind != "like":
                self.add_weights(p)
            self.preds.append(p)
            for (c, _), op, k in zip(cols, ops, keys):
                name = c
                if c.startswith("tags.") and unaliased:
                    name = c.split(".")[1]
                conds.append(f"{name} {op} <<{k}>>")
                if rng.random() < 0.15:
                    conds.append(f"({name} {op} <<{k}>> OR {name} IS NULL)")
            p["written"] = [c.split(".")[1] if c.startswith("tags.") and unaliased else c for c, _ in cols]
        rng.shuffle(conds)
        self.base = "SELECT COUNT(*) FROM users AS u, posts AS p, tags WHERE p.owner_id = u.id AND tags.post_id = p.id AND " + " AND ".join(conds)
        self.label = f"tpl{rng.randrange(10**6)}"

    def sql_pred(self, p, i):
        rng = self.rng
        tab = p["cols"][0][0].split(".")[0]
        frm = {"u": "users AS u", "p": "posts AS p", "tags": "tags"}[tab]
        conds = [f"{c} IS NOT NULL" for c, _ in p["cols"]]
        earlier = [q for q in self.preds if q["cols"] and not q["kind"] == "like"]
        if earlier and rng.random() < 0.7:
            for q in rng.sample(earlier, min(len(earlier), rng.choice([1, 1, 2]))):
                p["deps"].append(q["name"])
                for k, (c, ty), op in zip(q["keys"], q["cols"], q["ops"]):
                    if self.risky and c.split(".")[0] == tab:
                        conds.append(f"{c} {op} <<{k}>>")
                        if rng.random() < 0.3:
                            conds.append(f"{c} {op} <<{k}>>")
                    else:
                        # never removes candidates, but requires proper values
                        conds.append({"int": f"({c2(ty)} {op} <<{k}>> OR TRUE)", "num": f"({c2(ty)} {op} <<{k}>> OR TRUE)"}.get(ty, f"({c2(ty)} {op} <<{k}>> OR TRUE)"))
        p["sql"] = f"SELECT {', '.join(c for c, _ in p['cols'])} FROM {frm} WHERE {' AND '.join(conds)}"

    def add_weights(self, p):
        rng = self.rng
        w = len(p["cols"])
        pos = rng.choice([0, w]) if len(p["cols"]) > 0 else w
        if "options" in p:
            opts = [o for i, o in enumerate(p["options"]) if o not in p["options"][:i]]
            ws = [rng.choice([1, 2, 5, 1000]) for _ in opts]
            if len(opts) > 2 and not p["kind"].startswith("in-"):
                ws[rng.randrange(len(ws))] = 0
            p["options"] = [o[:pos] + [x] + o[pos:] for o, x in zip(opts, ws)]
            p["plain"] = False
        else:
            cols = [c for c, _ in p["cols"]]
            body = p["sql"].split(" FROM ", 1)[1]
            sel = cols[:pos] + ["COUNT(*)"] + cols[pos:]
            p["sql"] = f"SELECT {', '.join(sel)} FROM {body} GROUP BY {', '.join(cols)}"
        p["weights"] = pos

    def toml(self):
        out = [f'title = "{self.label}"', "", "[base_sql]", f"sql = '''{self.base}'''", 'table_aliases = { u = "users", p = "posts", tags = "" }', ""]
        order = self.preds[:]
        self.rng.shuffle(order)
        for p in order:
            br = self.rng.random() < 0.4
            out += ["[[predicates]]", f'name = "{p["name"]}"', f"keys = {json.dumps([f'<<{k}>>' if br else k for k in p['keys']])}", f"columns = {json.dumps(p['written'])}",
                    f"pred_type = {json.dumps(p['ops'] if len(p['ops']) > 1 or self.rng.random() < 0.6 else p['ops'][0])}", f'sampling_method = "{p["sampling"]}"', f'type = "{"sql" if "sql" in p else "list"}"']
            if p["deps"]:
                out.append(f"dependencies = {json.dumps(p['deps'])}")
            if "sql" in p:
                out.append(f"sql = '''{p['sql']}'''")
            else:
                out.append(f"options = {json.dumps([o[0] for o in p['options']] if p['plain'] else p['options'])}")
            if p["weights"] is not None:
                out.append(f"weights_column = {p['weights'] + 1}")
            if p.get("min"):
                out.append(f"min_samples = {p['min']}")
            if p.get("max"):
                out.append(f"max_samples = {p['max']}")
            out.append("")
        return "\n".join(out)

    def objects(self, iface):
        """the same template, built through the classes"""
        tpl = ceb.QueryTemplate(self.base, label=self.label, table_aliases={"u": "users", "p": "posts", "tags": ""}, db_connection=iface)
        order = self.preds[:]
        self.rng.shuffle(order)
        for p in order:
            kw = {"sql_query": p["sql"], "template_type": "sql"} if "sql" in p else {"template_type": "list", "list_allowed_values": [o[0] for o in p["options"]] if p["plain"] else [tuple(o) for o in p["options"]]}
            if p["deps"] or self.rng.random() < 0.5:
                kw["dependencies"] = p["deps"]
            if p.get("min"):
                kw["in_pred_min_samples"] = p["min"]
            if p.get("max"):
                kw["in_pred_max_samples"] = p["max"]
            if p["weights"] is not None:
                kw["count_column_idx"] = p["weights"] + 1
            tpl.register_generator(ceb.PredicateGenerator(p["name"], provided_keys=p["keys"], sampling_method=p["sampling"], target_columns=p["written"], pred_type=p["ops"], db_connection=iface, **kw))
        return tpl

    def recover(self, cur, text):
        """values of all placeholders, read from the generated query"""
        parts = re.split(r"<<(\w+)>>", self.base)
        keys = parts[1::2]
        types = {k: (ty, op) for p in self.preds for k, (_, ty), op in zip(p["keys"], p["cols"], p["ops"])}
        scalar = r"(?:'(?:[^']|'')*'|-?[\d.]+(?:e[+-]?\d+)?|True|False|TRUE|FALSE|NULL)"
        rx = "".join(re.escape(parts[i]) if i % 2 == 0 else (rf"(\({scalar}(?:, {scalar})*\))" if types[parts[i]][1] == "IN" else f"({scalar})") for i in range(len(parts)))
        m = re.fullmatch(rx, text.strip().removesuffix(";"))
        if not m:
            return None
        res = {}
        for k, raw in zip(keys, m.groups()):
            ty, op = types[k]
            items = re.findall(scalar, raw) if op == "IN" else [raw]
            vals = [self.value(cur, x, ty) for x in items]
            if k in res and res[k][0] != raw:
                return None
            res[k] = (raw, tuple(vals) if op == "IN" else vals[0])
        return res

    @staticmethod
    def value(cur, raw, ty):
        typ = {"int": "BIGINT", "num": "DOUBLE", "text": "VARCHAR", "date": "DATE", "bool": "BOOLEAN"}[ty]
        v = cur.execute(f"SELECT typeof({raw}), CAST({raw} AS {typ})").fetchone()
        if ty in ("text", "date") and v[0] not in ("VARCHAR", "STRING_LITERAL"):
            return ("wrong type", raw)
        return v[1]


def c2(ty):
    return {"int": "0", "num": "0.5", "text": "'x'", "date": "DATE '2020-01-01'", "bool": "TRUE"}[ty]


def normal(v, ty):
    if ty == "num" and v is not None:
        return float(v)
    if ty == "date":
        return str(v)
    return v


def judge_template(mon, cur, t, text):
    """every placeholder has a value, each value is a candidate of its predicate under the final values of its dependencies"""
    ctx = lambda: f"{text} generated for\n{t.toml_text}"
    mon.check("<<" not in text, "unfilled", ctx)
    vals = t.recover(cur, text)
    mon.check(vals is not None, "template-text", ctx)
    mon.count("template-queries")
    for p in t.preds:
        if "sql" in p:
            sql = p["sql"]
            for dep in p["deps"]:
                d = next(q for q in t.preds if q["name"] == dep)
                for k in d["keys"]:
                    sql = sql.replace(f"<<{k}>>", vals[k][0])
                mon.count("dependent-values")
            rows = [list(r) for r in cur.execute(sql).fetchall()]
            mon.count("sql-values")
        else:
            rows = p["options"]
            mon.count("list-values")
        if p["weights"] is not None:
            rows = [r[:p["weights"]] + r[p["weights"] + 1:] for r in rows if r[p["weights"]] > 0]
            mon.count("weighted")
        types = [ty for _, ty in p["cols"]]
        cands = {tuple(normal(x, ty) for x, ty in zip(r, types)) for r in rows}
        if p["kind"].startswith("in-"):
            got = [normal(x, types[0]) for x in vals[p["keys"][0]][1]]
            mon.count("in-values")
            mon.check(all((x,) in cands for x in got), "in-candidate", lambda: f"{got} for {p['name']}, candidates {sorted(cands, key=repr)}: {ctx()}")
            mon.check(len(got) == len(set(got)), "in-duplicates", lambda: f"{got} for {p['name']}: {ctx()}")
            mon.check((p.get("min") or 1) <= len(got) <= (p.get("max") or 10**6), "in-samples", lambda: f"{len(got)} values for {p['name']}: {ctx()}")
        elif p["kind"] == "like":
            got = vals[p["keys"][0]][1]
            mon.count("like-values")
            mon.check(isinstance(got, str) and len(got) >= 2 and got[0] == got[-1] == "%" and (got[1:-1],) in cands, "like-candidate", lambda: f"{got!r} for {p['name']}, candidates {sorted(cands)}: {ctx()}")
        else:
            got = tuple(normal(vals[k][1], ty) for k, ty in zip(p["keys"], types))
            mon.count("tuples", int(len(got) > 1))
            mon.check(got in cands, "candidate", lambda: f"{got} for {p['name']}, candidates {sorted(cands, key=repr)}: {ctx()}")
    try:
        cur.execute(text).fetchall()
    except quacklab.InternalException:
        return vals
    except quacklab.Error as e:
        mon.fail("invalid-template-query", f"{e}: {ctx()}")
    return vals


def satisfiable(cur, t):
    """predicates always find enough candidates, no matter what has been selected before"""
    for p in t.preds:
        if "sql" in p:
            sql = re.sub(r"\([^()]* <<\w+>> OR TRUE\)", "TRUE", p["sql"])
            if "<<" in sql:
                return False
            rows = [tuple(r) for r in cur.execute(sql).fetchall()]
        else:
            rows = [tuple(o) for o in p["options"]]
        if p["weights"] is not None:
            rows = [r[:p["weights"]] + r[p["weights"] + 1:] for r in rows if r[p["weights"]] > 0]
        if len(set(rows)) < (p.get("min") or 1):
            return False
    return True


def template_db(mon, rng):
    path = f"{mon.tmp}/t{rng.randrange(10**12)}.db"
    iface, data = dbl.postbound_db(path, rng, max_rows=10)
    return path, iface


def templates(mon, rng):
    path, iface = template_db(mon, rng)
    cur = iface.cursor()
    d = pathlib.Path(f"{mon.tmp}/d{rng.randrange(10**12)}")
    d.mkdir()
    for _ in range(3):
        t = Template(rng, cur, risky=rng.random() < 0.4)
        t.toml_text = t.toml()
        sure = satisfiable(cur, t)
        f = d / f"{t.label}.toml"
        f.write_text(t.toml_text)
        for step in range(3):
            try:
                if rng.random() < 0.5:
                    tpl = ceb._parse_template_toml(f, iface)
                else:
                    tpl = t.objects(iface)
                seen = set()
                for _ in range(rng.choice([1, 3])):
                    text = tpl.generate_raw_query()
                    judge_template(mon, cur, t, text)
                    seen.add(text)
                if rng.random() < 0.4:
                    q = tpl.generate_query()
                    mon.check(isinstance(q, qal.SqlQuery) and len(q.tables()) == 3, "parsed-template", lambda: str(q))
            except ceb.SamplingError as e:
                mon.check(not sure, "sampling-error", lambda: f"{e} for\n{t.toml_text}")
                mon.count("sampling-errors")
            mon.count("redraw", int(t.risky))
        mon.ok("tpl:" + ",".join(sorted(f"{p['kind']}/{p['sampling'][0]}/{p['weights']}/{len(p['deps'])}" for p in t.preds)))
        f.unlink()
    d.rmdir()
    iface.close()
    os.unlink(path)


def workloads(mon, rng):
    path, iface = template_db(mon, rng)
    cur = iface.cursor()
    d = pathlib.Path(f"{mon.tmp}/w{rng.randrange(10**12)}")
    d.mkdir()
    ts, n = {}, rng.choice([1, 2, 3])
    for _ in range(rng.choice([1, 2])):
        t = Template(rng, cur)
        t.toml_text = t.toml()
        if not satisfiable(cur, t):
            continue
        ts[t.label] = t
        (d / f"{t.label}.toml").write_text(t.toml_text)
    (d / "other.txt").write_text("no template")
    many = rng.random() < 0.2
    if many:
        n = 60
    try:
        raw = ceb.generate_raw_workload(d if rng.random() < 0.5 else str(d), queries_per_template=n, db_connection=iface)
    except ceb.SamplingError:
        # there might not be that many different queries
        mon.check(many or any(few(cur, t) for t in ts.values()), "workload-error", lambda: f"{n} queries of\n" + "\n".join(t.toml_text for t in ts.values()))
        raw = None
    if raw is not None:
        mon.eq(sorted(raw), sorted(f"{lab}-{i}" for lab in ts for i in range(1, n + 1)), "workload-labels", f"labels for {n} queries of {list(ts)}")
        mon.check(len(set(raw.values())) == len(raw), "workload-duplicates", lambda: f"{raw}")
        for lab, text in raw.items():
            judge_template(mon, cur, ts[lab.rsplit("-", 1)[0]], text)
        mon.count("workloads")
        out = d / "out"
        out.mkdir()
        wl = pb.workloads.Workload({k: parse_query(v, bind_columns=False) for k, v in raw.items()}, name="w")
        if rng.random() < 0.5:
            ceb.persist_workload(out, raw)
        else:
            ceb.persist_workload(str(out), wl)
        mon.count("persisted")
        mon.eq(sorted(f.name for f in out.iterdir()), sorted(f"{k}.sql" for k in raw), "persisted-files", "files of the workload")
        for f in out.iterdir():
            mon.check(parse_query(f.read_text(), bind_columns=False) == wl[f.stem], "persisted-query", lambda: f"{f.read_text()} instead of {raw[f.stem]}")
            f.unlink()
        out.rmdir()
    if not many and n <= 2 and not any(few(cur, t) for t in ts.values()) and ts:
        wl = ceb.generate_workload(d, queries_per_template=n, name="my workload", db_connection=iface)
        mon.check(wl.name == "my workload" and len(wl) == n * len(ts) and all(isinstance(q, qal.SqlQuery) for q in wl.queries()), "workload-object", lambda: f"{wl.name}: {len(wl)} queries")
    for f in d.iterdir():
        f.unlink()
    d.rmdir()
    mon.ok(f"workload:{len(ts)}:{n}")
    iface.close()
    os.unlink(path)


def few(cur, t):
    """few different queries exist"""
    total = 1
    for p in t.preds:
        if "sql" in p:
            rows = [tuple(r) for r in cur.execute(re.sub(r"\([^()]* <<\w+>> OR TRUE\)", "TRUE", p["sql"])).fetchall()]
            skewed = len(set(rows)) < len(rows) and p["sampling"] == "weighted" or p["weights"] is not None
        else:
            rows = [tuple(o) for o in p["options"]]
            skewed = p["weights"] is not None
        total *= 1 if skewed else len(set(rows))
    return total < 12


def distribution(mon, rng):
    """uniform sampling ignores how often a value occurs, weighted sampling follows the weights"""
    path, iface = template_db(mon, rng)
    cur = iface.cursor()
    cur.execute("CREATE TABLE heavy (v INTEGER, w INTEGER)")
    big, one, zero = rng.sample([1, 2, 3], 3)
    rows = [(big, 400), (one, 1), (zero, 1)]
    rng.shuffle(rows)
    for v, n in rows:
        cur.execute(f"INSERT INTO heavy SELECT {v}, {10**6 if v == big else 0 if v == zero else 1} FROM range({n})")
    via = rng.choice(["list", "sql"])
    sampling = rng.choice(["uniform", "weighted", "weighted-col"])
    op = rng.choice(["=", "IN"])
    kw = {"in_pred_max_samples": 1} if op == "IN" else {}
    if sampling == "weighted-col":
        pos = rng.choice([1, 2])
        kw["count_column_idx"] = pos
        order = (lambda v, w: (v, w)) if pos == 2 else (lambda v, w: (w, v))
        src = {"list_allowed_values": rng.sample([order(big, 10**6), order(one, 1), order(zero, 0)], 3)} if via == "list" else {"sql_query": f"SELECT DISTINCT {'v, w' if pos == 2 else 'w, v'} FROM heavy"}
    else:
        src = {"list_allowed_values": [v for v, n in rows for _ in range(n)]} if via == "list" else {"sql_query": "SELECT v FROM heavy"}
    tpl = ceb.QueryTemplate("SELECT COUNT(*) FROM heavy WHERE heavy.v " + op + " <<K>>", label="x", table_aliases={"heavy": ""}, db_connection=iface)
    tpl.register_generator(ceb.PredicateGenerator("P", provided_keys=["K"], template_type=via, sampling_method=sampling.split("-")[0], target_columns=["v"], pred_type=[op], db_connection=iface, **src, **kw))
    seen = collections.Counter()
    for _ in range(80):
        text = tpl.generate_raw_query()
        seen[int(re.search(r"\(?(\d+)\)?$", text).group(1))] += 1
    mon.count("distribution")
    ctx = f"{sampling} sampling from a {via} with {op}: {dict(seen)}"
    if sampling == "uniform":
        mon.check(all(seen[v] >= 5 for v in (1, 2, 3)), "uniform-sampling", lambda: ctx)
    else:
        mon.check(seen[big] >= 70 and (sampling != "weighted-col" or seen[zero] == 0), "weighted-sampling", lambda: ctx)
    mon.ok(f"dist:{sampling}:{via}:{op}")
    iface.close()
    os.unlink(path)


def shared_dependency(mon, rng):
    """predicates that share a dependency agree on its values, even if one of them forces new ones"""
    path = f"{mon.tmp}/s{rng.randrange(10**12)}.db"
    con = quacklab.connect(path)
    con.execute("CREATE TABLE users (id INTEGER PRIMARY KEY, age INTEGER, name VARCHAR)")
    ages = rng.randint(2, 6)
    usable = set(rng.sample(range(ages), rng.randint((ages + 1) // 2, ages - 1)))
    rows = [(i, i % ages, f"n{i}") for i in range(ages * rng.randint(1, 3))]
    con.executemany("INSERT INTO users VALUES (?, ?, ?)", rows)
    con.close()
    iface = pb.duckdb.connect(path, name=path, refresh=True, private=True)
    keys = ["K", "L", "M", "N"]
    cols = {"K": "u.age", "L": "u.id", "M": "u.name", "N": "u.id"}
    sql = {"L": "SELECT id FROM users WHERE age = <<K>>", "M": f"SELECT name FROM users WHERE age = <<K>> AND age IN ({', '.join(map(str, usable))})", "N": "SELECT id FROM users WHERE name = <<M>> AND age = <<K>>"}
    preds = {"K": dict(template_type="list", list_allowed_values=list(range(ages)))} | {k: dict(template_type="sql", sql_query=q, dependencies=["P" + x for x in "KM" if f"<<{x}>>" in q]) for k, q in sql.items()}
    tpl = ceb.QueryTemplate("SELECT * FROM users u WHERE " + " AND ".join(f"{cols[k]} = <<{k}>>" for k in keys), label="s", table_aliases={"u": "users"}, db_connection=iface)
    for k in rng.sample(keys, len(keys)):
        tpl.register_generator(ceb.PredicateGenerator("P" + k, provided_keys=[k], sampling_method="uniform", target_columns=[cols[k]], pred_type=["="], db_connection=iface, **preds[k]))
    for _ in range(6):
        try:
            text = tpl.generate_raw_query()
        except ceb.SamplingError:
            mon.count("gave-up")
            continue
        k, l, m, n = (re.search(rf"{re.escape(c)} = '?(\w+)", text[pos:]).group(1) for c, pos in (("u.age", 0), ("u.id", 0), ("u.name", 0), ("u.id", text.rindex("u.id"))))
        by_id = {r[0]: r for r in rows}
        mon.check(int(k) in usable and by_id[int(l)][1] == int(k) and (int(k), m) in {(r[1], r[2]) for r in rows} and by_id[int(n)][1:] == (int(k), m), "shared-dependency", lambda: f"{text}: usable ages {usable}, rows {rows}")
        mon.count("shared-dependencies")
    iface.close()
    os.unlink(path)
    mon.ok(f"shared:{ages}:{len(usable)}")


def contracts(mon, rng):
    """invalid templates are rejected"""
    path, iface = template_db(mon, rng)
    mk = lambda **kw: ceb.PredicateGenerator(**({"name": "P", "provided_keys": ["K"], "template_type": "list", "sampling_method": "uniform", "target_columns": ["u.age"], "pred_type": ["="], "list_allowed_values": [1, 2]} | kw))
    mon.raises(lambda: mk(provided_keys=["A", "B"], target_columns=["u.age", "u.id"], pred_type=["IN", "="]), "in-several-keys", "IN with several keys", ValueError)
    mon.raises(lambda: mk(provided_keys=["A", "B"]), "key-mismatch", "more keys than columns", ValueError)
    mon.raises(lambda: mk(template_type="sql"), "missing-sql", "sql predicate without query", ValueError)
    mon.raises(lambda: mk(list_allowed_values=None), "missing-list", "list predicate without values", ValueError)
    tpl = ceb.QueryTemplate("SELECT * FROM users u WHERE u.age = <<K>>", label="t", table_aliases={"u": "users"}, db_connection=iface)
    g = mk()
    mon.raises(lambda: g.fetch_value("K"), "no-value", "value before sampling", Exception)
    tpl.register_generator(g)
    mon.raises(lambda: tpl.register_generator(mk()), "duplicate-generator", "generator registered twice", KeyError)
    mon.raises(lambda: tpl.register_generator(mk(name="Q")), "duplicate-key", "key registered twice", KeyError)
    text = tpl.generate_raw_query()
    mon.check(g.fetch_value("K") in (1, 2) and g.selected_values() == {"K": g.fetch_value("K")} and text.endswith(f"= {g.fetch_value('K')}") and tpl.selected_values("P") == g.selected_values(), "selected-values", lambda: text)
    mon.check(g.column_for("K") == "u.age" and g.predicate_for("K") == "=" and list(g.placeholders) == ["K"], "generator-metadata", "")
    mon.raises(lambda: g.fetch_value("Z"), "unknown-key", "value of an unknown placeholder", KeyError)
    mon.raises(lambda: tpl.selected_values("Z"), "unknown-predicate", "values of an unknown predicate", KeyError)
    cyc = ceb.QueryTemplate("SELECT * FROM users u WHERE u.age = <<K>> AND u.id = <<L>>", label="c", table_aliases={"u": "users"}, db_connection=iface)
    cyc.register_generator(mk(dependencies=["Q"], template_type="sql", sql_query="SELECT age FROM users WHERE id = <<L>>"))
    cyc.register_generator(mk(name="Q", provided_keys=["L"], target_columns=["u.id"], dependencies=["P"], template_type="sql", sql_query="SELECT id FROM users WHERE age = <<K>>"))
    mon.raises(lambda: cyc.generate_raw_query(), "cyclic-template", "cyclic dependencies", ValueError)
    empty = ceb.QueryTemplate("SELECT * FROM users u WHERE u.age = <<K>>", label="e", table_aliases={"u": "users"}, db_connection=iface)
    empty.register_generator(mk(template_type="sql", sql_query="SELECT age FROM users WHERE id < -100", dependencies=[], db_connection=iface))
    mon.raises(lambda: empty.generate_raw_query(), "no-candidates", "query without candidates", ceb.SamplingError)
    mon.raises(lambda: ceb.generate_raw_workload(f"{mon.tmp}/missing", queries_per_template=1, db_connection=iface), "missing-directory", "", FileNotFoundError)
    iface.close()
    os.unlink(path)
    mon.ok("contracts")


SCENARIOS = [Scenario(random_queries, quick=144, thorough=4000, cpu=60, name="random-queries"), Scenario(templates, quick=136, thorough=4000, cpu=60, name="templates"), Scenario(workloads, quick=64, thorough=2000, cpu=60, name="workloads"),
             Scenario(distribution, quick=48, thorough=800, cpu=60, name="distribution"), Scenario(shared_dependency, quick=16, thorough=400, cpu=60, name="shared-dependency"), Scenario(contracts, quick=4, thorough=16, cpu=60, name="contracts")]
