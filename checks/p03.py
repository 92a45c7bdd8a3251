"""P03: query introspection equals what the text says, judged by an independent scope resolver."""
import os
import warnings

import networkx as nx
import postbound as pb
from postbound import duckdb, parser, qal

from lib import db, sqlgen, sqloracle as so
from lib.vlib import Scenario, HarnessError

PROPERTY = "P03"
TECHNIQUE = "online monitor comparing every introspection API with an independent scope resolver over a second parser's syntax tree"
RULE = ("random SELECT statements over the 7-table schema, parsed with live binding; tables, columns, filters, joins, subqueries, "
        "outputs and structural predicates of the query and of every subquery are compared with the resolver's; non-trivial "
        "when the query has at least two relations or a subquery; distinct by text")
ASSUMPTIONS = ["predicate comparison uses pglast's syntax tree of the printed predicate (printing is judged by P01)"]
REQUIRE = {"blocks": 800, "joins": 300, "filters": 500, "correlated": 30, "pairs": 500, "scopes": 500, "join-edges": 400, "wide-joins": 60, "schema-bindings": 300, "merged-self": 20}
DB = None
COLS = {t: [c for c, _ in d["cols"]] for t, d in db.SCHEMA.items()}
KNOWN = {}


TWINS = {(sch, name): [f"{name}{sch[-1]}{i}" for i in range(2)] + (["common"] if name != "gamma" else []) for sch in ("main", "one", "two") for name in ("alpha", "beta", "gamma")}
TWIN_DB = None


def setup(mon):
    global TWIN_DB
    TWIN_DB = duckdb.connect(mon.tmp + "/p03twins.duckdb", name="p03twins", private=True)
    for sch in ("one", "two"):
        TWIN_DB.cursor().execute(f"CREATE SCHEMA IF NOT EXISTS {sch}")
    for (sch, name), cols in TWINS.items():
        TWIN_DB.cursor().execute(f"CREATE TABLE IF NOT EXISTS {sch}.{name} ({', '.join(f'{c} INTEGER' for c in cols)})")
    global DB
    warnings.simplefilter("ignore")
    DB, _ = db.postbound_db(os.path.join(mon.tmp, "p03.duckdb"), constraints=False)


def table_key(t):
    return (*so.low((t.full_name, t.alias)), bool(t.virtual))


def deep_blocks(block):
    return list(block.all_blocks())


def base_tables(block):
    return {so.low((r.base, r.alias)) for b in deep_blocks(block) for r in b.rels if r.kind == "base"}


def virtual_names(block):
    out = set()
    b = block
    while b is not None:
        out |= {c.lower() for c in b.ctes} | {r.name.lower() for r in b.rels if r.kind != "base"}
        b = b.parent
    for b in deep_blocks(block):
        out |= {c.lower() for c in b.ctes} | {r.name.lower() for r in b.rels if r.kind != "base"}
    return out


def column_set(block):
    """(relation name, column) of all references; second set: references whose attribution is open (output names)."""
    sure, openrefs = set(), set()
    for b in deep_blocks(block):
        for rel, col, ctx in b.colrefs:
            if rel == "output":
                openrefs.add(col.lower())
            elif rel is None:
                openrefs.add(col.lower())
            else:
                sure.add((rel.name.lower(), col.lower()))
        for r in b.rels:
            if r.kind == "values":
                # the definition v (a, b) names its columns, whether they are used or not
                openrefs |= set(so.low(r.cols or ()))
        for c in b.ctes.values():
            if "valuesLists" in c.node:
                openrefs |= set(so.low(c.outputs))
    return sure, openrefs


def predicate_blocks(block):
    """Blocks whose predicates the query's predicates() cover: itself, FROM subqueries and CTEs, recursively."""
    out = [block]
    for b in list(block.ctes.values()) + block.fromsubs:
        out += predicate_blocks(b)
    for b in block.setinputs:
        out += predicate_blocks(b)
    return out


def expected_predicates(block):
    """(filters, joins) as sets of canonical forms; None if a classification is open."""
    filters, joins = set(), set()
    for b in predicate_blocks(block):
        for c in b.conjuncts:
            k = so.is_join(c)
            if k is None:
                return None
            if "BoolExpr" in c and c["BoolExpr"]["boolop"] == "OR_EXPR":
                children = c["BoolExpr"]["args"]
                fs = [x for x in children if not so.is_join(x)]
                js = [x for x in children if so.is_join(x)]
                if None in [so.is_join(x) for x in children]:
                    return None
                for part, target in ((fs, filters), (js, joins)):
                    if len(part) == 1:
                        target.update(so.norm(x) for x in split_single(part[0]))
                    elif part:
                        target.add(so.norm({"BoolExpr": {"boolop": "OR_EXPR", "args": part}}))
            else:
                (joins if k else filters).add(so.norm(c))
    return filters, joins


def split_single(node):
    return [node]


def printed(preds):
    return {so.norm_text(str(p)) for p in preds}


def free_tables(block):
    """Base tables of enclosing blocks that are referenced here."""
    inner_rels = {id(r) for b in deep_blocks(block) for r in b.rels}
    return {so.low((rel.base, rel.alias)) for b in deep_blocks(block) for rel, _, _ in b.colrefs
            if rel not in (None, "output") and id(rel) not in inner_rels and rel.kind == "base"}


def judge_query(mon, query, block, sql, depth=0):
    mon.count("blocks")
    # --- tables
    got = {table_key(t)[:2] for t in query.tables() if not t.virtual}
    mon.eq(got, base_tables(block) | free_tables(block), "tables", f"base tables of\n{sql}\n(block {query})", sql)
    virt = {t.identifier().lower() for t in query.tables() if t.virtual}
    mon.check(virt <= virtual_names(block), "virtual-tables", f"unknown virtual tables {virt - virtual_names(block)} in {sql}", sql)
    # --- columns
    sure, openrefs = column_set(block)
    cols = query.columns()
    got = {so.low((c.table.identifier(), c.name)) for c in cols if c.table is not None}
    unbound = {c.name.lower() for c in cols if c.table is None}
    missing = {c for c in sure if c not in got}
    invented = {c for c in got if c not in sure and c[1] not in openrefs}
    mon.check(not missing and not invented and unbound <= openrefs, "columns",
              f"missing {missing} invented {invented} unbound {unbound - openrefs}\n{sql}\n(block {query})", sql)
    by_ref = {}
    for c in query.itercolumns():
        k = so.low((c.table.identifier() if c.table else None, c.name))
        by_ref[k] = by_ref.get(k, 0) + 1
    mon.check({k for k in by_ref if k[0] is not None} == got, "itercolumns", f"itercolumns and columns disagree on {sql}", sql)
    for t in query.tables() if not block.setinputs else ():
        mon.check({(c.table, c.name) for c in query.columns_of(t)} == {(c.table, c.name) for c in cols if c.table == t}, "columns_of",
                  f"columns_of({t}) in {sql}", sql)
    if block.setinputs:
        for sub, b in zip((query.left_query, query.right_query), block.setinputs):
            judge_query(mon, sub, b, sql, depth)
        return
    # --- output columns
    star = any("ColumnRef" in t["ResTarget"]["val"] and "A_Star" in t["ResTarget"]["val"]["ColumnRef"]["fields"][-1]
               for t in block.node["targetList"])
    if not star:
        got_out = [c.name.lower() for c in query.output_columns()]
        mon.check(len(got_out) == len(block.outputs) and all(w is None or g == w.lower() for g, w in zip(got_out, block.outputs)), "output-columns",
                  f"output columns {got_out} expected {block.outputs}\n{sql}\n(block {query})", sql)
    # --- structure
    node = block.node
    mon.eq(query.is_ordered(), "sortClause" in node, "is_ordered", sql)
    targets = node["targetList"]
    v = targets[0]["ResTarget"]["val"]
    scalar = (len(targets) == 1 and "FuncCall" in v and "over" not in v["FuncCall"] and v["FuncCall"]["funcname"][-1]["String"]["sval"].lower() in so.AGGREGATES
              and "groupClause" not in node and "distinctClause" not in node)
    mon.eq(query.is_scalar(), scalar, "is_scalar", sql)
    items = node.get("fromClause", [])
    implicit = all("RangeVar" in i for i in items)
    explicit = len(items) == 1 and "JoinExpr" in items[0]
    if items and not (len(items) == 1 and "RangeVar" in items[0]):
        mon.eq((query.is_implicit(), query.is_explicit()), (implicit, explicit), "query-type", f"{type(query)} {query}")
    # --- subqueries
    direct = block.exprsubs + block.fromsubs
    mon.eq(len(query.subqueries()), len({repr(so.norm(b.node)) for b in direct}), "subqueries", f"number of subqueries of {query}", sql)
    # --- scoping of free tables
    free = free_tables(block)
    if free:
        mon.count("correlated")
    got_free = {table_key(t)[:2] for t in query.unbound_tables() if not t.virtual}
    # a table with the same name inside and outside is bound inside
    mon.check(got_free == free - base_tables(block) or got_free == free, "unbound-tables",
              f"unbound tables {got_free}, expected {free}\n{sql}\n(block {query})", sql)
    bound = {table_key(t)[:2] for t in query.bound_tables() if not t.virtual}
    mon.check(base_tables(block) <= bound and not (bound & (free - base_tables(block))), "bound-tables",
              f"bound tables {bound}, expected {base_tables(block)}\n{sql}\n(block {query})", sql)
    # --- predicates
    judge_predicates(mon, query, block, sql)
    # --- recurse into expression subqueries and derived tables
    if depth < 3:
        for sub in query.subqueries():
            match = [b for b in direct if same_select(sub, b)]
            mon.check(bool(match), "subquery-content", f"subquery {sub} does not appear in\n{sql}", sql)
            judge_query(mon, sub, match[0], sql, depth + 1)
        if query.cte_clause:
            for wq in query.cte_clause.queries:
                b = block.ctes[wq.target_name]
                if "valuesLists" not in b.node:
                    judge_query(mon, wq.query, b, sql, depth + 1)


def same_select(query, block):
    return canonical_select(so.parse(str(query))) == canonical_select(block.node)


def canonical_select(node):
    # ignore qualification and clause spelling: names of columns, operators and constants in order
    out = []

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            if "ColumnRef" in n and len(n) == 1:
                f = n["ColumnRef"]["fields"][-1]
                out.append(f["String"]["sval"] if "String" in f else "*")
                return
            if "BoolExpr" in n and len(n) == 1:
                out.append(n["BoolExpr"]["boolop"])
                for x in so.flatten_bool(n):
                    walk(x)
                return
            if "A_Expr" in n and n["A_Expr"]["kind"] == "AEXPR_IN" and n["A_Expr"]["name"][0]["String"]["sval"] == "<>":
                out.append("NOT_EXPR")
                e = dict(n["A_Expr"])
                e["name"] = [{"String": {"sval": "="}}]
                n = {"A_Expr": e}
            if "RangeVar" in n and len(n) == 1:
                out.append((n["RangeVar"]["relname"], n["RangeVar"].get("alias", {}).get("aliasname")))
                return
            for k in sorted(n):
                if k in ("resolved", "funcformat", "alias", "typemod", "typmods"):
                    continue
                if k == "String" and n[k].get("sval") == "pg_catalog":
                    continue
                if k == "fval":
                    out.append(float(n[k]["fval"]))
                    continue
                if k == "sval" and isinstance(n[k], str):
                    out.append(n[k].lower())
                    continue
                if isinstance(n[k], str) and k not in ("relname",):
                    continue
                out.append(k)
                walk(n[k])
        elif not isinstance(n, str):
            out.append(n)
    walk(node)
    return out


def judge_predicates(mon, query, block, sql):
    want = expected_predicates(block)
    preds = query.predicates()
    got_f, got_j = printed(query.filters()), printed(query.joins())
    if want is None:
        mon.count("classification-open")
        return
    want_f, want_j = want
    mon.eq(got_f, want_f, "filters", f"filters of {query}\n{sql}", sql)
    mon.eq(got_j, want_j, "joins", f"joins of {query}\n{sql}", sql)
    mon.count("filters", len(want_f))
    mon.count("joins", len(want_j))
    mon.ok(key=(sql, str(query)), n=0, nontrivial=len(block.rels) > 1)
    if block.ctes or block.fromsubs:
        return
    # --- per table and per pair views
    filters, joins = list(query.filters()), list(query.joins())
    tables = sorted(t for t in query.tables() if any(r.name.lower() == t.identifier().lower() for r in block.rels))
    for t in tables:
        sel = [f for f in filters if t in f.tables()]
        got = query.filters_for(t)
        parts = set() if got is None else {so.norm(x) for x in so.flatten_and(so.parse("SELECT 1 WHERE " + str(got))["whereClause"])}
        exp = {so.norm(x) for f in sel for x in so.flatten_and(so.parse("SELECT 1 WHERE " + str(f))["whereClause"])}
        mon.eq(parts, exp, "filters_for", f"filters for {t} in {query}")
        got = list(query.joins_for(t))
        exp = {so.norm(x) for f in joins if t in f.tables() for x in so.flatten_and(so.parse("SELECT 1 WHERE " + str(f))["whereClause"])}
        parts = {so.norm(x) for g in got for x in so.flatten_and(so.parse("SELECT 1 WHERE " + str(g))["whereClause"])}
        mon.eq(parts, exp, "joins_for", f"joins for {t} in {query}")
    graph = nx.Graph()
    graph.add_nodes_from(tables)
    for j in joins:
        mon.count("wide-joins", len({c.table for pair in j.join_partners() for c in pair}) > 2)
        graph.add_edges_from((p.table, q.table) for p, q in j.join_partners())
    def base(t):
        return t if t.virtual else t.drop_alias()

    def texts(pred):
        return set() if pred is None else {so.norm(x) for x in so.flatten_and(so.parse("SELECT 1 WHERE " + str(pred))["whereClause"])}

    def expected(first, second):
        return set().union(*(texts(j) for j in joins if any((x in first and y in second) or (y in first and x in second) for x, y in ((p.table, q.table) for p, q in j.join_partners()))))

    if len(tables) > 1:
        # the deprecated computation considers all tables of wide predicates, including their subqueries
        nested = any(len(j.tables()) != 2 for j in joins)
        comps = ("map", "graph", None) if nested else ("map", "legacy", "graph", None)
        for a in tables:
            for b in tables:
                if not a < b:
                    continue
                exp = expected({a}, {b})
                for first, second in ((a, b), (b, a)):
                    for comp in comps:
                        got = preds.joins_between(first, second, **({"_computation": comp} if comp else {}))
                        mon.eq(texts(got), exp, "joins_between", f"joins between {first} and {second} ({comp}) in {query}")
                mon.count("pairs")
                mon.eq(query.joins_tables(a, b) if not preds.is_empty() else False, bool(exp), "joins_tables-pair", f"{a}, {b} in {query}")
        if len(tables) >= 3:
            half = tables[: len(tables) // 2]
            rest = tables[len(tables) // 2:]
            exp = expected(set(half), set(rest))
            for comp in comps:
                got = preds.joins_between(half, rest, **({"_computation": comp} if comp else {}))
                mon.eq(texts(got), exp, "joins_between-sets", f"joins between {half} and {rest} in {query} ({comp})")
            if all(t in preds.root.tables() for t in tables) if not preds.is_empty() else False:
                mon.eq(query.joins_tables(tables), nx.is_connected(graph), "joins_tables", f"all tables of {query}")
        if not preds.is_empty():
            mon.eq(query.contains_cross_product(), not nx.is_connected(graph.subgraph(tables)), "cross-product", f"{query}")
        jg = query.join_graph()
        mon.eq({frozenset(e) for e in jg.edges}, {frozenset(e) for e in graph.edges}, "join-graph-edges", f"{query}")
        for x, y, data in jg.edges(data=True):
            mon.count("join-edges")
            mon.eq(texts(data["predicate"]), expected({x}, {y}), "join-graph-predicates", f"{x}, {y} in {query}")
        for x, data in jg.nodes(data=True):
            mon.eq(texts(data["predicate"]), texts(query.filters_for(x)), "join-graph-filters", f"{x} in {query}")
        merged = query.join_graph(merge_aliases=True)
        mon.eq(set(merged.nodes), {base(t) for t in jg.nodes}, "merged-graph-nodes", f"{query}")
        got = {(frozenset((x, y)), aliased): texts(p) for x, y, data in merged.edges(data=True) for aliased, p in data["predicate"].items()}
        want = {(frozenset(base(t) for t in e), frozenset(e)): expected({e[0]}, {e[1]}) for e in graph.edges}
        mon.eq(got, want, "merged-graph-edges", f"{query}")
        mon.count("merged-self", sum(len(k[0]) == 1 for k in got))
        for x, data in merged.nodes(data=True):
            mon.eq({t: texts(p) for t, p in data["predicate"].items()}, {t: texts(query.filters_for(t)) for t in jg.nodes if base(t) == x}, "merged-graph-filters", f"{x} in {query}")


def introspect(mon, rng):
    o = sqlgen.Opts()
    g = sqlgen.Gen(rng, o)
    qq = g.query()
    sql = qq.sql
    block = so.Analyzer(COLS).analyze(sql)
    query = parser.parse_query(sql, bind_columns=True, db_schema=DB.schema(), accept_set_query=True)
    mon.sample("introspect", sql)
    judge_query(mon, query, block, sql)


def simple(mon, rng):
    sql, *_ = sqlgen.spj(rng)
    block = so.Analyzer(COLS).analyze(sql)
    query = parser.parse_query(sql, bind_columns=True, db_schema=DB.schema())
    mon.sample("simple", sql)
    judge_query(mon, query, block, sql)


def wide(mon, rng):
    sql = sqlgen.wide(rng)
    block = so.Analyzer(COLS).analyze(sql)
    query = parser.parse_query(sql, bind_columns=True, db_schema=DB.schema())
    mon.sample("wide", sql)
    judge_query(mon, query, block, sql)


def schemas(mon, rng):
    """Tables of the same name in different schemas provide different columns."""
    places = rng.sample(sorted(TWINS), rng.randint(1, 4))
    rels = []
    for i, (sch, name) in enumerate(places):
        alias = f"r{i}" if rng.random() < 0.7 or sum(n == name for _, n in places) > 1 else ""
        shown = f"{sch}.{name}" if sch != "main" or rng.random() < 0.5 else name
        cols = TWINS[sch, name]
        ident = alias or name
        if rng.random() < 0.25:
            rels.append((f"(SELECT {rng.choice(['*', f'{name}.*', ', '.join(cols)])} FROM {shown}) AS d{i}", f"d{i}", cols, None))
        else:
            rels.append((f"{shown} AS {alias}" if alias else shown, ident, cols, (sch, name)))
    every = [c for r in rels for c in r[2]]
    usable = [(c, r[1]) for r in rels for c in r[2] if every.count(c) == 1]
    sql = f"SELECT count(*) FROM {', '.join(r[0] for r in rels)} WHERE {' AND '.join(f'{c} > {rng.randint(0, 9)}' for c, _ in usable)}"
    mon.sample("schemas", sql)
    query = parser.parse_query(sql, bind_columns=True, db_schema=TWIN_DB.schema())
    got = {(c.name, c.table.identifier() if c.table else None) for c in query.where_clause.columns()}
    mon.eq(got, set(usable), "schema-bindings", sql, key=tuple(places))
    mon.count("schema-bindings", len(usable))
    known = {r[1]: r[3] for r in rels if r[3]}
    for t in query.tables():
        if t.identifier() in known:
            mon.eq(((t.schema or "main"), t.full_name), known[t.identifier()], "schema-tables", sql)


LOWER = {t: cols for t, cols in COLS.items() if t.islower()}


class Scope:
    """Random nesting of derived tables, CTEs and set operations with stars, renamed and unqualified columns; knows who provides which column."""

    def __init__(self, rng):
        self.rng, self.n, self.ctes, self.cte_defs = rng, 0, {}, []

    def alias(self):
        self.n += 1
        return f"x{self.n}"

    def relation(self, depth):
        """(text of the FROM item, identifier, output columns)"""
        rng = self.rng
        kind = rng.choice(["base", "base", "alias", "derived", "cte", "setop", "values"]) if depth else rng.choice(["base", "alias"])
        if kind in ("base", "alias"):
            t = rng.choice(sorted(LOWER))
            a = self.alias()
            return f"{t} AS {a}", a, list(LOWER[t])
        if kind == "values":
            a = self.alias()
            cols = rng.sample(["v1", "v2", "age", "views"], 2)
            return f"(VALUES (1, 2), (3, 4)) AS {a} ({', '.join(cols)})", a, cols
        if kind == "cte":
            if self.ctes and rng.random() < 0.5:
                name = rng.choice(sorted(self.ctes))
            else:
                self.n += 1
                name = f"c{self.n}"
                body, cols = self.select(depth - 1)
                self.ctes[name] = cols
                self.cte_defs.append(f"{name} AS ({body})")
            a = self.alias()
            return f"{name} AS {a}", a, list(self.ctes[name])
        a = self.alias()
        body, cols = self.select(depth - 1)
        if kind == "setop":
            other, _ = self.select(0, width=len(cols))
            body = f"{body} {rng.choice(['UNION', 'UNION ALL', 'EXCEPT'])} {other}"
        return f"({body}) AS {a}", a, cols

    def select(self, depth, width=None):
        rng = self.rng
        rels = [self.relation(depth) for _ in range(rng.choice([1, 2, 2, 3]))]
        if width is not None:
            while sum(len(r[2]) for r in rels) < width:
                rels.append(self.relation(0))
            avail = [f"{a}.{c}" for _, a, cs in rels for c in cs]
            return f"SELECT {', '.join(rng.sample(avail, width))} FROM {', '.join(r[0] for r in rels)}", None
        outs, names = [], []

        def add(text, cols):
            if not set(cols) & set(names) and len(set(cols)) == len(cols):
                outs.append(text)
                names.extend(cols)
        if rng.random() < 0.25:
            add("*", [c for r in rels for c in r[2]])
        for _, a, cs in rels:
            if outs == ["*"]:
                break
            if rng.random() < 0.4:
                add(f"{a}.*", cs)
            elif cs:
                c = rng.choice(cs)
                uniq = sum(r[2].count(c) for r in rels) == 1
                if cs.count(c) == 1:
                    ref = c if uniq and rng.random() < 0.5 else f"{a}.{c}"
                    if rng.random() < 0.3:
                        new = rng.choice(["age", "views", "kind", "label", "renamed"])
                        add(f"{ref} AS {new}", [new])
                    else:
                        add(ref, [c])
        if not outs:
            add("1 AS one", ["one"])
        return f"SELECT {', '.join(outs)} FROM {', '.join(r[0] for r in rels)}", names


def scoping(mon, rng):
    """Unqualified columns belong to the one relation in scope that provides them."""
    g = Scope(rng)
    depth = rng.choice([1, 1, 2])
    rels = [g.relation(depth) for _ in range(rng.choice([2, 2, 3]))]
    inner = [g.relation(rng.choice([0, 1])) for _ in range(rng.choice([1, 2]))]
    outer_cols = [c for r in rels for c in r[2]]
    inner_cols = [c for r in inner for c in r[2]]
    usable = [(c, a) for _, a, cs in rels for c in cs if outer_cols.count(c) == 1]
    inner_usable = [(c, a) for _, a, cs in inner for c in cs if inner_cols.count(c) == 1]
    correlated = [(c, a) for c, a in usable if c not in inner_cols]
    if not usable:
        return
    conj = [f"{c} IS NOT NULL" for c, _ in usable]
    sub = [f"{c} IS NOT NULL" for c, _ in inner_usable + correlated]
    exists = f"EXISTS (SELECT 1 FROM {', '.join(r[0] for r in inner)}" + (f" WHERE {' AND '.join(sub)}" if sub else "") + ")"
    with_sub = rng.random() < 0.6
    if with_sub:
        conj.append(exists)
    froms = [r[0] for r in rels]
    if rng.random() < 0.4:
        frm = froms[0] + "".join(f" JOIN {x} ON true" for x in froms[1:])
    else:
        frm = ", ".join(froms)
    sql = (f"WITH {', '.join(g.cte_defs)} " if g.cte_defs else "") + f"SELECT {usable[0][0]} FROM {frm} WHERE {' AND '.join(conj)}"
    mon.sample("scoping", sql)
    query = parser.parse_query(sql, bind_columns=True, db_schema=DB.schema())

    def bindings(preds):
        return {(c.name, c.table.identifier() if c.table else None) for c in preds}
    (target,) = query.select_clause.targets
    mon.eq(bindings([target.expression.column]), {usable[0]}, "scoping-select", sql)
    root = query.where_clause.predicate
    parts = root.children if isinstance(root, qal.CompoundPredicate) else [root]
    subs = [s for part in parts if part.__class__.__name__ == "UnaryPredicate" for e in part.iterexpressions()
            if isinstance(e, qal.SubqueryExpression) for s in [e.query]]
    mon.eq(len(subs), int(with_sub), "scoping-subqueries", sql)
    plain = [part for part in parts if part.__class__.__name__ != "UnaryPredicate" or not any(isinstance(e, qal.SubqueryExpression) for e in part.iterexpressions())]
    mon.eq(bindings(c for part in plain for c in part.columns()), set(usable), "scoping", sql, key=sql)
    for s in subs:
        got = {(c.name, c.table.identifier() if c.table else None) for c in s.where_clause.columns()} if s.where_clause else set()
        mon.eq(got, set(inner_usable + correlated) if sub else set(), "scoping-correlated", sql)
    mon.count("scopes")


SCENARIOS = [Scenario(introspect, 900, 12000), Scenario(simple, 600, 6000), Scenario(wide, 400, 5000), Scenario(schemas, 250, 3000), Scenario(scoping, 900, 9000)]
