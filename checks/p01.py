"""P01: parsing and re-printing a query never changes what it computes."""
import json
import os
import warnings

import pglast
import pglast.keywords as kw
import postbound as pb
from postbound import parser, qal

from lib import db, sqlgen
from lib.vlib import Scenario, HarnessError, Violation

PROPERTY = "P01"
TECHNIQUE = ("differential execution monitor (DuckDB): original text vs. parsed-and-printed text; for statement prefixes "
             "and identifiers an independent parser (pglast) compares both texts")
RULE = ("random SELECT statements over a 7-table schema (odd identifiers, all clause/expression kinds), literal and "
        "identifier stress, and templates of constructs beyond the generator are executed as written and after "
        "parse/print/pretty-print/re-parse on 3 DuckDB instances; a case is non-trivial when the original executes and "
        "returns rows on some instance; distinct by text. Constructs that the parser cannot represent must be rejected")
ASSUMPTIONS = ["DuckDB's SQL semantics stand in for the SQL semantics of a Postgres server (none is available)",
               "results are compared on the generated instances only"]
REQUIRE = {"executed": 1500, "nonempty": 700, "unsupported-rejected": 15, "construct-parsed": 100, "literals": 300,
           "identifiers": 200, "prefixes": 100, "bound-roundtrips": 200}
CONS = []
DB = None


def setup(mon):
    global CONS, DB
    warnings.simplefilter("ignore")
    CONS = db.make_instances(mon.seed)
    DB, _ = db.postbound_db(os.path.join(mon.tmp, "p01.duckdb"), constraints=False)


def run_all(sql, ordered):
    return [db.run(c, sql, ordered) for c in CONS]


def compare(mon, what, sql, printed, ref, ordered):
    try:
        got = run_all(printed, ordered)
    except db.SqlError as e:
        mon.fail(f"{what}-invalid", f"printed text is not executable: {e}\nORIGINAL {sql}\nPRINTED  {printed}", sql)
    mon.check(got == ref, f"{what}-result", f"results differ\nORIGINAL {sql}\nPRINTED  {printed}\nwant {ref}\ngot  {got}"[:3000], sql)


def judge(mon, sql, ordered, bind=False, full=True, parsed=None):
    try:
        ref = run_all(sql, ordered)
    except db.SqlError:
        mon.count("not-executable")
        return None
    mon.count("executed")
    nonempty = any(ref)
    if nonempty:
        mon.count("nonempty")
    args = dict(bind_columns=bind, db_schema=DB.schema() if bind else None)
    query = parsed or parser.parse_query(sql, **args)
    text = str(query)
    compare(mon, "print", sql, text, ref, ordered)
    mon.ok(key=sql, n=0, nontrivial=nonempty)
    if not full:
        return query
    again = parser.parse_query(text, **args)
    mon.check(str(again) == text, "reparse-unstable", f"printed text re-parses to different text\n1: {text}\n2: {again}", sql)
    # nested conjunctions are flattened once by the SQL grammar; afterwards the object has to be stable
    third = parser.parse_query(str(again), **args)
    mon.check(again == third and hash(again) == hash(third), "reparse-unequal",
              f"re-parsed query is not equal to the original object\n{text}", sql)
    for flavor in ("vanilla", "postgres"):
        pretty = qal.format_quick(query, flavor=flavor)
        compare(mon, f"format-{flavor}", sql, pretty, ref, ordered)
    return query


def roundtrip(mon, rng):
    g = sqlgen.Gen(rng, sqlgen.Opts())
    qq = g.query()
    mon.sample("roundtrip", qq.sql)
    if judge(mon, qq.sql, qq.ordered) is not None:
        for f in g.features:
            mon.count("feature:" + f)


def bound_roundtrip(mon, rng):
    """Parsing with a live schema adds qualifications; results stay the same."""
    g = sqlgen.Gen(rng, sqlgen.Opts())
    g.o.no_alias_prob = 0.5
    qq = g.query()
    if judge(mon, qq.sql, qq.ordered, bind=True, full=rng.random() < 0.3) is not None:
        mon.count("bound-roundtrips")


# --- literals and identifiers ------------------------------------------------------------------------------------

def random_literal(rng):
    k = rng.choice(["int", "bigint", "dec", "exp", "str", "str", "bool", "null", "neg", "date", "huge", "dec-long"])
    if k == "int":
        return str(rng.choice([0, 1, 7, 42, 100, 2147483647]))
    if k == "bigint":
        return str(rng.choice([2147483648, 9007199254740993, 9223372036854775807, 10 ** 12 + rng.randint(0, 99)]))
    if k == "huge":
        return str(rng.randint(10 ** 19, 10 ** 30))
    if k == "dec":
        return rng.choice(["0.5", "1.0", ".25", "3.", "100.125", "0.001", "99999.99", "0.1", "0.3"])
    if k == "dec-long":
        return f"{rng.randint(0, 99)}.{rng.randint(10 ** 16, 10 ** 18)}"
    if k == "exp":
        return rng.choice(["1e3", "1.5e-3", "2E10", "1e-7", "1e22"])
    if k == "neg":
        return rng.choice(["-1", "(-3)", "-0.5", "- 2", "+4", "-(-2)"])
    if k == "bool":
        return rng.choice(["true", "FALSE", "'t'::bool"])
    if k == "null":
        return "NULL"
    if k == "date":
        return rng.choice(["date '2020-01-03'", "'2020-02-01'::date", "timestamp '2020-01-01 10:11:12'", "interval '2 days'"])
    alphabet = ["'", '"', "\\", "%", "_", "--", "/*", "*/", ";", "a", "B", " ", "\t", "\n", "ä", "漢", "$1", ":x", "{}", "NULL",
                "''", "E'", "0", "/*+ x */", "$$"]
    return "'" + "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 6))).replace("'", "''") + "'"


def literals(mon, rng):
    n = rng.randint(1, 4)
    parts = []
    for i in range(n):
        lit = random_literal(rng)
        # the scale of a decimal is not part of its value: do not turn decimals into text
        text = ["CAST({0} AS varchar)", "({0})::varchar"] if "." not in lit and "e" not in lit.lower() else []
        ctx = rng.choice(text + ["{0}", "{0}", "({0})", "CASE WHEN 1 = 1 THEN {0} END", "COALESCE(NULL, {0})",
                          "{0} IS NULL", "{0} = {0}", "{0} IN ({0})", "ARRAY[{0}]"])
        parts.append(ctx.format(lit) + (f" AS c{i}" if rng.random() < 0.5 else ""))
    sql = "SELECT " + ", ".join(parts)
    if rng.random() < 0.3:
        sql += rng.choice([" FROM users", " FROM users WHERE id < 3", " FROM (VALUES (1, 'a''b'), (2, NULL)) AS v (x, y)"])
    if judge(mon, sql, False) is not None:
        mon.count("literals")
        mon.sample("literals", sql)


def strip_ast(o):
    if isinstance(o, dict):
        return {a: strip_ast(b) for a, b in o.items() if a not in ("location", "stmt_len", "stmt_location")}
    if isinstance(o, list):
        return [strip_ast(x) for x in o]
    return o


def ast(sql):
    return strip_ast(json.loads(pglast.parser.parse_sql_json(sql)))["stmts"]


def ident(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice(sorted(kw.RESERVED_KEYWORDS | kw.TYPE_FUNC_NAME_KEYWORDS | kw.COL_NAME_KEYWORDS))
    if k < 0.5:
        return rng.choice(sorted(kw.UNRESERVED_KEYWORDS))
    chars = ["a", "B", "_", "1", " ", '"', "'", ".", "-", "ä", "$", ";", "/*", "--", "Z", "9", "select"]
    s = "".join(rng.choice(chars) for _ in range(rng.randint(1, 4)))
    return s.strip() or "x y"


def identifiers(mon, rng):
    """Names survive exactly, whatever characters they contain; judged by an independent parser."""
    names = [ident(rng) for _ in range(6)]
    a, b, c, d, e, f = ('"' + n.replace('"', '""') + '"' for n in names)
    if len(set(names)) < 6:
        return
    sql = rng.choice([
        f"SELECT {a}, {b}.{c} AS {d} FROM {b}", f"SELECT {a}.* FROM {b} AS {a}", f"SELECT {a}.{b} FROM {c}.{d} AS {a}",
        f"SELECT 1 FROM {a} AS {b}, {c} WHERE {b}.{d} = {c}.{e}", f"WITH {a} AS (SELECT {b} FROM {c}) SELECT {a}.{b} FROM {a}",
        f"SELECT {a}.{b} FROM (SELECT {c} AS {b} FROM {d}) AS {a}", f"SELECT {a}.{b} FROM (VALUES (1, 2)) AS {a} ({b}, {c})",
        f"SELECT {a} FROM {b} GROUP BY {a} ORDER BY {a}", f"SELECT 1 FROM {a} JOIN {b} AS {c} ON {a}.{d} = {c}.{e}",
        f"SELECT count({a}) FROM {b} WHERE EXISTS (SELECT 1 FROM {c} AS {d} WHERE {d}.{e} = {b}.{f})",
        f"SELECT CAST({a}.{b} AS integer) FROM {a} WHERE {a}.{c} LIKE 'x' AND {a}.{d} IN (1, 2)",
    ])
    want = ast(sql)
    parsed = parser.parse_query(sql, bind_columns=False)
    for what, text in (("print", str(parsed)), ("format", qal.format_quick(parsed))):
        try:
            got = ast(text)
        except Exception as exc:
            mon.fail(f"identifier-{what}-invalid", f"printed text cannot be parsed: {exc}\nORIGINAL {sql}\nPRINTED  {text}", sql)
        mon.check(got == want, f"identifier-{what}", f"syntax trees differ\nORIGINAL {sql}\nPRINTED  {text}", sql)
    mon.ok(key=sql, n=0)
    mon.count("identifiers")
    mon.sample("identifiers", sql)


# --- constructs outside the generator ------------------------------------------------------------------------------

# (template, True: has to be understood / False: has to be rejected or understood)
CONSTRUCTS = [
    ("SELECT id FROM users ORDER BY id LIMIT {k}", True), ("SELECT id FROM users ORDER BY id OFFSET {k}", True),
    ("SELECT id FROM users ORDER BY id LIMIT {k} OFFSET {j}", True), ("SELECT id FROM users ORDER BY id LIMIT ALL", True),
    ("SELECT id FROM users ORDER BY id DESC FETCH FIRST {k} ROWS ONLY", True),
    ("SELECT id FROM users ORDER BY id OFFSET {j} ROWS FETCH NEXT {k} ROWS ONLY", True),
    ("SELECT id FROM users UNION ALL SELECT id FROM posts ORDER BY 1 LIMIT {k}", True),
    ("(SELECT id FROM users ORDER BY id LIMIT {k}) UNION ALL (SELECT id FROM posts ORDER BY id LIMIT {j})", True),
    ("SELECT DISTINCT ON (age) age FROM users ORDER BY age", True),
    ("SELECT age, count(*) FILTER (WHERE id > {j}) FROM users GROUP BY age", True),
    ("SELECT count(*) OVER (), sum(id) OVER (PARTITION BY age ORDER BY id), rank() OVER (ORDER BY id DESC NULLS FIRST) FROM users", True),
    ("SELECT count(DISTINCT age), sum(DISTINCT id) FROM users", True),
    ("SELECT (ARRAY[10, 20, 30])[{k}], (ARRAY[1, 2, 3])[1:2]", True), ("SELECT ARRAY[1, 2] @> ARRAY[{k}]", True),
    ("SELECT CAST(ARRAY[{k}, 2] AS bigint[])", True), ("SELECT '{k}'::int + 1, -'{j}'::int", True),
    ("SELECT 2 - (3 - {k}), 2 - 3 - {k}, 7 / (2 * {k} + 1), -(-{j}), - {j} * 2, 7 % 3 * 2", True),
    ("SELECT 'a' || ('b' || 'c'), NOT (1 = {k} AND 2 = 2) OR FALSE, (1 = {k}) = (2 = 2), (1 < {k}) IS NULL", True),
    ("SELECT 1 WHERE NOT (NOT (1 = {k}))", True), ("SELECT 1 WHERE (1 = 1 OR 1 = 2) AND {k} = 1", True),
    ("SELECT u.id FROM users u WHERE u.id = ALL (SELECT {k})", True), ("SELECT u.id FROM users u WHERE NOT u.id > ANY (SELECT {k} UNION SELECT 1)", True),
    ("SELECT u.id IN (SELECT id FROM posts WHERE owner_id = u.id), EXISTS (SELECT 1 FROM posts WHERE id = u.id) FROM users u", True),
    ("WITH RECURSIVE r AS (SELECT 1 AS n UNION ALL SELECT n + 1 FROM r WHERE n < {k}) SELECT n FROM r", True),
    ("WITH a AS MATERIALIZED (SELECT id FROM users), b AS NOT MATERIALIZED (SELECT id FROM a WHERE id > {j}) SELECT * FROM a, b WHERE a.id = b.id", True),
    ("WITH v (x, y) AS (VALUES (1, 'a'), ({k}, 'b')) SELECT y FROM v WHERE x = {k}", True),
    ("WITH users AS (SELECT id FROM posts WHERE id < {k}) SELECT users.id FROM users", True),
    ("SELECT x.id FROM (SELECT id FROM users) AS x, LATERAL (SELECT x.id + {k} AS d) AS y WHERE y.d > {j}", True),
    ("SELECT * FROM generate_series(1, {k}) AS g", True), ("SELECT g FROM generate_series({j}, {k}) AS g", True),
    ("TABLE users", True), ("SELECT u.*, p.id FROM users u LEFT JOIN (posts p JOIN tags t ON p.id = t.post_id) ON u.id = p.owner_id AND p.id > {j}", True),
    ("SELECT CASE age WHEN {k} THEN 'x' ELSE 'y' END, CASE WHEN age > {k} THEN 1 END FROM users", True),
    ("SELECT age FROM users GROUP BY age HAVING count(*) >= {j} ORDER BY age NULLS FIRST", True),
    ("SELECT name FROM users WHERE name NOT LIKE 'a%' AND name ILIKE '%B%' OR name NOT ILIKE 'x'", True),
    ("SELECT a.id FROM users a, users b WHERE a.id = b.id AND (a.age, 1) IS NOT NULL", False),
    ("SELECT id FROM users WHERE age IS DISTINCT FROM {k}", True), ("SELECT id FROM users WHERE age NOT IN ({k}, {j}) AND NOT age BETWEEN {j} AND {k}", True),
    ("SELECT * FROM posts RIGHT JOIN users ON users.id = posts.owner_id FULL OUTER JOIN tags ON tags.post_id = posts.id", True),
    ("SELECT * FROM users CROSS JOIN (posts CROSS JOIN tags) WHERE users.id = {k}", True),
    ("SELECT lower(u.name) AS n, \"u\".\"id\" \"ID\" FROM \"users\" u", True), ("SELECT DISTINCT age + {k} FROM users", True),
    # constructs that the query abstraction does not know
    ("SELECT * FROM users u JOIN posts p USING (id)", False), ("SELECT * FROM users NATURAL JOIN badges", False),
    ("SELECT id FROM users INTERSECT ALL SELECT id FROM posts", False), ("SELECT age FROM users EXCEPT ALL SELECT {k}", False),
    ("SELECT sum(id) OVER (ORDER BY id ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM users", False),
    ("SELECT sum(id) OVER (ORDER BY id RANGE BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING) FROM users", False),
    ("SELECT sum(id) OVER w FROM users WINDOW w AS (PARTITION BY age)", False), ("SELECT sum(id) OVER (w ORDER BY id) FROM users WINDOW w AS (PARTITION BY age)", False),
    ("SELECT string_agg(name, ',' ORDER BY id DESC) FROM users", False), ("SELECT percentile_cont(0.5) WITHIN GROUP (ORDER BY age) FROM users", False),
    ("WITH c (x) AS (SELECT id FROM users) SELECT x FROM c", False), ("SELECT x FROM (SELECT id FROM users) AS s (x)", False),
    ("SELECT u.x FROM users AS u (x)", False), ("SELECT id FROM users ORDER BY age FETCH FIRST {k} ROWS WITH TIES", False),
    ("SELECT u.id FROM users u, LATERAL (VALUES (u.id + {k})) AS v (x) WHERE v.x > 2", False),
    ("SELECT id FROM users ORDER BY id LIMIT 1 + {j}", False), ("SELECT age, count(*) FROM users GROUP BY ROLLUP (age)", False),
    ("SELECT age, count(*) FROM users GROUP BY GROUPING SETS ((age), ())", False), ("SELECT interval '{k}' day", False),
    ("SELECT age IS TRUE FROM (SELECT age > {k} AS age FROM users) AS x", False), ("SELECT nullif(age, {k}), greatest(age, 2), least(age, {k}) FROM users", False),
    ("SELECT age NOT BETWEEN {j} AND {k} FROM users", False), ("SELECT name SIMILAR TO 'a.*' FROM users", False), ("SELECT current_date IS NULL", False),
    ("SELECT id FROM users WHERE (id, age) = ({k}, 2)", False), ("SELECT id FROM users WHERE (id, age) IN (SELECT id, views FROM posts)", False),
    ("VALUES (1, {k})", False), ("SELECT row_number() OVER (PARTITION BY age ORDER BY id ROWS UNBOUNDED PRECEDING) FROM users", False),
    ("SELECT id FROM users WHERE age BETWEEN SYMMETRIC {k} AND {j}", False),
    ("SELECT j.id FROM (users u JOIN posts p ON u.id = p.owner_id) AS j (id)", False), ("SELECT id::varchar(1), name::char(1) FROM users", False),
    ("SELECT array(SELECT id FROM users ORDER BY id)", False), ("SELECT row(1, {k})", False), ("SELECT id FROM ONLY users", False),
    ("SELECT count(DISTINCT age) OVER (PARTITION BY name) FROM users", False), ("SELECT sum(id) FILTER (WHERE age > {k}) OVER (PARTITION BY name) FROM users", False),
    ("SELECT id FROM users WHERE id > {k} FOR UPDATE", False), ("SELECT u.id FROM users u, posts p WHERE u.id = p.id FOR SHARE OF u SKIP LOCKED", False),
    ("SELECT id FROM users WHERE id IN (SELECT p.id FROM posts p FOR NO KEY UPDATE) AND id > {k}", False),
    ("SELECT users.id FROM nodb.main.users WHERE users.id = {k}", False), ("SELECT u.id FROM nodb.main.users u JOIN nodb.main.posts p ON u.id = p.id", False),
    ("SELECT id INTO tmp_x FROM users", False), ("SELECT x'1F'", False), ("SELECT name COLLATE \"C\" FROM users", False),
    ("SELECT id FROM users TABLESAMPLE SYSTEM (5)", False), ("SELECT users.id FROM main.users WHERE users.id = {k}", True),
    ("SELECT i, v FROM (SELECT unnest(ARRAY[3, {k}]) AS v, generate_subscripts(ARRAY[3, {k}], 1) AS i) AS z", True),
    ("SELECT id FROM users u WHERE id > (SELECT avg(id) FROM users WHERE age = u.age) - {k}", True),
    ("SELECT u.age FROM users u GROUP BY DISTINCT u.age", False), ("SELECT u.age FROM users u ORDER BY u.age USING <", False),
]


def blank(mon, rng):
    """Texts without a statement are refused as such, texts with several statements are not cut."""
    text = "".join(rng.choice(["", " ", "\n", "\t", "; ", "-- nothing here\n", "/* no query */ ", "/*+ Rows(a b #3) */"]) for _ in range(rng.randint(1, 5)))
    mon.raises(lambda: parser.parse_query(text, bind_columns=False), "blank", f"parsing {text!r}", parser.ParserError)
    second = f"SELECT count(*) FROM users; {text} SELECT users.id FROM users"
    mon.raises(lambda: parser.parse_query(second, bind_columns=False), "several", f"parsing {second!r}", ValueError)
    mon.count("blank")


def constructs(mon, rng):
    i = rng.randrange(len(CONSTRUCTS))
    template, must = CONSTRUCTS[i]
    sql = template.format(k=rng.randint(0, 4), j=rng.randint(0, 2))
    ordered = "LIMIT" in sql or "OFFSET" in sql or "FETCH" in sql
    try:
        pglast.parser.parse_sql_json(sql)
    except Exception:
        raise HarnessError(f"template is not SQL: {sql}")
    try:
        query = parser.parse_query(sql, bind_columns=False)
        str(query)
    except Exception as e:
        if must:
            mon.fail("construct-rejected", f"supported construct was not parsed: {type(e).__name__}: {e}\n{sql}", sql)
        mon.count("unsupported-rejected")
        mon.ok(("rejected", template))
        return
    if any(x in sql for x in (" INTO ", " ONLY users", " FOR ", "nodb.")):
        # not executable on DuckDB; lost if the parser does not refuse them
        mon.check(ast(str(query)) == ast(sql), "construct-dropped", f"{sql} became {query}")
        return
    if judge(mon, sql, ordered, parsed=query, full=must) is not None:
        mon.count("construct-parsed")
        mon.count(f"construct:{i}")


# --- prefixes ----------------------------------------------------------------------------------------------------

def prefixes(mon, rng):
    body = rng.choice(["SELECT id FROM users WHERE id < 3", "SELECT u.id, p.id FROM users u, posts p WHERE u.id = p.owner_id",
                       "SELECT count(*) FROM users AS \"x y\" WHERE name = '/*+ no hint */'",
                       "SELECT id FROM users UNION SELECT id FROM posts", "SELECT 1"])
    sets = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        val = rng.choice(["'off'", "on", "'it''s'", "42", "0.5", "-1", "a, b", "'64MB'"])
        sets.append(f"SET {rng.choice(['', 'LOCAL ', 'SESSION '])}{rng.choice(['enable_hashjoin', 'geqo', 'x.y', 'search_path'])} {rng.choice(['=', 'TO'])} {val};")
    explain = rng.choice(["", "", "EXPLAIN ", "EXPLAIN ANALYZE ", "EXPLAIN (FORMAT JSON) ", "EXPLAIN (ANALYZE, FORMAT JSON) ", "EXPLAIN (ANALYZE false) ",
                          "EXPLAIN (ANALYZE true) ", "EXPLAIN (ANALYZE 0, FORMAT TEXT) "])
    hints = [rng.choice(["/*+ HashJoin(u p) */", "/*=pg_lab= Card(u #12) */", "/*+ Leading((u p))\n MergeJoin(u p) */", "-- just a note", "/* plain */"])
             for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.5 or not hints:
        sql = "\n".join(hints + sets) + ("\n" if hints or sets else "") + explain + body
    else:
        sql = "\n".join(sets + hints) + "\n" + explain + body
    query = parser.parse_query(sql, bind_columns=False, accept_set_query=True)
    text = str(query)

    def shape(txt):
        out = []
        for s in ast(txt):
            st = s["stmt"]
            if "ExplainStmt" in st:
                opts = {}
                for o in st["ExplainStmt"].get("options", []):
                    o = o["DefElem"]
                    v = o.get("arg")
                    if o["defname"] == "analyze":
                        v = not (v is not None and (v.get("Integer", {}).get("ival", 0) == 0 and "Integer" in v
                                                    or v.get("String", {}).get("sval", "").lower() in ("false", "off")))
                        if not v:
                            continue
                    else:
                        v = v["String"]["sval"].lower()
                    opts[o["defname"]] = v
                opts.setdefault("format", "text")
                out.append(("explain", opts, st["ExplainStmt"]["query"]))
            elif "VariableSetStmt" in st:
                v = st["VariableSetStmt"]
                out.append(("set", v["name"], v.get("is_local", False), [(a.get("A_Const") or a) for a in v["args"]]))
            else:
                out.append(("query", st))
        return out
    for what, txt in (("print", text), ("format", qal.format_quick(query))):
        try:
            got = shape(txt)
        except pglast.parser.ParseError as e:
            mon.fail(f"prefix-{what}-invalid", f"{e}\nORIGINAL {sql}\nPRINTED  {txt}", sql)
        mon.check(got == shape(sql), f"prefix-{what}", f"statements differ\nORIGINAL {sql}\nPRINTED  {txt}", sql)
        for h in hints:
            mon.check(h.startswith("--") or h.split("\n")[0].strip() in txt, f"prefix-{what}-hints", f"comment {h!r} got lost\nORIGINAL {sql}\nPRINTED  {txt}", sql)
    again = parser.parse_query(text, bind_columns=False, accept_set_query=True)
    third = parser.parse_query(str(again), bind_columns=False, accept_set_query=True)
    mon.check(again == third and hash(again) == hash(third), "prefix-reparse", f"re-parsed query differs\n{text}\n{again}", sql)
    without = parser.parse_query(sql, bind_columns=False, include_hints=False, accept_set_query=True)
    mon.check(without.hints is None, "prefix-ignored", f"include_hints=False kept {without.hints}", sql)
    if explain or hints or sets:
        mon.ok(key=sql, n=0)
        mon.count("prefixes")
        mon.sample("prefixes", sql)


SCENARIOS = [Scenario(blank, quick=50, thorough=300), Scenario(roundtrip, 1800, 26000), Scenario(bound_roundtrip, 400, 5000), Scenario(literals, 600, 5000),
             Scenario(identifiers, 500, 5000), Scenario(constructs, 500, 2500), Scenario(prefixes, 300, 3000)]
