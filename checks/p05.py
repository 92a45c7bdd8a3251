"""P05: query transformations do exactly what they advertise."""
import copy
import os
import re
import warnings

import postbound as pb
from postbound import ColumnReference, TableReference, qal, transform
from postbound._core import quote
from postbound.parser import parse_query
from postbound.qal import CompoundOperator, CompoundPredicate

from lib import db, sqlgen
from lib.vlib import Scenario

PROPERTY = "P05"
TECHNIQUE = ("differential monitor: derived queries are compared with the text an independent model of the query (or a token-level rewrite of the printed text) predicts; "
             "equivalence-promising transformations are executed next to their input on DuckDB; the input is watched for changes")
RULE = ("random queries with all clause/expression kinds (renamings, clause edits), a clause model (fragments, projections), predicate trees (flatten/remove/replace) and executable "
        "SPJ queries with explicit/implicit joins; distinct by text")
ASSUMPTIONS = ["results are compared on the generated instances only", "every table carries an alias that is unique in the query for the token-level oracle",
               "fragment extraction on implicit queries without nested queries"]
REQUIRE = {"renames": 300, "column-renames": 250, "fragments": 600, "executed": 500, "nonempty": 200, "trees": 600, "clauses": 300, "identity": 200, "sources": 250, "values-renames": 80}
CONS = []


def setup(mon):
    global CONS
    warnings.simplefilter("ignore")
    CONS = db.make_instances(mon.seed)


TOK = re.compile(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|\d+\.\d+|\w+|<=|>=|<>|\|\||::|\s+|.", re.S)


def toks(sql):
    return TOK.findall(sql)


def watch(mon, q, f):
    before = (str(q), hash(q), copy.deepcopy(q))
    out = f()
    mon.check(str(q) == before[0] and hash(q) == before[1] and q == before[2], "input-modified", lambda: before[0])
    return out


def random_query(rng, **kw):
    """A query in which every table has a unique alias and all columns are qualified."""
    o = dict(no_alias_prob=0, unqualified=False, depth=2)
    o.update(kw)
    g = sqlgen.Gen(rng, sqlgen.Opts(**o))
    sql = g.query().sql
    try:
        return parse_query(sql, bind_columns=False)
    except Exception:
        return None


def base_tables(q):
    """Aliased base tables and the number of FROM entries that introduce them, from the text."""
    text = toks(str(q))
    flat = [t for t in text if not t.isspace()]
    out = []
    names = {"users", "posts", "votes", "tags", "badges", "links", '"Odd Table"'}
    for i in range(len(flat) - 2):
        if flat[i] in names and flat[i + 1] == "AS" and (i == 0 or flat[i - 1] != "."):
            out.append((flat[i].strip('"'), flat[i + 2].strip('"')))
    return out


def swap_tokens(text, mapping, prefix=None):
    """mapping: alias -> (name, new identifier as printed, new FROM text)"""
    ts = [t for t in toks(text)]
    sig = [i for i, t in enumerate(ts) if not t.isspace()]
    out = list(ts)
    for k, i in enumerate(sig):
        t = ts[i]
        nxt = ts[sig[k + 1]] if k + 1 < len(sig) else ""
        if t in mapping and nxt == ".":
            out[i] = mapping[t][1]
            if prefix and ts[sig[k + 2]] != "*":
                j = sig[k + 2]
                out[j] = quote(prefix + "_" + ts[j].strip('"') if prefix is not True else t.strip('"') + "_" + ts[j].strip('"'))
        elif t == "AS" and nxt in mapping and k and ts[sig[k - 1]] == quote(mapping[nxt][0]):
            # FROM item: name AS alias
            a, b = sig[k - 1], sig[k + 1]
            out[a:b + 1] = [mapping[nxt][2]] + [""] * (b - a)
    return "".join(out)


def rename_tables(mon, rng):
    q = random_query(rng)
    if q is None:
        return
    tabs = base_tables(q)
    if not tabs or len({a for _, a in tabs}) != len(tabs):
        return
    n = rng.choice([1, 1, 2, 3])
    rng.shuffle(tabs)
    chosen = tabs[:n]
    ren, mapping = {}, {}
    kind = rng.choice(["alias", "name", "both", "noalias", "swap", "schema"])
    if kind == "swap" and len(chosen) >= 2:
        (n1, a1), (n2, a2) = chosen[:2]
        chosen = chosen[:2]
        targets = [TableReference(n2, a2), TableReference(n1, a1)]
    else:
        targets = []
        for i, (nm, al) in enumerate(chosen):
            t = {"alias": TableReference(nm, f"zz{i}"), "name": TableReference(f"other{i}", al), "noalias": TableReference(f"plain{i}"), "schema": TableReference(nm, f"zz{i}", schema="sch")}.get(
                kind, TableReference(f"other{i}", f"Z {i}"))
            targets.append(t)
    for (nm, al), t in zip(chosen, targets):
        ren[TableReference(nm, al)] = t
        mapping[quote(al)] = (nm, quote(t.identifier()), str(t))
    mon.count("renames")
    if len(ren) == 1 and rng.random() < 0.5:
        (f, t), = ren.items()
        got = watch(mon, q, lambda: transform.rename_table(q, f, t))
    else:
        got = watch(mon, q, lambda: transform.rename_table(q, dict(ren)))
    want = swap_tokens(str(q), mapping)
    mon.check(str(got) == want and type(got) is type(q), f"rename-table:{kind}", lambda: f"{ren}\nIN   {q}\nWANT {want}\nGOT  {got}", key=("rename", kind, str(q)[:80]))
    mon.check(not set(ren) & got.tables() or kind == "swap", "rename-leftover", lambda: f"{ren}\n{q}\n{got}")
    mon.check(set(targets) <= got.tables() and len(got.tables()) == len(q.tables()), "rename-tables", lambda: f"{ren}\n{q}\n{got}: {got.tables()}")
    if kind != "swap":
        (f, t) = next(iter(ren.items()))
        got = watch(mon, q, lambda: transform.rename_table(q, f, t, prefix_column_names=True))
        want = swap_tokens(str(q), {quote(f.alias): mapping[quote(f.alias)]}, prefix=True)
        mon.check(str(got) == want, "rename-prefix", lambda: f"{f} -> {t}\nIN   {q}\nWANT {want}\nGOT  {got}")
    mon.check(watch(mon, q, lambda: transform.rename_table(q, TableReference("absent", "ab"), TableReference("xx"))) == q, "rename-absent", lambda: f"{q}")


def rename_columns(mon, rng):
    q = random_query(rng)
    if q is None:
        return
    tabs = base_tables(q)
    text = str(q)
    ts = toks(text)
    names = {quote(a): (n, a) for n, a in tabs}
    if len(names) != len(tabs):
        return
    sig = [i for i, t in enumerate(ts) if not t.isspace()]
    cols = sorted({(ts[i], ts[sig[k + 2]]) for k, i in enumerate(sig[:-2]) if ts[i] in names and ts[sig[k + 1]] == "." and ts[sig[k + 2]] != "*"})
    if not cols:
        return
    pick = rng.sample(cols, rng.randint(1, min(4, len(cols))))
    ren, lex = {}, {}
    for j, (a, c) in enumerate(pick):
        src = ColumnReference(c.strip('"'), TableReference(*names[a]))
        if rng.random() < 0.3 and len(tabs) > 1:
            nm, al = rng.choice(tabs)
            dst = ColumnReference(f"new{j}", TableReference(nm, al))
        else:
            dst = ColumnReference(f"New {j}", src.table)
        ren[src] = dst
        lex[a, c] = str(dst)
    out = list(ts)
    for k, i in enumerate(sig[:-2]):
        if ts[sig[k + 1]] == "." and (ts[i], ts[sig[k + 2]]) in lex:
            out[i] = lex[ts[i], ts[sig[k + 2]]]
            for m in range(i + 1, sig[k + 2] + 1):
                out[m] = ""
    want = "".join(out)
    mon.count("column-renames")
    got = watch(mon, q, lambda: transform.rename_columns_in_query(q, ren))
    mon.check(str(got) == want and type(got) is type(q), "rename-columns", lambda: f"{ren}\nIN   {q}\nWANT {want}\nGOT  {got}", key=("cols", text[:100]))
    mon.check(transform.rename_columns_in_query(q, {}) == q, "rename-nothing", lambda: text)


def sources(mon, rng):
    """table functions and VALUES lists as table sources"""
    tables = {"u": ("users", "u"), "p": ("posts", "p"), "w": ("votes", "w")}
    used = rng.sample(sorted(tables), rng.choice([1, 2, 3]))
    col = lambda: f"{rng.choice(used)}.{rng.choice(['id', 'x', 'y'])}"
    frm = [f"{tables[a][0]} AS {a}" for a in used]
    virt, sel, conds = {}, [col(), col()], [f"{col()} = {col()}", f"{col()} > {rng.randint(0, 9)}"]
    for k in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["function", "function", "values", "values", "anonymous"])
        if kind == "values":
            cols = rng.sample(["a", "b", "c"], rng.choice([1, 2, 3]))
            rows = ", ".join("(" + ", ".join(rng.choice(["1", "'x'", "2.5"]) for _ in cols) + ")" for _ in range(rng.choice([1, 2])))
            frm.append(f"(VALUES {rows}) AS v{k} ({', '.join(cols)})")
            virt[f"v{k}"] = cols
            sel.append(f"v{k}.{rng.choice(cols)}")
            conds.append(f"v{k}.{rng.choice(cols)} = {col()}")
        else:
            call = rng.choice([f"GENERATE_SERIES(1, {col()})", f"GENERATE_SERIES({col()}, {col()}, 2)", f"UNNEST({col()})", f"F(ABS({col()}), 'u.id')"])
            frm.append(call + (f" AS g{k}" if kind == "function" else ""))
    text = f"SELECT {', '.join(sel)} FROM {', '.join(frm)} WHERE {' AND '.join(conds)};"
    q = parse_query(text, bind_columns=False)
    mon.eq(str(q), text, "sources-text", text)
    sub = lambda pairs: lambda m: pairs.get(m.group(0), m.group(0))
    # tables
    chosen = rng.sample(used, rng.randint(1, len(used)))
    ren = {TableReference(*tables[a]): TableReference(rng.choice([tables[a][0], f"other{i}"]), f"n{i}") for i, a in enumerate(chosen)}
    ids = {a: ren[TableReference(*tables[a])].alias for a in chosen}
    want = re.sub(r"'[^']*'|\b\w+ AS (\w+)\b|\b(\w+)\.", lambda m: m.group(0) if m.group(0)[0] == "'" else (str(ren[TableReference(*tables[m.group(1)])]) if m.group(1) in ids else m.group(0)) if m.group(1) else (f"{ids[m.group(2)]}." if m.group(2) in ids else m.group(0)), text)
    mon.eq(str(watch(mon, q, lambda: transform.rename_table(q, dict(ren)))), want, "sources-tables", f"{ren} in {text}")
    # columns, including the columns of VALUES lists
    found = sorted(set(re.findall(r"\b([upw])\.(\w+)", re.sub(r"'[^']*'", "", text))))
    pick = {(a, c): f"n{c}{i}" for i, (a, c) in enumerate(rng.sample(found, rng.randint(1, len(found))))}
    cren = {ColumnReference(c, TableReference(*tables[a])): ColumnReference(n, TableReference(*tables[a])) for (a, c), n in pick.items()}
    vtabs = {t.identifier(): t for t in q.tables() if t.virtual}
    vren = {}
    for v, cols in virt.items():
        for c in cols:
            if rng.random() < 0.5:
                vren[v, c] = f"{c}new"
                cren[ColumnReference(c, vtabs[v])] = ColumnReference(f"{c}new", vtabs[v])
    if any(v == vv for v in virt for vv, _ in vren):
        mon.count("values-renames")
    names = {f"{a}.{c}": f"{a}.{n}" for (a, c), n in [*pick.items(), *vren.items()]}
    want = re.sub(r"'[^']*'|\b\w+\.\w+\b", lambda m: names.get(m.group(0), m.group(0)), text)
    for v, cols in virt.items():
        want = want.replace(f"AS {v} ({', '.join(cols)})", f"AS {v} ({', '.join(vren.get((v, c), c) for c in cols)})")
    mon.eq(str(watch(mon, q, lambda: transform.rename_columns_in_query(q, cren))), want, "sources-columns", f"{cren} in {text}")
    # expressions
    got = watch(mon, q, lambda: transform.replace_expressions(q, lambda e: e))
    mon.eq(str(got), text, "sources-identity", text)
    mon.count("sources")
    mon.ok(f"sources:{len(used)}:{sorted(map(len, virt.values()))}:{len(frm)}:{len(pick)}:{len(vren)}")


def identity(mon, rng):
    q = random_query(rng, depth=3)
    if q is None:
        return
    mon.count("identity")
    seen = []
    got = watch(mon, q, lambda: transform.replace_expressions(q, lambda e: (seen.append(e), e)[1]))
    mon.check(str(got) == str(q) and type(got) is type(q) and got == q, "replace-identity", lambda: f"IN  {q}\nGOT {got}", key=("id", str(q)[:100]))


# ---------------------------------------------------------------- clause model
class M:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def clone(self, **kw):
        return M(**{**self.__dict__, **kw})

    def text(self):
        s = self.hint + {"": "", "plan": "EXPLAIN (FORMAT TEXT) ", "analyze": "EXPLAIN (ANALYZE, FORMAT TEXT) "}[self.explain]
        s += (f"WITH {', '.join(f'{n} AS ({t})' for n, t in self.ctes)} " if self.ctes else "")
        s += "SELECT " + ("DISTINCT " if self.distinct else "") + ", ".join(t for t, _ in self.select)
        s += " FROM " + ", ".join(f"{n} AS {a}" if a else n for n, a in self.tabs)
        for kw, xs, sep in (("WHERE", self.where, " AND "), ("GROUP BY", self.group, ", "), ("HAVING", self.having, " AND "), ("ORDER BY", self.order, ", ")):
            if xs:
                s += f" {kw} " + sep.join(t for t, _ in xs)
        if self.limit is not None:
            s += f" LIMIT {self.limit}"
        return s + ";"


COLS = {t: [c for c, ty in d["cols"] if ty == "int"] for t, d in db.SCHEMA.items() if t.islower()}


def model(rng, agg=None, nt=None):
    nt = nt or rng.randint(1, 5)
    tabs = []
    for i in range(nt):
        t = rng.choice(sorted(COLS))
        tabs.append((t, f"{t[0]}{i}"))
    names = [a for _, a in tabs]

    def col(i=None):
        i = rng.randrange(nt) if i is None else i
        return f"{names[i]}.{rng.choice(COLS[tabs[i][0]])}", frozenset([names[i]])

    def cond():
        k = rng.random()
        a, ta = col()
        if k < 0.35:
            return f"{a} {rng.choice(['=', '<', '<>', '>='])} {rng.randint(0, 5)}", ta
        b, tb = col()
        if k < 0.6:
            return f"{a} {rng.choice(['=', '=', '<'])} {b}", ta | tb
        if k < 0.7:
            return f"{a} IN (1, {rng.randint(2, 5)})", ta
        if k < 0.8:
            return f"{a} BETWEEN 1 AND {rng.randint(2, 5)}", ta
        if k < 0.9:
            return f"abs({a} + {b}) > {rng.randint(0, 3)}", ta | tb
        return f"{a} IS NOT NULL", ta
    agg = rng.random() < 0.3 if agg is None else agg
    group = [col() for _ in range(rng.randint(1, 3))] if agg and rng.random() < 0.7 else []
    if agg:
        select = group[:rng.randint(0, len(group))] + [rng.choice([("COUNT(*)", frozenset()), *[(f"SUM({c})", t) for c, t in [col()]]])]
    else:
        select = rng.choice([[("*", frozenset())], [col() for _ in range(rng.randint(1, 3))], [(f"{a} + {b}", ta | tb) for (a, ta), (b, tb) in [(col(), col())]] + [col()], [("1", frozenset()), col()]])
    where = []
    for _ in range(rng.randint(0, 6)):
        c = cond()
        if c not in where:
            where.append(c)
    having = [(f"MIN({c}) > 0", t) for c, t in [col()]] if agg and rng.random() < 0.5 else []
    order = list(dict.fromkeys(col() for _ in range(rng.randint(0, 2)))) if not agg else []
    order = [(c + rng.choice(["", " DESC", " NULLS FIRST"]), t) for c, t in order]
    return M(tabs=tabs, select=list(dict.fromkeys(select)), where=where, group=list(dict.fromkeys(group)), having=having, order=order, limit=rng.choice([None, None, 3, 0]),
             distinct=rng.random() < 0.15, hint="", explain="", ctes=[])


def norm(sql):
    return str(parse_query(sql, bind_columns=False))


def same(mon, got, m, mech, ctx):
    ref = parse_query(m.text(), bind_columns=False)
    want = str(ref)
    # the formats differ between parsed and generated EXPLAIN blocks (and are covered by explain_block)
    mon.check(re.sub(r"FORMAT (TEXT|JSON)", "FORMAT", str(got), flags=re.I) == re.sub(r"FORMAT (TEXT|JSON)", "FORMAT", want, flags=re.I), mech, lambda: f"{ctx}\nWANT {want}\nGOT  {got}", key=(mech, want[:120]))
    mon.check(got == ref or (got.explain is not None and transform.drop_clause(got, qal.Explain) == transform.drop_clause(ref, qal.Explain)), f"{mech}-object", lambda: f"{ctx}\nWANT {want}\nGOT  {got}")


def fragments(mon, rng):
    m = model(rng)
    q = parse_query(m.text(), bind_columns=False)
    names = [a for _, a in m.tabs]
    for _ in range(3):
        sub = frozenset(rng.sample(names, rng.randint(1, len(names))))
        refs = [TableReference(n, a) for n, a in m.tabs if a in sub]
        rng.shuffle(refs)
        proj = rng.choice(["keep", "star", "*", "count_star"])

        def cut(xs):
            return [x for x in xs if x[1] <= sub]
        sel = cut(m.select) or [("*", frozenset())]
        if proj != "keep":
            sel = [("COUNT(*)" if proj == "count_star" else "*", frozenset())]
        want = m.clone(tabs=[t for t in m.tabs if t[1] in sub], select=sel, where=cut(m.where), group=cut(m.group), having=cut(m.having), order=cut(m.order),
                       distinct=m.distinct and proj == "keep")
        got = watch(mon, q, lambda: transform.extract_query_fragment(q, refs if len(refs) > 1 or rng.random() < 0.5 else refs[0], projection=proj))
        mon.count("fragments")
        same(mon, got, want, "fragment", f"{sorted(sub)} {proj} of {q}")
    mon.check(transform.extract_query_fragment(q, [TableReference("absent")]) is None, "fragment-absent", "")
    mon.check(transform.extract_query_fragment(q, [TableReference(*m.tabs[0]), TableReference("absent")]) is None, "fragment-partly-absent", "")


def setfragments(mon, rng):
    m1, m2 = model(rng, agg=False), None
    m1 = m1.clone(order=[], limit=None)
    m2 = m1.clone(where=m1.where[1:])
    op = rng.choice(["UNION", "UNION ALL", "EXCEPT", "INTERSECT"])
    q = parse_query(f"{m1.text()[:-1]} {op} {m2.text()[:-1]} LIMIT 5", bind_columns=False)
    sub = frozenset(rng.sample([a for _, a in m1.tabs], rng.randint(1, len(m1.tabs))))
    refs = [TableReference(n, a) for n, a in m1.tabs if a in sub]
    proj = rng.choice(["keep", "star", "count_star"])
    parts = []
    for m in (m1, m2):
        sel = [x for x in m.select if x[1] <= sub] or [("*", frozenset())]
        if proj != "keep":
            sel = [("COUNT(*)" if proj == "count_star" else "*", frozenset())]
        parts.append(m.clone(tabs=[t for t in m.tabs if t[1] in sub], select=sel, where=[x for x in m.where if x[1] <= sub], distinct=m.distinct and proj == "keep").text()[:-1])
    want = norm(f"{parts[0]} {op} {parts[1]} LIMIT 5")
    got = watch(mon, q, lambda: transform.extract_query_fragment(q, refs, projection=proj))
    mon.count("fragments")
    mon.check(str(got) == want, "fragment-setop", lambda: f"{sorted(sub)} {proj}\nIN   {q}\nWANT {want}\nGOT  {got}", key=("setfrag", want[:100]))


def clauses(mon, rng):
    m = model(rng)
    m.hint = rng.choice(["", "/*+ HashJoin(a b) */ ", "SET x TO 1; ", "SET x TO 1; /*+ HashJoin(a b) */ "])
    m.explain = rng.choice(["", "", "plan", "analyze"])
    if rng.random() < 0.3:
        m.ctes = [("c1", "SELECT t.id FROM tags AS t")]
    q = parse_query(m.text(), bind_columns=False)
    ctx = str(q)
    mon.count("clauses")
    same(mon, watch(mon, q, lambda: transform.as_star_query(q)), m.clone(select=[("*", 0)], distinct=False), "star", ctx)
    same(mon, watch(mon, q, lambda: transform.as_count_star_query(q)), m.clone(select=[("COUNT(*)", 0)], distinct=False), "count-star", ctx)
    same(mon, watch(mon, q, lambda: transform.as_explain(q)), m.clone(explain="plan"), "explain", ctx)
    same(mon, watch(mon, q, lambda: transform.as_explain_analyze(q)), m.clone(explain="analyze"), "explain-analyze", ctx)
    same(mon, watch(mon, q, lambda: transform.drop_hints(q)), m.clone(hint=""), "drop-hints", ctx)
    same(mon, watch(mon, q, lambda: transform.drop_hints(q, True)), m.clone(hint="/*+ HashJoin(a b) */ " if "Hash" in m.hint else ""), "drop-preparation", ctx)
    n0, a0 = m.tabs[0]
    c0 = f"{a0}.{COLS[n0][0]}"

    def part(rest, attr):
        return lambda: getattr(parse_query(f"{rest}", bind_columns=False), attr)
    frm = f"FROM {n0} AS {a0}"
    new = {"where": (qal.Where, m.clone(where=[(f"{c0} = 1", 0)]), part(f"SELECT * {frm} WHERE {c0} = 1", "where_clause")),
           "group": (qal.GroupBy, m.clone(group=[(c0, 0)]), part(f"SELECT * {frm} GROUP BY {c0}", "groupby_clause")),
           "having": (qal.Having, m.clone(having=[(f"{c0} = 1", 0)]), part(f"SELECT * {frm} HAVING {c0} = 1", "having_clause")),
           "order": (qal.OrderBy, m.clone(order=[(c0, 0)]), part(f"SELECT * {frm} ORDER BY {c0}", "orderby_clause")),
           "limit": (qal.Limit, m.clone(limit=77), lambda: qal.Limit(limit=77)),
           "ctes": (qal.CommonTableExpression, m.clone(ctes=[("c2", "SELECT 1")]), part(f"WITH c2 AS (SELECT 1) SELECT * {frm}", "cte_clause")),
           "hint": (qal.Hint, m.clone(hint="/*+ new */ "), lambda: qal.Hint("", "/*+ new */")),
           "explain": (qal.Explain, m.clone(explain="plan"), lambda: qal.Explain.plan()),
           "select": (qal.Select, m.clone(select=[(c0, 0)], distinct=False), part(f"SELECT {c0} {frm}", "select_clause")),
           "tabs": (qal.ImplicitFromClause, m.clone(tabs=m.tabs + [("r", "")]),
                    part("SELECT * FROM " + ", ".join(f"{n} AS {a}" for n, a in m.tabs) + ", r", "from_clause"))}
    empty = {"where": [], "group": [], "having": [], "order": [], "limit": None, "ctes": [], "hint": "", "explain": ""}
    for name in rng.sample(sorted(new), 4):
        typ, want, clause = new[name]
        same(mon, watch(mon, q, lambda: transform.add_clause(q, clause())), want, f"add:{name}", ctx)
        present = bool(getattr(m, name)) or name == "limit" and m.limit is not None
        same(mon, watch(mon, q, lambda: transform.replace_clause(q, clause())), want if present else m, f"replace:{name}", ctx)
        if name in empty:
            same(mon, watch(mon, q, lambda: transform.drop_clause(q, typ)), m.clone(**{name: empty[name]}), f"drop:{name}", ctx)
            same(mon, watch(mon, q, lambda: transform.drop_clause(q, clause())), m.clone(**{name: empty[name]}), f"drop-instance:{name}", ctx)
    pick = rng.sample([n for n in sorted(new) if n in empty], 3)
    want = m.clone(**{n: getattr(new[n][1], n) for n in pick})
    same(mon, transform.add_clause(q, [new[n][2]() for n in pick]), want, "add-many", ctx)
    rep = m.clone(**{n: getattr(new[n][1], n) for n in pick if getattr(m, n) or n == "limit" and m.limit is not None})
    same(mon, transform.replace_clause(q, [new[n][2]() for n in pick]), rep, "replace-many", ctx)
    same(mon, transform.drop_clause(q, [new[n][0] for n in pick]), m.clone(**{n: empty[n] for n in pick}), "drop-many", ctx)
    parts = list(q.clauses())
    rng.shuffle(parts)
    same(mon, qal.build_query(parts), m, "build", ctx)


# ---------------------------------------------------------------- predicate trees
def tree(rng, d, leaves_):
    if d == 0 or rng.random() < 0.25:
        return rng.choice(leaves_)
    k = rng.random()
    if k < 0.2:
        return ("NOT", tree(rng, d - 1, leaves_))
    return ("AND" if k < 0.6 else "OR", *[tree(rng, d - 1, leaves_) for _ in range(rng.randint(2, 3))])


def to_pred(t, atoms):
    if isinstance(t, str):
        return atoms[t]
    kids = [to_pred(x, atoms) for x in t[1:]]
    if t[0] == "NOT":
        return CompoundPredicate.create_not(kids[0])
    return CompoundPredicate(CompoundOperator.And if t[0] == "AND" else CompoundOperator.Or, kids)


def from_pred(p, names):
    if not isinstance(p, CompoundPredicate):
        return names[str(p)]
    if p.operation == CompoundOperator.Not:
        return ("NOT", from_pred(p.children, names))
    return ("AND" if p.operation == CompoundOperator.And else "OR", *[from_pred(c, names) for c in p.children])


def prune(t, target):
    if t == target:
        return None
    if isinstance(t, str):
        return t
    kids = [prune(x, target) for x in t[1:]]
    kids = [x for x in kids if x is not None]
    if not kids:
        return None
    if t[0] == "NOT":
        return ("NOT", kids[0])
    return kids[0] if len(kids) == 1 else (t[0], *kids)


def subst(t, target, new):
    if t == target:
        return new
    return t if isinstance(t, str) else (t[0], *[subst(x, target, new) for x in t[1:]])


def flat(t):
    if isinstance(t, str) or t[0] != "AND":
        return {t}
    return set().union(*[flat(x) for x in t[1:]])


def parts(t):
    yield t
    if not isinstance(t, str):
        for x in t[1:]:
            yield from parts(x)


def trees(mon, rng):
    atoms = {}
    base = parse_query("SELECT * FROM r, s WHERE r.a = 1 AND s.b < 2 AND r.a = s.a AND r.c IN (1, 2) AND s.d BETWEEN 1 AND 3 AND r.e IS NULL AND r.f LIKE 'x%' AND EXISTS (SELECT 1 FROM t)",
                       bind_columns=False)
    for i, p in enumerate(base.where_clause.predicate.children):
        atoms[f"p{i}"] = p
    names = {str(p): k for k, p in atoms.items()}
    t = tree(rng, rng.randint(1, 4), sorted(atoms))
    p = to_pred(t, atoms)
    t = from_pred(p, names)                 # construction may merge nested nodes
    txt, h = str(p), hash(p)
    mon.count("trees")
    f = transform.flatten_and_predicate(p)
    got = from_pred(f, names)
    want = flat(t)
    mon.check((len(want) == 1 and got == next(iter(want))) or (len(want) > 1 and got[0] == "AND" and set(got[1:]) == want and len(got) == len(want) + 1), "flatten", lambda: f"{t} -> {got}",
              key=("flatten", str(t)))
    target = rng.choice([*parts(t)])
    r = transform.remove_predicate(p, to_pred(target, atoms))
    want = prune(t, target)
    mon.check((r is None) == (want is None) and (r is None or from_pred(r, names) == (from_pred(to_pred(want, atoms), names))), "remove-predicate",
              lambda: f"{t} minus {target}: {r and from_pred(r, names)} instead of {want}", key=("remove", str(t), str(target)))
    mon.check(transform.remove_predicate(p, qal.as_predicate(ColumnReference("zz"), qal.LogicalOperator.Equal, 1)) == p and transform.remove_predicate(None, p) is None, "remove-absent", str(t))
    new = tree(rng, 1, sorted(atoms))
    inhav = rng.random() < 0.4
    q = qal.build_query([base.select_clause, base.from_clause, qal.Where(atoms["p0"] if inhav else p), qal.Having(p) if inhav else None])
    got = watch(mon, q, lambda: transform.replace_predicate(q, to_pred(target, atoms), to_pred(new, atoms)))
    want = from_pred(to_pred(subst(t, target, new), atoms), names)
    g = from_pred((got.having_clause.condition if inhav else got.where_clause.predicate), names)
    mon.check(g == want, "replace-predicate", lambda: f"{t}[{target} := {new}] = {g}, want {want}", key=("replace", str(t), str(target)))
    if inhav:
        mon.check(got.where_clause.predicate == to_pred(subst("p0", target, new), atoms), "replace-predicate-where", str(t))
    mon.check(str(p) == txt and hash(p) == h, "predicate-modified", txt)
    e = transform.expand_to_query(p)
    mon.check(e.tables() >= p.tables() and set(e.from_clause.itertables()) == p.tables() and e.where_clause.predicate == p and str(e).startswith("SELECT *"), "expand", lambda: f"{e}")


# ---------------------------------------------------------------- execution
def execute(mon, what, sql, other, ordered=False, cols=None):
    try:
        ref = [db.run(c, sql, ordered) for c in CONS]
    except db.SqlError:
        mon.count("not-executable")
        return
    mon.count("executed")
    if any(len(x) >= 4000 for x in ref):
        mon.count("too-large")
        return
    if any(any(any(v not in (("0",), ("n", 0.0)) for v in r) for r in x) for x in ref):
        mon.count("nonempty")
    try:
        got = [db.run(c, str(other), ordered) for c in CONS]
    except db.SqlError as e:
        mon.fail(f"{what}-invalid", f"{e}\n{sql}\n{other}")
    mon.check(got == ref, f"{what}-result", lambda: f"{sql}\n{other}\nwant {ref}\ngot {got}"[:2500], key=(what, sql[:150]))


def explicit(rng, m):
    """The FROM/WHERE part of a model as explicit inner joins, random association."""
    conds = list(m.where)
    items = [(f"{n} AS {a}", frozenset([a]), False) for n, a in m.tabs]
    while len(items) > 1:
        i = rng.randrange(len(items) - 1)
        (lt, ls, _), (rt, rs, rj) = items[i], items[i + 1]
        on = [c for c in conds if c[1] <= ls | rs and (len(c[1]) == 2 or rng.random() < 0.5)]
        if not on:
            on = [(f"{sorted(ls)[0]}.{'post_id' if sorted(ls)[0][0] == 'l' else 'id'} = {sorted(rs)[0]}.{'post_id' if sorted(rs)[0][0] == 'l' else 'id'}", ls | rs)]
        conds = [c for c in conds if c not in on]
        items[i:i + 2] = [(f"{lt} {rng.choice(['JOIN', 'INNER JOIN'])} {f'({rt})' if rj else rt} ON {' AND '.join(c[0] for c in on)}", ls | rs, True)]
    return items[0][0], conds


def executed(mon, rng):
    m = model(rng, nt=rng.randint(1, 4)).clone(limit=None)
    if m.group or m.having or len(m.select) > 1 and not m.order or any("(" in t for t, _ in m.select):
        m = m.clone(group=[], having=[], select=[("*", frozenset())], order=[])
    sql = m.text()
    q = parse_query(sql, bind_columns=False)
    if len(m.tabs) > 1 and rng.random() < 0.6:
        frm, rest = explicit(rng, m)
        s = m.clone(tabs=[("@@", "")], where=rest).text().replace("@@", frm)
        x = parse_query(s, bind_columns=False)
        if isinstance(x, qal.ExplicitSqlQuery):
            imp = watch(mon, x, lambda: transform.explicit_to_implicit(x))
            mon.check(isinstance(imp, qal.ImplicitSqlQuery), "explicit-type", s)
            mon.eq([(t.full_name, t.alias) for t in imp.from_clause.itertables()], m.tabs, "explicit-order", s)
            execute(mon, "explicit", s, imp)
            mon.count("explicit")
    if m.where:
        ec = watch(mon, q, lambda: transform.add_ec_predicates(q))
        execute(mon, "ec", sql, ec)
        fl = transform.replace_clause(q, qal.Where(transform.flatten_and_predicate(q.where_clause.predicate)))
        execute(mon, "flatten", sql, fl)
    if len(m.tabs) >= 2:
        # renaming all aliases
        ren = {TableReference(n, a): TableReference(n, f"x{i}") for i, (n, a) in enumerate(m.tabs)}
        execute(mon, "alias", sql, transform.rename_table(q, ren))
    if len(m.tabs) >= 2 and m.select[0][0] != "*":
        sub = rng.sample(m.tabs, rng.randint(2, len(m.tabs)))
        nm = rng.choice(["", "sq"])
        try:
            mv = watch(mon, q, lambda: transform.move_into_subquery(q, [TableReference(n, a) for n, a in sub], nm))
        except ValueError as e:
            mon.check("same name" in str(e), "subquery-rejected", lambda: f"{e}\n{sql}\n{sub}")
            mv = None
        if mv is not None:
            mon.count("subqueries")
            execute(mon, "subquery", sql, mv)
            mon.check(len([x for x in mv.from_clause.items if isinstance(x, qal.SubqueryTableSource)]) == 1, "subquery-shape", lambda: f"{sub}\n{mv}")


def ec(mon, rng):
    """All implied equalities are present, nothing else changes."""
    m = model(rng, agg=False).clone(order=[], limit=None)
    n = rng.randint(2, 4)
    m = m.clone(tabs=[("users", f"u{i}") for i in range(n)], select=[("*", 0)])
    cols = [f"u{i}.{c}" for i in range(n) for c in ("id", "age")]
    joins = [tuple(rng.sample(cols, 2)) for _ in range(rng.randint(1, 4))]
    joins = [(a, b) for a, b in joins if a[:2] != b[:2]]
    other = [f"u0.id < u1.age", "u0.id + 1 = u1.age", "u1.id = 3", "u0.age <> u1.age", "(u0.id = 1 OR u0.id = 2)", "u0.age IS NULL"]
    other = rng.sample(other, rng.randint(0, 3))
    if not joins and not other:
        return
    m = m.clone(where=[(f"{a} = {b}", 0) for a, b in joins] + [(o, 0) for o in other])
    q = parse_query(m.text(), bind_columns=False)
    got = watch(mon, q, lambda: transform.add_ec_predicates(q))
    parent = {c: c for c in cols}

    def find(c):
        while parent[c] != c:
            c = parent[c]
        return c
    used = {c for j in joins for c in j}
    for a, b in joins:
        parent[find(a)] = find(b)
    want = {frozenset((a, b)) for a in used for b in used if a != b and find(a) == find(b)}
    p = got.where_clause.predicate
    kids = [str(k) for k in (p.children if isinstance(p, CompoundPredicate) and p.operation == CompoundOperator.And else [p])]
    eqs, rest = [], []
    for k in kids:
        mt = re.fullmatch(r"(u\d\.\w+) = (u\d\.\w+)", k)
        (eqs if mt else rest).append(frozenset(mt.groups()) if mt else k)
    mon.check(set(eqs) == want and len(eqs) == len(want), "ec-predicates", lambda: f"{q}\n{got}", key=("ec", str(q)[:150]))
    wanted = sorted(str(parse_query(f"SELECT * FROM users u0, users u1 WHERE {o}", bind_columns=False).where_clause.predicate) for o in other)
    mon.eq(sorted(rest), sorted(f"({w})" if " OR " in w and w[0] != "(" else w for w in wanted), "ec-rest", f"{q}\n{got}")
    execute(mon, "ec", str(q), got)


SCENARIOS = [Scenario(sources, quick=500, thorough=6000), Scenario(rename_tables, quick=900, thorough=8000), Scenario(rename_columns, quick=400, thorough=5000), Scenario(identity, quick=300, thorough=3000),
             Scenario(fragments, quick=300, thorough=4000), Scenario(setfragments, quick=150, thorough=1500), Scenario(clauses, quick=400, thorough=4000),
             Scenario(trees, quick=1200, thorough=15000), Scenario(executed, quick=700, thorough=6000), Scenario(ec, quick=200, thorough=2500)]
