"""P04: equality, hashing, copying and immutability of query building blocks agree."""
import copy
import pickle
import re
import warnings

from postbound import ColumnReference, TableReference, parser, qal, transform
from postbound._core import BoundColumnReference
from postbound.parser import parse_query
from postbound.qal import _qal

from lib import sqlgen
from lib.vlib import Scenario

PROPERTY = "P04"
TECHNIQUE = ("online monitor over object pools: building blocks are collected from generated queries and their near-miss variants, all pairs are compared, hashed, copied and "
             "pickled, and every public member is invoked while deep snapshots watch for changes of existing objects")
RULE = ("all objects reachable from random queries plus from texts that differ in one token, plus one-component variants of every clause/expression/predicate built through the "
        "constructors; distinct by type and text")
ASSUMPTIONS = ["IN lists compare as sets of values", "identifiers differing only in case denote the same object", "SELECT/WHERE/… text equality identifies the printed SQL"]
REQUIRE = {"pairs": 100000, "equal-pairs": 3000, "near-miss": 250, "families": 2000, "aliasing": 50, "immutable": 400, "copies": 4000, "tables": 1000}

BLOCKS = (_qal.SqlExpression, _qal.BaseClause, _qal.TableSource, _qal.WithQuery, _qal.BaseProjection, _qal.OrderByExpression, _qal.SqlQuery, _qal.SetQuery,
          TableReference, ColumnReference, _qal.QueryPredicates)


def slots(obj):
    for cls in type(obj).__mro__:
        for s in getattr(cls, "__slots__", ()) if not isinstance(getattr(cls, "__slots__", ()), str) else (cls.__slots__,):
            if hasattr(obj, s):
                yield getattr(obj, s)
    yield from getattr(obj, "__dict__", {}).values()


def collect(obj, seen=None):
    """All building blocks reachable through the object graph."""
    seen = {} if seen is None else seen
    stack = [obj]
    while stack:
        o = stack.pop()
        if isinstance(o, (str, int, float, bool, type(None))) or id(o) in seen:
            continue
        if isinstance(o, (list, tuple, set, frozenset)):
            stack.extend(o)
        elif isinstance(o, dict):
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, BLOCKS):
            seen[id(o)] = o
            stack.extend(slots(o))
    return list(seen.values())


def norm_in(txt):
    """IN lists are compared as sets of values"""
    return re.sub(r"IN \(((?:'(?:[^']|'')*'|[^()'])*)\)", lambda m: "IN (" + "|".join(sorted(set(re.findall(r"(?:'(?:[^']|'')*'|[^,'])+", m.group(1).replace(", ", ","))))) + ")", txt)


def show(o):
    if isinstance(o, (TableReference, ColumnReference)):
        return repr(o)
    if isinstance(o, _qal.QueryPredicates):
        return f"predicates {o._root!s}" if hasattr(o, "_root") else str(o)
    return str(o)


def pair(mon, a, b):
    mon.count("pairs")
    try:
        e, f = a == b, b == a
        ne = a != b
    except Exception as x:                        # comparison must always be possible
        mon.fail(f"compare:{type(a).__name__}:{type(b).__name__}:{type(x).__name__}", f"{a} / {b}: {x}")
        return False
    mon.check(isinstance(e, bool) and e == f and ne == (not e), f"symmetry:{type(a).__name__}:{type(b).__name__}", lambda: f"{a} / {b}: {e} {f} {ne}")
    if e and f:
        mon.count("equal-pairs")
        mon.check(hash(a) == hash(b), f"hash:{type(a).__name__}", lambda: f"{a} / {b}: equal, hashes differ")
        x, y = show(a).replace(", virtual=True", ", virtual=False"), show(b).replace(", virtual=True", ", virtual=False")
        mon.check(norm_in(x).lower() == norm_in(y).lower(), f"equal-but-different:{type(a).__name__}", lambda: f"{x} / {y}: equal")
    return e


def near_miss(rng, sql):
    """Changes one token of the query."""
    toks = re.findall(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|\d+\.\d+|\w+|<=|>=|<>|\|\||\s+|.", sql, re.S)
    swap = {"ASC": ["DESC", ""], "DESC": ["ASC", ""], "DISTINCT": [""], "LATERAL": [""], "NOT": [""], "LEFT": ["RIGHT", "FULL"], "RIGHT": ["LEFT", "FULL"], "FULL": ["LEFT"],
            "AND": ["OR"], "OR": ["AND"], "<": ["<=", ">", "="], "<=": ["<"], ">": [">=", "="], ">=": [">"], "=": ["<>", "<"], "<>": ["="], "+": ["-", "*"], "*": ["+"], "-": ["+"],
            "FIRST": ["LAST"], "LAST": ["FIRST"], "UNION": ["EXCEPT", "INTERSECT", "UNION ALL"], "EXCEPT": ["INTERSECT", "UNION"], "INTERSECT": ["EXCEPT"], "ALL": ["ANY", ""], "ANY": ["ALL"],
            "min": ["max"], "max": ["min"], "sum": ["avg"], "count": ["sum"], "NULL": ["0"], "LIKE": ["ILIKE"], "ILIKE": ["LIKE"], "integer": ["bigint", "text"], "text": ["integer"],
            "SELECT": ["SELECT DISTINCT"], "AS": ["AS MATERIALIZED", "AS NOT MATERIALIZED"], "age": ["id"], "score": ["id"], "LIMIT": ["OFFSET"], "OFFSET": ["LIMIT"],
            "IN": ["NOT IN"], "TRUE": ["FALSE"], "FALSE": ["TRUE"], "FILTER": ["FILTER"], "RECURSIVE": [""], "WITH": ["WITH RECURSIVE"]}
    spots = []
    for i, t in enumerate(toks):
        if t in swap:
            spots.append(i)
        elif re.fullmatch(r"\d+", t):
            spots.append(i)
        elif t.startswith("'") and len(t) > 2:
            spots.append(i)
    if not spots:
        return None
    i = rng.choice(spots)
    t = toks[i]
    if t in swap:
        toks[i] = rng.choice(swap[t])
    elif t.startswith("'"):
        toks[i] = t[:-1] + "x'"
    else:
        toks[i] = str(int(t) + 1)
    return "".join(toks)


def quiet_parse(sql):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return parse_query(sql, bind_columns=False)
    except Exception:                     # P01's business
        return None


def pools(mon, rng):
    sql = sqlgen.Gen(rng, sqlgen.Opts(depth=2)).query().sql
    q = quiet_parse(sql)
    if q is None:
        return
    same = quiet_parse(sql)
    mon.check(same == q and hash(same) == hash(q) and q == same, "same-text", lambda: sql, key=("same", sql[:100]))
    objs = collect(q)
    mon.check(all(pair(mon, o, o) for o in objs), "reflexive", lambda: sql)
    for _ in range(3):
        t = near_miss(rng, sql)
        m = quiet_parse(t) if t else None
        if m is None:
            continue
        mon.count("near-miss")
        if norm_in(str(m)) != norm_in(str(q)):
            mon.check(m != q and q != m, "near-miss", lambda: f"{sql}\n{t}\nprinted {q}\nprinted {m}", key=("near", t[:100]))
        objs += collect(m)
    rng.shuffle(objs)
    objs = objs[:120]
    for i, a in enumerate(objs):
        for b in objs[i + 1:]:
            if type(a) is type(b) or rng.random() < 0.1:
                pair(mon, a, b)
    for o in objs[:12]:
        copies(mon, o, sql)
    # everything inside the second parse has an equal counterpart
    index = {}
    for o in collect(q):
        index.setdefault(type(o), set()).add(o)
    for o in collect(same):
        mon.check(o in index.get(type(o), ()), f"same-text-part:{type(o).__name__}", lambda: f"{o} in {sql}")


def copies(mon, o, ctx):
    mon.count("copies")
    for how, f in (("deepcopy", copy.deepcopy), ("copy", copy.copy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        c = f(o)
        mon.check(type(c) is type(o) and c == o and o == c and hash(c) == hash(o) and show(c) == show(o), f"{how}:{type(o).__name__}", lambda: f"{o} -> {c}\nin {ctx}",
                  key=(how, type(o).__name__, str(o)[:40]))


def families(mon, rng):
    """One-component variants: all members of a family differ in what they print (or mean), so none of them are equal; rebuilding one of them yields an equal object."""
    T, C = TableReference, ColumnReference
    r, s = T("r"), T("s", "x")
    a, b, u = C("a", r), C("b", r), C("a")
    ca, cb = qal.ColumnExpression(a), qal.ColumnExpression(b)
    V = qal.StaticValueExpression
    one, two, n = V(1), V(2), V.null()
    Op = qal.LogicalOperator
    Q = parse_query
    q1, q2 = Q("SELECT r.a FROM r"), Q("SELECT r.b FROM r")
    eq = qal.BinaryPredicate.equal(ca, one)
    lt = qal.BinaryPredicate(Op.Less, ca, one)
    join = qal.BinaryPredicate.equal(ca, qal.ColumnExpression(C("a", s)))
    P = qal.BaseProjection
    F = qal.FunctionExpression
    D = qal.DirectTableSource
    JT = qal.JoinType
    vals = [(one, two)], [(two, one)], [(one, two), (one, two)]
    W = qal.WindowExpression
    fam = {
        "table": [lambda: T("r"), lambda: T("r", "x"), lambda: T("x", "r"), lambda: T("r", schema="s"), lambda: T("r", "x", schema="s"), lambda: T("", "r", virtual=True), lambda: T("r", "r"),
                  lambda: T("s")],
        "column": [lambda: C("a"), lambda: C("a", r), lambda: C("b", r), lambda: C("a", s), lambda: C("a", T("s")), lambda: BoundColumnReference("a", T("r", schema="q"))],
        "static": [lambda: V(1), lambda: V("1"), lambda: V(True), lambda: V(1.0), lambda: V(2), lambda: V.null(), lambda: V("null"), lambda: V("a"), lambda: V("A"), lambda: V(0),
                   lambda: V(False), lambda: V("")],
        "cast": [lambda: qal.CastExpression(ca, "int"), lambda: qal.CastExpression(ca, "text"), lambda: qal.CastExpression(cb, "int"),
                 lambda: qal.CastExpression(ca, "varchar", type_params=[V(3)]), lambda: qal.CastExpression(ca, "varchar", type_params=[V(4)]), lambda: qal.CastExpression(ca, "int", array_type=True)],
        "math": [lambda: qal.MathExpression(qal.MathOperator.Add, ca, one), lambda: qal.MathExpression(qal.MathOperator.Subtract, ca, one), lambda: qal.MathExpression(qal.MathOperator.Add, ca, two),
                 lambda: qal.MathExpression(qal.MathOperator.Add, one, ca), lambda: qal.MathExpression(qal.MathOperator.Subtract, ca)],
        "function": [lambda: F("count", [ca]), lambda: F("count", [ca], distinct=True), lambda: F("sum", [ca]), lambda: F("count", [cb]), lambda: F("count", [ca, cb]), lambda: F("count", [cb, ca]),
                     lambda: F("count", []), lambda: F("count", [ca], filter_where=eq), lambda: F("count", [ca], filter_where=lt)],
        "array": [lambda: qal.ArrayExpression([one, two]), lambda: qal.ArrayExpression([two, one]), lambda: qal.ArrayExpression([one]), lambda: qal.ArrayExpression([one, one, two])],
        "array-access": [lambda: qal.ArrayAccessExpression(ca, idx=one), lambda: qal.ArrayAccessExpression(cb, idx=one), lambda: qal.ArrayAccessExpression(ca, idx=two),
                         lambda: qal.ArrayAccessExpression(ca, lower_idx=one), lambda: qal.ArrayAccessExpression(ca, upper_idx=one), lambda: qal.ArrayAccessExpression(ca, lower_idx=one, upper_idx=two)],
        "subquery": [lambda: qal.SubqueryExpression(q1), lambda: qal.SubqueryExpression(q2)],
        "window": [lambda: W(F("rank", [])), lambda: W(F("sum", [ca])), lambda: W(F("rank", []), partitioning=[ca]), lambda: W(F("rank", []), partitioning=[cb]),
                   lambda: W(F("rank", []), ordering=qal.OrderBy([qal.OrderByExpression(ca)])), lambda: W(F("rank", []), ordering=qal.OrderBy([qal.OrderByExpression(ca, False)])),
                   lambda: W(F("rank", []), filter_condition=eq)],
        "case": [lambda: qal.CaseExpression([(eq, one)]), lambda: qal.CaseExpression([(eq, two)]), lambda: qal.CaseExpression([(lt, one)]), lambda: qal.CaseExpression([(eq, one)], else_expr=two),
                 lambda: qal.CaseExpression([(eq, one), (lt, two)]), lambda: qal.CaseExpression([(lt, two), (eq, one)]), lambda: qal.CaseExpression([(one, two)], simple_expr=ca),
                 lambda: qal.CaseExpression([(one, two)], simple_expr=cb)],
        "quantifier": [lambda: qal.QuantifierExpression(qal.SubqueryExpression(q1), quantifier=qal.QuantifierOperator.All), lambda: qal.QuantifierExpression(qal.SubqueryExpression(q1), quantifier=qal.QuantifierOperator.Any),
                       lambda: qal.QuantifierExpression(qal.SubqueryExpression(q2), quantifier=qal.QuantifierOperator.All)],
        "binary": [*[(lambda o=o: qal.BinaryPredicate(o, ca, one)) for o in (Op.Equal, Op.NotEqual, Op.Less, Op.LessEqual, Op.Greater, Op.GreaterEqual, Op.Like, Op.ILike)],
                   lambda: qal.BinaryPredicate(Op.Equal, one, ca), lambda: qal.BinaryPredicate(Op.Equal, ca, two), lambda: qal.BinaryPredicate(Op.Equal, cb, one)],
        "between": [lambda: qal.BetweenPredicate(ca, (one, two)), lambda: qal.BetweenPredicate(ca, (two, one)), lambda: qal.BetweenPredicate(cb, (one, two)), lambda: qal.BetweenPredicate(ca, (one, one))],
        "in": [lambda: qal.InPredicate(ca, [one]), lambda: qal.InPredicate(ca, [one, two]), lambda: qal.InPredicate(cb, [one]), lambda: qal.InPredicate(ca, [two]),
               lambda: qal.InPredicate.subquery(ca, q1)],
        "unary": [lambda: qal.UnaryPredicate.exists(q1), lambda: qal.UnaryPredicate.exists(q2), lambda: qal.UnaryPredicate(ca), lambda: qal.UnaryPredicate(cb)],
        "compound": [lambda: qal.CompoundPredicate.create_and([eq, lt]), lambda: qal.CompoundPredicate.create_or([eq, lt]), lambda: qal.CompoundPredicate.create_and([lt, eq]),
                     lambda: qal.CompoundPredicate.create_not(eq), lambda: qal.CompoundPredicate.create_not(lt), lambda: qal.CompoundPredicate.create_and([eq, lt, join])],
        "hint": [lambda: qal.Hint("SET x TO 1;"), lambda: qal.Hint("", "SET x TO 1;"), lambda: qal.Hint("a", "b"), lambda: qal.Hint("a", "c"), lambda: qal.Hint("b", "b")],
        "explain": [lambda: qal.Explain(False, None), lambda: qal.Explain(True, None), lambda: qal.Explain(False, "JSON"), lambda: qal.Explain(True, "JSON"), lambda: qal.Explain(False, "XML")],
        "with": [lambda: qal.WithQuery(q1, "c"), lambda: qal.WithQuery(q2, "c"), lambda: qal.WithQuery(q1, "d"), lambda: qal.WithQuery(q1, "c", materialized=True),
                 lambda: qal.WithQuery(q1, "c", materialized=False)],
        "values-with": [lambda: qal.ValuesWithQuery(vals[0], target_name="c", columns=["a", "b"]), lambda: qal.ValuesWithQuery(vals[1], target_name="c", columns=["a", "b"]),
                        lambda: qal.ValuesWithQuery(vals[0], target_name="d", columns=["a", "b"]), lambda: qal.ValuesWithQuery(vals[0], target_name="c", columns=["b", "a"]),
                        lambda: qal.ValuesWithQuery(vals[2], target_name="c", columns=["a", "b"]), lambda: qal.ValuesWithQuery(vals[0], target_name="c"),
                        lambda: qal.ValuesWithQuery(vals[0], target_name="c", columns=["a", "b"], materialized=True)],
        "cte": [lambda: qal.CommonTableExpression([qal.WithQuery(q1, "c")]), lambda: qal.CommonTableExpression([qal.WithQuery(q1, "c")], recursive=True),
                lambda: qal.CommonTableExpression([qal.WithQuery(q1, "c"), qal.WithQuery(q2, "d")]), lambda: qal.CommonTableExpression([qal.WithQuery(q2, "d"), qal.WithQuery(q1, "c")]),
                lambda: qal.CommonTableExpression([qal.WithQuery(q1, "c", materialized=True)])],
        "projection": [lambda: P(ca), lambda: P(cb), lambda: P(ca, "x"), lambda: P(ca, "y"), lambda: P(one), lambda: P.count_star()],
        "select": [lambda: qal.Select([P(ca)]), lambda: qal.Select([P(ca), P(cb)]), lambda: qal.Select([P(cb), P(ca)]), lambda: qal.Select([P(ca)], distinct=True),
                   lambda: qal.Select([P(ca)], distinct=[ca]), lambda: qal.Select([P(ca)], distinct=[cb]), lambda: qal.Select.star(), lambda: qal.Select.count_star()],
        "source": [lambda: D(r), lambda: D(s), lambda: qal.SubqueryTableSource(q1, "x"), lambda: qal.SubqueryTableSource(q2, "x"), lambda: qal.SubqueryTableSource(q1, "y"),
                   lambda: qal.SubqueryTableSource(q1, "x", lateral=True), lambda: qal.ValuesTableSource(vals[0], alias="x", columns=["a", "b"]),
                   lambda: qal.ValuesTableSource(vals[1], alias="x", columns=["a", "b"]), lambda: qal.ValuesTableSource(vals[0], alias="y", columns=["a", "b"]),
                   lambda: qal.ValuesTableSource(vals[0], alias="x", columns=["b", "a"]), lambda: qal.FunctionTableSource(F("f", [one]), alias="x"), lambda: qal.FunctionTableSource(F("f", [two]), alias="x"),
                   lambda: qal.FunctionTableSource(F("f", [one]), alias="y"),
                   *[(lambda t=t: qal.JoinTableSource(D(r), D(s), join_condition=join, join_type=t)) for t in (JT.InnerJoin, JT.LeftJoin, JT.RightJoin, JT.OuterJoin)],
                   lambda: qal.JoinTableSource(D(s), D(r), join_condition=join, join_type=JT.InnerJoin), lambda: qal.JoinTableSource(D(r), D(s), join_condition=eq, join_type=JT.InnerJoin),
                   lambda: qal.JoinTableSource(D(r), D(s), join_type=JT.CrossJoin)],
        "from": [lambda: qal.ImplicitFromClause.create_for([r]), lambda: qal.ImplicitFromClause.create_for([r, s]), lambda: qal.ImplicitFromClause.create_for([s, r]),
                 lambda: qal.From([qal.SubqueryTableSource(q1, "x", lateral=True)]), lambda: qal.From([qal.SubqueryTableSource(q1, "x")])],
        "where": [lambda: qal.Where(eq), lambda: qal.Where(lt), lambda: qal.Having(eq), lambda: qal.Having(lt)],
        "group": [lambda: qal.GroupBy([ca]), lambda: qal.GroupBy([cb]), lambda: qal.GroupBy([ca, cb]), lambda: qal.GroupBy([cb, ca]), lambda: qal.GroupBy([ca], distinct=True)],
        "order-expr": [lambda: qal.OrderByExpression(ca), lambda: qal.OrderByExpression(ca, True), lambda: qal.OrderByExpression(ca, False), lambda: qal.OrderByExpression(cb),
                       lambda: qal.OrderByExpression(ca, nulls_first=True), lambda: qal.OrderByExpression(ca, nulls_first=False), lambda: qal.OrderByExpression(ca, True, True)],
        "order": [lambda: qal.OrderBy([qal.OrderByExpression(ca)]), lambda: qal.OrderBy([qal.OrderByExpression(ca), qal.OrderByExpression(cb)]),
                  lambda: qal.OrderBy([qal.OrderByExpression(cb), qal.OrderByExpression(ca)])],
        "limit": [lambda: qal.Limit(limit=1), lambda: qal.Limit(limit=2), lambda: qal.Limit(offset=1), lambda: qal.Limit(limit=1, offset=1), lambda: qal.Limit(limit=0), lambda: qal.Limit(limit=1, offset=0)],
        "setop": [*[(lambda t=t: Q(t)) for t in ("SELECT r.a FROM r UNION SELECT s.a FROM s", "SELECT r.a FROM r UNION ALL SELECT s.a FROM s", "SELECT r.a FROM r EXCEPT SELECT s.a FROM s",
                                                  "SELECT s.a FROM s UNION SELECT r.a FROM r", "SELECT r.a FROM r UNION SELECT s.a FROM s LIMIT 1", "SELECT r.a FROM r UNION SELECT s.a FROM s ORDER BY 1",
                                                  "SELECT r.a FROM r UNION SELECT s.a FROM s ORDER BY 1 DESC", "EXPLAIN SELECT r.a FROM r UNION SELECT s.a FROM s",
                                                  "/*+ HashJoin(r s) */ SELECT r.a FROM r UNION SELECT s.a FROM s", "WITH c AS (SELECT t.a FROM t) SELECT r.a FROM r UNION SELECT s.a FROM s")]],
        "query": [*[(lambda t=t: Q(t)) for t in ("SELECT r.a FROM r", "EXPLAIN SELECT r.a FROM r", "EXPLAIN ANALYZE SELECT r.a FROM r", "SELECT r.a FROM r WHERE r.a = 1", "SELECT r.a FROM r HAVING r.a = 1",
                                                  "SELECT r.a FROM r GROUP BY r.a", "SELECT r.a FROM r ORDER BY r.a", "SELECT r.a FROM r LIMIT 1", "SELECT r.a FROM r OFFSET 1", "/*+ a */ SELECT r.a FROM r",
                                                  "/*+ b */ SELECT r.a FROM r", "WITH c AS (SELECT t.a FROM t) SELECT r.a FROM r", "WITH c AS MATERIALIZED (SELECT t.a FROM t) SELECT r.a FROM r",
                                                  "SELECT DISTINCT r.a FROM r", "SELECT r.a AS x FROM r", "SELECT r.a FROM r, s")]],
    }
    for name, makers in fam.items():
        objs = [m() for m in makers]
        again = [m() for m in makers]
        for i, x in enumerate(objs):
            mon.check(pair(mon, x, again[i]) is True, f"rebuild:{name}", lambda: f"{x} / {again[i]}")
            mon.check(len({x, again[i]}) == 1, f"rebuild-set:{name}", lambda: f"{x}")
            for j in range(i + 1, len(objs)):
                mon.count("families")
                e = pair(mon, x, objs[j])
                mon.check(not e, f"variant:{name}", lambda: f"{x!r} == {objs[j]!r}\n{x} / {objs[j]}", key=("fam", name, i, j))
        mon.check(len(set(objs)) == len(objs), f"variants-set:{name}", lambda: f"{objs}")
        copies(mon, rng.choice(objs), name)
    # simplified views agree with the predicate they wrap, whichever side they are on
    for p in (eq, lt, qal.BetweenPredicate(ca, (one, two)), qal.InPredicate(ca, [one, two])):
        v = qal.SimpleFilter.wrap(p)
        pair(mon, v, p)
        pair(mon, v, qal.SimpleFilter.wrap(p))
        mon.check(v == qal.SimpleFilter.wrap(p), "view", f"{p}")
        copies(mon, v, "view")
    pair(mon, qal.InPredicate(ca, [one, two]), qal.InPredicate(ca, [two, one]))
    v = qal.SimpleJoin.wrap(join)
    pair(mon, v, join)
    copies(mon, v, "view")
    # constructor arguments stay the caller's
    for mk in (lambda l: qal.InPredicate(ca, l), lambda l: qal.Select(l), lambda l: qal.GroupBy(l), lambda l: F("f", l), lambda l: qal.ArrayExpression(l), lambda l: qal.CompoundPredicate(Op.Or, l) if False else
               qal.CompoundPredicate.create_or(l), lambda l: qal.OrderBy(l), lambda l: qal.CommonTableExpression(l), lambda l: qal.From(l), lambda l: qal.ValuesTableSource(l, alias="x"),
               lambda l: qal.ValuesWithQuery(l, target_name="x"), lambda l: W(F("rank", []), partitioning=l), lambda l: qal.CaseExpression(l), lambda l: qal.MathExpression(qal.MathOperator.Add, ca, l)):
        for items in ([one, two], [P(ca), P(cb)], [ca, cb], [eq, lt], [qal.OrderByExpression(ca)], [qal.WithQuery(q1, "c")], [D(r)], [(one, two)], [(eq, one)]):
            arg = list(items)
            try:
                o = mk(arg)
                txt, h = str(o), hash(o)
            except Exception:
                continue
            arg.clear()
            mon.count("aliasing")
            mon.check(str(o) == txt and hash(o) == h and o == mk(list(items)), f"argument-alias:{type(o).__name__}", lambda: f"{txt} -> {o}", key=("alias", type(o).__name__))
    # one column is one expression, whatever the spelling
    mon.check(C("A", r) == a and hash(C("A", r)) == hash(a) and T("R") == r and hash(T("R")) == hash(r), "case", "identifiers are case-insensitive")
    mon.check(C("A", r) in {a} and u != a, "case-set", "")


def tables(mon, rng):
    names, schemas = ["r", "R", "s", "Movie Info", "a.b", "select"], ["", "", "q", "Q", "z"]

    def make():
        if rng.random() < 0.15:
            return TableReference("", rng.choice(names), virtual=True)
        return TableReference(rng.choice(names), rng.choice(["", *names]), virtual=rng.random() < 0.2, schema=rng.choice(schemas))

    def k(t):
        return (t.full_name.lower(), t.alias.lower(), t.schema.lower())
    pool = [make() for _ in range(12)]
    for a in pool:
        mon.count("tables")
        for b in pool:
            e = pair(mon, a, b)
            if k(a) != k(b):
                mon.check(not e, "table-distinct", lambda: f"{a!r} {b!r}", key=("tab", k(a), k(b)))
            elif a.virtual == b.virtual:
                mon.check(e, "table-same", lambda: f"{a!r} {b!r}")
            mon.check(not (a < b and b < a) and not (a == b and (a < b or b < a)), "table-order", lambda: f"{a!r} {b!r}")
            ca, cb = ColumnReference("x", a), ColumnReference(rng.choice(["x", "X", "y"]), b)
            mon.check((ca == cb) == (a == b and cb.name.lower() == "x"), "column-eq", lambda: f"{ca!r} {cb!r}")
            pair(mon, ca, cb)
            mon.check(not (ca < cb and cb < ca) and (ca < cb or cb < ca or ca == cb or ca.table.identifier().lower() == cb.table.identifier().lower()), "column-order",
                      lambda: f"{ca!r} {cb!r}")
        before = (a.full_name, a.alias, a.schema, a.virtual)
        n = rng.choice(names)

        def st(t):
            return (t.full_name, t.alias, t.schema, t.virtual)
        if a.full_name:
            mon.eq(st(a.with_alias(n)), (a.full_name, n, a.schema, a.virtual), "with-alias", f"{a!r}")
        if not a.virtual:
            mon.eq(st(a.drop_alias()), (a.full_name, "", a.schema, False), "drop-alias", f"{a!r}")
        mon.eq(st(a.make_virtual()), (a.full_name, a.alias, a.schema, True), "make-virtual", f"{a!r}")
        mon.eq(st(a.update()), before, "update-nothing", f"{a!r}")
        mon.eq(st(a.update(alias=n)), (a.full_name, n, a.schema, a.virtual), "update-alias", f"{a!r}")
        mon.eq(st(a.update(virtual=not a.virtual)), (a.full_name, a.alias, a.schema, not a.virtual), "update-virtual", f"{a!r}")
        mon.eq(st(a.update(full_name=n)), (n, a.alias, a.schema, a.virtual), "update-name", f"{a!r}")
        if a.full_name:
            mon.eq(st(a.update(schema="zz")), (a.full_name, a.alias, "zz", a.virtual), "update-schema", f"{a!r}")
            if a.schema:
                mon.eq(st(a.update(schema="")), (a.full_name, a.alias, "", a.virtual), "update-schema-drop", f"{a!r}")
        c = ColumnReference(n, a)
        mon.check(c.is_bound() and c.belongs_to(a) and not c.as_unbound().is_bound() and c.as_unbound().name == n and c.as_unbound().bind_to(a) == c and st(c.table) == before, "bind", f"{c!r}")
        if not a.virtual:
            mon.check(st(c.drop_table_alias().table) == (a.full_name, "", a.schema, False) and c.drop_table_alias().name == n, "column-drop-alias", f"{c!r}")
        mon.eq(st(a), before, "table-unchanged", f"{a!r}")
        copies(mon, a, "")
        copies(mon, c, "")
        for kk in [x for x in ("full_name", "alias", "schema", "virtual")]:
            try:
                setattr(a, kk, "zzz")
            except AttributeError:
                continue
            mon.fail("settable", f"{kk} of {a!r}")


SKIP = {"accept_visitor", "ast", "mro"}


def snap(objs):
    return [(show(o), hash(o), sorted(map(repr, o.tables())) if hasattr(o, "tables") else None, sorted(map(repr, o.columns())) if hasattr(o, "columns") else None) for o in objs]


def wreck(v, depth=0):
    """Destroys a returned container."""
    try:
        if isinstance(v, (set, list, dict)):
            v.clear()
            if isinstance(v, set):
                v.add("wrecked")
            elif isinstance(v, list):
                v.append("wrecked")
        elif type(v).__name__ in ("Graph", "DiGraph"):
            v.clear()
    except Exception:
        pass


def immutable(mon, rng):
    sql = sqlgen.Gen(rng, sqlgen.Opts(depth=2)).query().sql
    q = quiet_parse(sql)
    if q is None:
        return
    objs = collect(q)
    rng.shuffle(objs)
    objs = [q, *objs[:25]]
    if isinstance(q, _qal.SqlQuery) and q.predicates():
        objs.append(q.predicates())
    q2 = quiet_parse(sql)
    before = snap(objs)
    dump = pickle.dumps(q2)
    outs = []
    for rnd in (0, 1):
        now = {}
        for i, o in enumerate(objs):
            for name in dir(type(o)):
                if name.startswith("_") or name in SKIP or name in getattr(type(o), "__annotations__", {}):
                    continue
                attr = getattr(type(o), name)
                if isinstance(attr, (staticmethod, classmethod)) or name in type(o).__dict__ and isinstance(type(o).__dict__[name], (staticmethod, classmethod)):
                    continue
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        v = getattr(o, name)
                        if callable(v) and not isinstance(v, BLOCKS):
                            v = v()
                    except (TypeError, NotImplementedError):
                        continue
                    except Exception as x:
                        v = f"{type(x).__name__}"
                if hasattr(v, "__next__"):
                    v = list(v)
                if isinstance(v, (set, frozenset)):
                    now[i, name] = ("set", frozenset(map(repr, v)))
                elif isinstance(v, (list, tuple)):
                    now[i, name] = ("seq", tuple(sorted(map(str, v))))
                elif type(v).__name__ in ("Graph", "DiGraph"):
                    now[i, name] = ("graph", frozenset(map(str, v.nodes)), len(v.edges))
                elif isinstance(v, BLOCKS) or isinstance(v, (str, int, bool, type(None))):
                    now[i, name] = str(v)
                mon.count("members")
                wreck(v)
        outs.append(now)
        mon.eq(snap(objs), before, "changed-by-call", sql)
    diff = {k: (outs[0][k], outs[1].get(k)) for k in outs[0] if outs[0][k] != outs[1].get(k)}
    names = sorted({f"{type(objs[i]).__name__}.{n}" for i, n in diff})
    mon.check(not diff, "answers-change", lambda: f"{names}\n{list(diff.items())[:2]}\n{sql}", key=("imm", sql[:100]))
    mon.count("immutable")
    mon.check(q == q2 and pickle.loads(dump) == q and hash(q) == hash(q2), "query-changed", sql)
    # transformations and clause operations work on copies
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for f in (transform.as_star_query, transform.as_count_star_query, transform.as_explain, transform.as_explain_analyze, transform.drop_hints,
                  lambda x: transform.add_clause(x, qal.Hint("SET x TO 1;")), lambda x: transform.rename_table(x, next(iter(x.tables())), TableReference("zz"))):
            try:
                f(q)
            except Exception:              # P05's business
                pass
    mon.eq(snap(objs), before, "changed-by-transformation", sql)


SCENARIOS = [Scenario(pools, quick=300, thorough=5000), Scenario(families, quick=8, thorough=40), Scenario(tables, quick=150, thorough=2000), Scenario(immutable, quick=450, thorough=5000)]
