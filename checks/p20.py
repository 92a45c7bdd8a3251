"""P20: the pre-checks accept exactly what they describe, judged by an independent classification of the query text."""
import itertools
import json
import warnings

import networkx as nx
from postbound import HintType, JoinOperator, ScanOperator, parser, qal, util, validation as v
from postbound.db import Database, HintService

from lib import db, sqlgen, sqloracle as so
from lib.vlib import Scenario

PROPERTY = "P20"
TECHNIQUE = "online monitor comparing the verdict of every pre-check with an independent classification over a second parser's syntax tree; recording members inside compound checks"
RULE = ("random queries (plain to deeply nested, set operations, CTEs, derived tables, all join types) against every check and configuration; random compositions of "
        "recording checks with arbitrary results; distinct by check, verdict and query shape")
ASSUMPTIONS = ["outer joins inside expression subqueries and CTEs, cross joins without predicates, and predicates whose join classification is open (P03) are not judged",
               "the equi-join check follows QueryPredicates.joins, as documented; for set queries it covers the members, not their CTEs"]
LEVEL_NOTE = ("seeded random queries with an exact classification of most of their features, and random check compositions incl. nested compounds, duplicates, generators and "
              "failing members without reasons; a handful of cases per run remain unclassified by design")
CHECKS = ("implicit", "cross", "virtual", "equi", "inner", "subquery", "dependent", "setop")
REQUIRE = {**{f"{c}:{x}": 40 for c in CHECKS for x in ("pass", "fail")}, "compound-pass": 100, "compound-fail": 200, "merged": 300, "db-fail": 100, "errors": 300}
COLS = {t: [c for c, _ in d["cols"]] for t, d in db.SCHEMA.items()}
REASONS = {"implicit": v.ImplicitFromClauseFailure, "cross": v.CrossProductFailure, "virtual": v.VirtualTablesFailure, "equi": v.EquiJoinFailure, "inner": v.InnerJoinFailure,
           "subquery": v.SubqueryFailure, "dependent": v.DependentSubqueryFailure, "setop": "SET_OPERATION"}
DB = None


def setup(mon):
    global DB
    warnings.simplefilter("ignore")
    DB, _ = db.postbound_db(mon.tmp + "/p20.duckdb", constraints=False)


# ---------------------------------------------------------------------------------------- oracle
def members(block):
    return [m for b in block.setinputs for m in members(b)] if block.setinputs else [block]


def is_values(block):
    return "valuesLists" in block.node


def predicate_blocks(block):
    out = [block]
    for b in list(block.ctes.values()) + block.fromsubs + block.setinputs:
        out += predicate_blocks(b)
    return out


def has_sublink(node):
    return "SubLink" in json.dumps(node, default=str)


def cross_product(block):
    """True/False, None where open: tables connected by plain comparisons, or separated whatever the predicates mean."""
    rels = {r.name for r in block.rels}
    if len(rels) < len(block.rels):
        return None
    sure, maybe = nx.Graph(), nx.Graph()
    for g in (sure, maybe):
        g.add_nodes_from(rels)
    if not rels:
        return False
    for b in predicate_blocks(block):      # names used inside a derived table may coincide with outer ones
        for c in b.conjuncts:
            names = {r for r in so.rels_of(c)} & rels
            maybe.add_edges_from(itertools.combinations(names, 2))
            if has_sublink(c):
                maybe.add_edges_from(itertools.combinations(rels, 2))
    for c in block.conjuncts:
        e = c.get("A_Expr")
        if e and e["kind"] == "AEXPR_OP" and "ColumnRef" in e["lexpr"] and "ColumnRef" in e["rexpr"] and len(so.rels_of(c) & rels) == 2:
            sure.add_edge(*(so.rels_of(c) & rels))
    if nx.is_connected(sure):
        return False
    return True if not nx.is_connected(maybe) else None


def equi(node, nesting):
    e = node.get("A_Expr")
    if has_sublink(node) or (e and e["kind"] in ("AEXPR_OP_ANY", "AEXPR_OP_ALL")):
        return None
    if not e or e["kind"] != "AEXPR_OP" or e["name"][-1]["String"]["sval"] != "=" or len(so.column_rels(node)) != 2:
        return False
    if nesting and not (so.column_rels(e["lexpr"]) and so.column_rels(e["rexpr"])):
        return None
    return nesting or ("ColumnRef" in e["lexpr"] and "ColumnRef" in e["rexpr"])


def equi_only(block, nesting):
    """All join predicates are equi joins; None if open."""
    if block.setinputs and block.ctes:
        return None
    result = True
    for b in predicate_blocks(block):
        for c in b.conjuncts:
            j = so.is_join(c)
            if "BoolExpr" in c and c["BoolExpr"]["boolop"] == "OR_EXPR":
                parts = [so.is_join(x) for x in c["BoolExpr"]["args"]]
                if None in parts or parts.count(True) == 1:
                    return None
            if j is None:
                return None
            if j:
                e = equi(c, nesting)
                if e is None:
                    return None
                result = result and e
    return result


def join_types(block):
    """Join types within the FROM clause, derived tables included; None for cross joins."""
    out = []

    def walk(f):
        if "JoinExpr" in f:
            j = f["JoinExpr"]
            out.append(j["jointype"])
            walk(j["larg"])
            walk(j["rarg"])
    for b in [m for m in members(block)]:
        for f in b.node.get("fromClause", []):
            walk(f)
        for s in b.fromsubs:
            out += join_types(s)
    return out


def hidden_outer_joins(block):
    return any(t not in ("JOIN_INNER",) for b in block.all_blocks() for t in join_types(b))


def dependent(block):
    """Some subquery (FROM or expression) at any depth refers to a relation of an enclosing block."""
    for b in block.all_blocks():
        for sub in b.exprsubs + b.fromsubs:
            inner = {id(r) for x in sub.all_blocks() for r in x.rels}
            inner_names = {r.name.lower() for x in sub.all_blocks() for r in x.rels}
            free = [rel for x in sub.all_blocks() for rel, _, _ in x.colrefs if rel not in (None, "output") and id(rel) not in inner]
            if any(rel.name.lower() in inner_names for rel in free):
                return None        # same name inside and outside: PostBOUND identifies tables by name
            if free:
                return True
            if any(rel is None for x in sub.all_blocks() for rel, _, _ in x.colrefs):
                return None
    return False


def classify(block):
    """check -> must pass (True), must fail (False), open (None)."""
    node = block.node
    plain = not block.setinputs
    items = node.get("fromClause", []) if plain else []
    out = {}
    out["implicit"] = False if not plain else None if not items else all("RangeVar" in i for i in items)
    cross = [cross_product(m) for m in members(block)]
    out["cross"] = False if True in cross else None if None in cross else True
    blocks = list(block.all_blocks())
    virtual = any(r.kind != "base" for b in blocks for r in b.rels)
    out["virtual"] = False if virtual else None if any(b.ctes for b in blocks) else True
    for key, nesting in (("equi", False), ("equi-nesting", True)):
        out[key] = equi_only(block, nesting)
    types = join_types(block)
    outer = any(t != "JOIN_INNER" for t in types)
    out["inner"] = False if outer else None if hidden_outer_joins(block) else True
    direct = any(m.exprsubs or m.fromsubs for m in members(block)) or (bool(block.exprsubs) if block.setinputs else False)
    anywhere = any(b.exprsubs or b.fromsubs for b in blocks)
    out["subquery"] = False if direct else None if anywhere else True
    dep = dependent(block)
    out["dependent"] = None if dep is None else not dep
    out["setop"] = not any(b.setinputs for b in blocks)
    return out


# ---------------------------------------------------------------------------------------- queries
def all_checks():
    return [("implicit", v.ImplicitQueryPreCheck()), ("cross", v.CrossProductPreCheck()), ("virtual", v.VirtualTablesPreCheck()), ("inner", v.InnerJoinPreCheck()),
            ("subquery", v.SubqueryPreCheck()), ("dependent", v.DependentSubqueryPreCheck()), ("setop", v.SetOperationsPreCheck()),
            ("equi", v.EquiJoinPreCheck()), ("equi", v.EquiJoinPreCheck(allow_conjunctions=True)),
            ("equi-nesting", v.EquiJoinPreCheck(allow_nesting=True)), ("equi-nesting", v.EquiJoinPreCheck(allow_nesting=True, allow_conjunctions=True))]


def draw_query(rng):
    kind = rng.randrange(6)
    if kind == 0:
        return sqlgen.spj(rng, connected=rng.random() < 0.6, equi=rng.random() < 0.6)[0]
    names = ["subqueries", "correlated", "explicit_joins", "outer_joins", "setops", "ctes", "values", "lateral", "from_subqueries", "quantifiers", "aggregates", "windows"]
    keep = 1.0 if kind == 5 else rng.choice([0.15, 0.3, 0.6])
    o = sqlgen.Opts(**{n: rng.random() < keep for n in names}, depth=rng.choice([1, 2, 3]), max_tables=rng.choice([2, 3, 4]))
    return sqlgen.Gen(rng, o).query().sql


def judge_result(mon, res, want, reason, what, key):
    if want is None:
        mon.count("open")
        return
    mon.count(f"{key[0].split('-')[0]}:{'pass' if want else 'fail'}")
    if not mon.eq(res.passed, want, f"verdict:{key[0]}", what, key=key):
        return
    reasons = list(util.enlist(res.failure_reason)) if res.failure_reason else []
    mon.eq(set(reasons), set() if want else {reason}, f"reason:{key[0]}", what)


def joins(mon, rng):
    judge_sql(mon, rng, sqlgen.wide(rng, n_tables=rng.choice([2, 2, 3])))


def queries(mon, rng):
    judge_sql(mon, rng, draw_query(rng))


def judge_sql(mon, rng, sql):
    block = so.Analyzer(COLS).analyze(sql)
    query = parser.parse_query(sql, bind_columns=True, db_schema=DB.schema(), accept_set_query=True)
    before, h = str(query), hash(query)
    want = classify(block)
    shape = tuple(sorted((k, x) for k, x in want.items() if x is not None))
    mon.sample("query", sql)
    results = []
    for name, check in all_checks():
        res = check.check_supported_query(query)
        judge_result(mon, res, want[name], REASONS[name.split("-")[0]], f"{type(check).__name__} {check.describe()} on\n{sql}\n({query})", (name, shape))
        mon.check(isinstance(res.passed, bool), "verdict-type", lambda: f"{type(check).__name__}: {res}")
        again = check.check_supported_query(query)
        mon.eq((again.passed, again.failure_reason), (res.passed, res.failure_reason), "repeatable", f"{type(check).__name__} on {sql}")
        results.append((check, res))
        mon.check(check.check_supported_database_system(DB).passed, "query-check-on-db", type(check).__name__)
        if rng.random() < 0.3:
            raised(mon, res, query)
    # conjunctions of the real checks
    picked = rng.sample(results, rng.randint(0, 5))
    comp = rng.choice([v.CompoundCheck, v.merge_checks])([c for c, _ in picked])
    res = comp.check_supported_query(query)
    mon.eq(res.passed, all(r.passed for _, r in picked), "compound-of-real", f"{[c.describe() for c, _ in picked]} on {sql}")
    mon.eq(set(util.enlist(res.failure_reason)) - {""}, {x for _, r in picked for x in util.enlist(r.failure_reason)} - {""}, "compound-of-real-reasons",
           f"{[c.describe() for c, _ in picked]} on {sql}")
    mon.eq((str(query), hash(query)), (before, h), "query-altered", sql)


def raised(mon, res, query):
    mon.count("errors")
    reasons = [r for r in util.enlist(res.failure_reason) if r]
    for ctx, exc in ((query, v.UnsupportedQueryError), (DB, v.UnsupportedSystemError), (None, util.StateError)):
        err = None
        try:
            res.ensure_all_passed(ctx) if ctx is not None else res.ensure_all_passed()
        except (v.UnsupportedQueryError, v.UnsupportedSystemError, util.StateError) as e:
            err = e
        mon.check(type(err) is (type(None) if res.passed else exc), "ensure-error", lambda: f"{res} raised {err!r} for {type(ctx).__name__}")
        if err is None:
            continue
        mon.check(all(r in str(err) for r in reasons), "ensure-error-reasons", lambda: f"{res}: {err}")
        if ctx is query:
            mon.check(err.query is query and (list(util.enlist(err.features)) == list(util.enlist(res.failure_reason)) or err.features == ", ".join(util.enlist(res.failure_reason))),
                      "error-context", lambda: f"{err.features} for {res}")
        elif ctx is DB:
            mon.check(err.db_system is DB, "error-context-db", lambda: f"{err.db_system}")


# ---------------------------------------------------------------------------------------- compositions
class Hinting(HintService):
    def __init__(self, supported):
        self.supported = supported

    def generate_hints(self, *a, **kw):
        raise AssertionError("no hints requested")

    def format_query(self, query):
        raise AssertionError("no formatting requested")

    def supports_hint(self, hint):
        return hint in self.supported


class FakeDb(Database):
    def __init__(self, supported):
        self._h = Hinting(supported)

    def hinting(self):
        return self._h

    def __str__(self):
        return "fake"

    def __repr__(self):
        return "fake"


for _name in getattr(FakeDb, "__abstractmethods__", ()):
    setattr(FakeDb, _name, lambda self, *a, **kw: (_ for _ in ()).throw(AssertionError("not expected")))
FakeDb.__abstractmethods__ = frozenset()
Hinting.__abstractmethods__ = frozenset()


class Recorder(v.OptimizationPreCheck):
    """A leaf with scripted results that records who asked it what."""

    def __init__(self, name, qres, dres, log):
        super().__init__(name)
        self.qres, self.dres, self.log = qres, dres, log

    def check_supported_query(self, query):
        self.log.append(("q", self.name, query))
        return self.qres

    def check_supported_database_system(self, database_instance):
        self.log.append(("d", self.name, database_instance))
        return self.dres

    def describe(self):
        return {"name": self.name}


def scripted(rng, name):
    kind = rng.randrange(8)
    if kind < 4:
        return v.PreCheckResult() if rng.random() < 0.7 else v.PreCheckResult.with_all_passed()
    if kind == 4:
        return v.PreCheckResult(True, f"{name}-ignored")
    if kind == 5:
        return v.PreCheckResult.with_failure([f"{name}-a", f"{name}-b"][: rng.randint(0, 2)])
    return rng.choice([v.PreCheckResult.with_failure(f"{name}-bad"), v.PreCheckResult(False), v.PreCheckResult(False, f"{name}-bad")])


def reasons_of(res):
    return {r for r in util.enlist(res.failure_reason) if r}


HINTS = list(HintType) + list(ScanOperator) + list(JoinOperator)


def compositions(mon, rng):
    log = []
    supported = set(rng.sample(HINTS, rng.randint(0, len(HINTS))))
    fdb = FakeDb(supported)
    query = parser.parse_query(sqlgen.spj(rng)[0], bind_columns=False)
    leaves = []          # (check, query result, db result)
    for i in range(rng.randint(1, 6)):
        kind = rng.randrange(6)
        if kind < 3:
            q_, d_ = scripted(rng, f"q{i}"), scripted(rng, f"d{i}")
            leaves.append((Recorder(f"r{i}", q_, d_, log), q_, d_))
        elif kind == 3:
            picked = rng.sample(HINTS, rng.randint(0, 3))
            form = rng.choice([list, tuple, set, frozenset, "single"])
            arg = (picked[0] if picked else HINTS[0]) if form == "single" else form(picked)
            if form == "single":
                picked = picked[:1] or HINTS[:1]
            bad = [str(h) for h in picked if h not in supported]
            leaves.append((v.SupportedHintCheck(arg), v.PreCheckResult(), v.PreCheckResult(not bad, bad)))
        elif kind == 4:
            q_, d_ = scripted(rng, f"cq{i}"), scripted(rng, f"cd{i}")
            use_q, use_d = rng.random() < 0.7, rng.random() < 0.7
            leaves.append((v.CustomCheck(f"c{i}", query_check=(lambda _, r=q_: r) if use_q else None, db_check=(lambda _, r=d_: r) if use_d else None),
                           q_ if use_q else v.PreCheckResult(), d_ if use_d else v.PreCheckResult()))
        else:
            leaves.append((v.EmptyPreCheck(), v.PreCheckResult(), v.PreCheckResult()))

    def judge(check, parts, how):
        for which, ctx, results in (("query", query, [p[1] for p in parts]), ("db", fdb, [p[2] for p in parts])):
            del log[:]
            res = check.check_supported_query(ctx) if which == "query" else check.check_supported_database_system(ctx)
            mon.check(all(e[2] is ctx for e in log), "compound-input", lambda: f"{how}: a member was asked about something else: {log}")
            want = all(r.passed for r in results)
            mon.count("compound-pass" if want else "compound-fail")
            if which == "db" and not want:
                mon.count("db-fail")
            desc = f"{how} ({which}): " + "; ".join(f"{type(p[0]).__name__}->{r}" for p, r in zip(parts, results))
            if not mon.eq(res.passed, want, "compound-verdict", desc, key=(how, which, want, len(parts))):
                continue
            if not want:        # reasons of members that passed do not matter
                mon.eq(reasons_of(res), {x for r in results if not r.passed for x in reasons_of(r)}, "compound-reasons", desc)
            # asking twice makes no difference
            again = check.check_supported_query(ctx) if which == "query" else check.check_supported_database_system(ctx)
            mon.eq((again.passed, reasons_of(again)), (res.passed, reasons_of(res)), "compound-repeatable", desc)
        try:
            util.to_json(check.describe())
        except TypeError as e:
            mon.fail("describe", f"{how}: {check.describe()} is not JSON-serializable: {e}")
        atoms = [p[0] for p in parts if not isinstance(p[0], v.EmptyPreCheck)]
        mon.check(isinstance(check, v.EmptyPreCheck) or all(a in check for a in atoms), "contains", lambda: f"{how}: {check} does not contain {atoms}")
        mon.check(not any(isinstance(a, Recorder) and a in check for a in [Recorder("absent", None, None, [])]), "contains-other", lambda: f"{how}: {check}")

    for leaf in leaves:
        judge(leaf[0], [leaf], "leaf")
    how = rng.choice(["compound", "compound-nested", "merge", "merge-more", "merge-nested", "merge-single", "merge-empty-first"])
    dup = leaves + [rng.choice(leaves)] if rng.random() < 0.4 else leaves
    checks = [x[0] for x in dup]
    k = rng.randint(0, len(checks))
    if how == "compound":
        comp = v.CompoundCheck(rng.choice([list, tuple, iter])(checks))
    elif how == "compound-nested":
        comp = v.CompoundCheck([v.CompoundCheck(checks[:k]), *checks[k:], v.CompoundCheck([v.CompoundCheck(checks[:1])])])
    elif how == "merge":
        comp = v.merge_checks(rng.choice([list, tuple, set])(checks))
    elif how == "merge-more":
        comp = v.merge_checks(checks[:k], *checks[k:])
    elif how == "merge-nested":
        comp = v.merge_checks([v.CompoundCheck(checks[:k]), v.merge_checks(checks[k:]), v.EmptyPreCheck()])
    elif how == "merge-empty-first":
        comp = v.merge_checks(v.EmptyPreCheck(), *checks)
    else:
        comp = v.merge_checks(checks[0], *checks[1:])
    judge(comp, leaves, how)
    if how.startswith("merge"):
        mon.count("merged")
        unique = [x[0] for x in leaves if not isinstance(x[0], v.EmptyPreCheck)]
        unique = [c for i, c in enumerate(unique) if c not in unique[:i]]
        members_ = [] if isinstance(comp, v.EmptyPreCheck) else comp.checks if isinstance(comp, v.CompoundCheck) else [comp]
        mon.check(len(members_) == len(unique) and all(m in unique for m in members_), "merged-members", lambda: f"{how}: {members_} from {checks}")
        mon.check(len(unique) != 1 or not isinstance(comp, v.CompoundCheck), "merged-single", lambda: f"{how}: {comp}")
    res = v.PreCheckResult.merge([x[1] for x in leaves])
    if rng.random() < 0.5:
        res = v.PreCheckResult.merge(x[1] for x in leaves)
    mon.eq(res.passed, all(x[1].passed for x in leaves), "merge-result", f"{[x[1] for x in leaves]}")
    mon.eq(reasons_of(res), {r for x in leaves if not x[1].passed for r in reasons_of(x[1])}, "merge-result-reasons", f"{[x[1] for x in leaves]}")
    raised(mon, res, query)


SCENARIOS = [Scenario(queries, quick=5000, thorough=60000), Scenario(joins, quick=1500, thorough=20000), Scenario(compositions, quick=4000, thorough=60000)]
