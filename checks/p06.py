"""P06: the join graph mirrors the query and the merge history."""
import copy
import itertools
import sqlite3

import postbound as pb
from postbound.opt import JoinGraph
from postbound.parser import parse_query
from postbound.qal import CompoundPredicate

from lib.vlib import Scenario

PROPERTY = "P06"
TECHNIQUE = ("online state monitor: every public answer of the join graph after every operation of random mark/clone histories is compared with a model "
             "computed from the generated query; uniqueness claims of the index state are checked against materialised join results")
RULE = ("random queries (connected, disconnected, cyclic, self-joins, multi-predicate and non-equi edges) over a random key/index layout; random histories of "
        "marking joins (with and without explicit predicate), cloning and advancing clones; distinct by graph shape, history length and probed answer")
ASSUMPTIONS = ["only binary join predicates (exactly two columns) form edges, as documented",
               "for the transient index state, the monitor requires: unjoined tables keep their indexes, columns that still count as usable primary keys are unique in the "
               "materialised intermediate, and joining primary-key tables directly to a fact table keeps the remaining primary/foreign key joins of the fact table"]
REQUIRE = {"graphs": 400, "operations": 3000, "clones": 300, "uniqueness": 300, "components": 60, "deep-paths": 400, "equivalence": 60}

COLS = ["id", "a", "b", "c"]


class StubSchema:
    """Schema answers as the join graph needs them; records what it was asked."""

    def __init__(self, secondary):
        self.secondary = secondary

    def is_primary_key(self, column):
        return column.name == "id"

    def has_secondary_index(self, column):
        return (column.table.full_name, column.name) in self.secondary


class Case:
    def __init__(self, rng, n=None, connected=None, equi=False):
        n = n or rng.randint(2, 6)
        self.rng = rng
        names = [f"t{i}" for i in range(n)]
        self.tabs = {}  # alias -> base table
        for i in range(n):
            if i and rng.random() < 0.2:
                base = rng.choice(list(self.tabs.values()))
                self.tabs[f"x{i}"] = base
            elif rng.random() < 0.5:
                self.tabs[f"x{i}"] = names[i]
            else:
                self.tabs[names[i]] = names[i]
        # a base table that is used without alias must not appear twice unaliased; aliases are unique by construction
        self.names = list(self.tabs)
        self.secondary = {(b, c) for b in set(self.tabs.values()) for c in "abc" if rng.random() < 0.6}
        edges = {}
        order = list(self.names)
        rng.shuffle(order)
        shape = rng.choice(["tree", "chain", "star", "cycle", "random", "sparse"]) if connected is None else connected
        self.shape = shape
        pairs = set()
        if shape in ("tree", "random", "sparse"):
            for i in range(1, n):
                if shape == "sparse" and rng.random() < 0.4:
                    continue
                pairs.add((order[rng.randrange(i)], order[i]))
        if shape in ("chain", "cycle"):
            pairs |= set(zip(order, order[1:]))
            if shape == "cycle" and n > 2:
                pairs.add((order[-1], order[0]))
        if shape == "star":
            pairs |= {(order[0], t) for t in order[1:]}
        if shape == "random":
            for a, b in itertools.combinations(order, 2):
                if rng.random() < 0.25 and (b, a) not in pairs:
                    pairs.add((a, b))
        self.preds = []  # (text, a, ca, b, cb, kind)
        for a, b in pairs:
            for _ in range(1 if rng.random() < 0.75 else 2):
                kind = "eq" if equi else rng.choice(["eq"] * 6 + ["lt", "or", "not"])
                style = rng.choice(["fk", "fk", "pkpk", "nm", "any"])
                ca = {"fk": rng.choice("abc"), "pkpk": "id", "nm": rng.choice("abc"), "any": rng.choice(COLS)}[style]
                cb = {"fk": "id", "pkpk": "id", "nm": rng.choice("abc"), "any": rng.choice(COLS)}[style]
                if rng.random() < 0.5:
                    a, b, ca, cb = b, a, cb, ca
                l, r = f"{a}.{ca}", f"{b}.{cb}"
                txt = {"eq": f"{l} = {r}", "lt": f"{l} < {r}", "or": f"({l} = {r} OR {l} > {r} + 1)", "not": f"NOT {l} = {r}"}[kind]
                if any(p[0] == txt for p in self.preds):
                    continue
                self.preds.append((txt, a, ca, b, cb, kind))
        self.filters = [f"{t}.{rng.choice('abc')} < {rng.randint(0, 9)}" for t in self.names if rng.random() < 0.3]
        self.wide = []
        if not equi and n >= 3 and rng.random() < 0.15:  # not representable as an edge
            x, y, z = rng.sample(self.names, 3)
            self.wide.append(rng.choice([f"{x}.a = {y}.b + {z}.c", f"{x}.a = {y}.b + {y}.c"]))
        conj = [p[0] for p in self.preds] + self.filters + self.wide
        rng.shuffle(conj)
        frm = ", ".join(b if a == b else f"{b} AS {a}" for a, b in self.tabs.items())
        self.sql = f"SELECT {rng.choice(['*', 'count(*)', self.names[0] + '.a'])} FROM {frm}" + (f" WHERE {' AND '.join(conj)}" if conj else "")
        self.query = parse_query(self.sql, bind_columns=False)
        self.parsed = {p[0]: parse_query(f"SELECT * FROM {frm} WHERE {p[0]}", bind_columns=False).predicates().root for p in self.preds}
        by = {t.identifier(): t for t in self.query.tables()}
        assert set(by) == set(self.names), (by, self.names, self.sql)
        self.t = by
        self.edges = {}
        for p in self.preds:
            self.edges.setdefault(frozenset((p[1], p[3])), []).append(p)

    def index(self, t, c):
        return "primary" if c == "id" else "secondary" if (self.tabs[t], c) in self.secondary else "none"

    def pkfk(self, fk, pk):
        for _, a, ca, b, cb, kind in self.edges.get(frozenset((fk, pk)), []):
            cf, cp = (ca, cb) if a == fk else (cb, ca)
            if kind == "eq" and cp == "id" and self.index(fk, cf) != "none":
                return True
        return False

    def component(self, start, allowed):
        seen, todo = {start}, [start]
        while todo:
            x = todo.pop()
            for e in self.edges:
                if x in e:
                    (y,) = e - {x}
                    if y in allowed and y not in seen:
                        seen.add(y)
                        todo.append(y)
        return seen


def conjunct_texts(pred):
    parts = pred.children if isinstance(pred, CompoundPredicate) and pred.operation.name == "And" else [pred]
    return sorted(str(p) for p in parts)


def expected_texts(case, preds):
    return sorted(str(case.parsed[p[0]]) for p in preds)


def ident(t):
    return t.identifier()


def probe(mon, rng, case: Case, g: JoinGraph, joined: list, what):
    """Compare every public answer with the model."""
    N, J = set(case.names), set(joined)
    F = N - J
    T = case.t
    initial = not J
    mon.count("operations")
    key = (case.shape, len(N), len(J))
    ctx = lambda: f"{what}; joined {joined}; {case.sql}"  # noqa: E731
    mon.eq({ident(t) for t in g}, N, "nodes", ctx())
    mon.eq(len(g), len(N), "len", ctx())
    mon.eq({ident(t) for t in g.joined_tables()}, J, "joined", ctx(), key=("j", *key))
    mon.eq({ident(t) for t in g.free_tables()}, F, "free", ctx(), key=("f", *key))
    mon.eq(g.count_consumed_tables(), len(J), "consumed", ctx())
    mon.eq(g.initial(), initial, "initial", ctx())
    mon.eq(g.contains_free_tables(), bool(F), "contains_free", ctx())
    mon.eq(g.contains_cross_products(), len(case.component(case.names[0], N)) != len(N), "cross-products", ctx())
    mon.eq({frozenset(map(ident, e)) for e in g.all_joins()}, set(case.edges), "edges", ctx(), key=("e", len(case.edges)))
    mon.eq(len(list(g.all_joins())), len(case.edges), "edges", ctx())

    def path(p):
        return ident(p.start_table), ident(p.target_table)

    def check_pred(p):
        mon.eq(conjunct_texts(p.join_condition), expected_texts(case, case.edges[frozenset(path(p))]), "edge-predicate", ctx())
    avail = {e for e in case.edges if initial or len(e & J) == 1}
    for both in (False, True):
        paths = list(g.available_join_paths(both_directions_on_initial=both))
        got = [path(p) for p in paths]
        mult = 2 if both and initial else 1
        mon.check({frozenset(p) for p in got} == avail and len(got) == mult * len(avail) and len(set(got)) == len(got), "available-paths", lambda: f"{got} expected {avail}; {ctx()}",
                  key=("a", initial, both, len(avail)))
        if not initial:
            mon.check(all(s in J and t in F for s, t in got), "available-direction", lambda: f"{got}; {ctx()}")
        for p in paths[:3]:
            check_pred(p)
    for a in N:
        got = sorted(path(p) for p in g.available_join_paths_for(T[a]))
        want = sorted((a, next(iter(e - {a}))) for e in avail if a in e)
        mon.eq(got, want, "available-for", ctx())
        mon.eq(g.is_free_table(T[a]), a in F, "is_free", ctx())
        info = g[T[a]]
        mon.eq(info.free, a in F, "table-info", ctx())
        used = {c for p in case.preds for t, c in ((p[1], p[2]), (p[3], p[4])) if t == a}
        mon.eq(sorted((i.column.name, i.index_type) for i in info.index_info), sorted((c, case.index(a, c)) for c in used), "index-info", ctx())
        mon.check(all(ident(i.column.table) == a for i in info.index_info), "index-info-table", ctx())
        cand = set(rng.sample(sorted(N), rng.randint(0, len(N))))
        mon.eq({ident(t) for t in g.join_partners_from(T[a], {T[c] for c in cand})}, {c for c in cand if frozenset((a, c)) in case.edges and c != a}, "join-partners-from", ctx())
        if a in F:
            mon.check(not any(i.is_invalid for i in info.index_info), "free-table-index", lambda: f"index of free table {a} is invalid: {info.index_info}; {ctx()}", key=("fi", *key))
    valid = {(a, i.column.name): (i.is_primary(), i.is_indexed(), i.is_secondary()) for a in N for i in g[T[a]].index_info}
    for (a, c), (prim, idx, sec) in valid.items():
        mon.check(idx == (prim or sec) and not (prim and sec) and (not prim or case.index(a, c) == "primary") and (not sec or case.index(a, c) == "secondary"), "index-flags", ctx())

    def pkfk_now(fk, pk):
        for _, a, ca, b, cb, kind in case.edges.get(frozenset((fk, pk)), []):
            cf, cp = (ca, cb) if a == fk else (cb, ca)
            if kind == "eq" and valid[pk, cp][0] and valid[fk, cf][1]:
                return True
        return False
    now = {}
    for a, b in itertools.permutations(sorted(N), 2):
        now[a, b] = pkfk_now(a, b)
        if initial:
            assert now[a, b] == case.pkfk(a, b) or any(i.is_invalid for i in g[T[a]].index_info)
        mon.eq(g.joins_tables(T[a], T[b]), frozenset((a, b)) in case.edges, "joins_tables", ctx())
        mon.eq(g.is_available_join(T[a], T[b]), frozenset((a, b)) in avail, "is_available", ctx())
        mon.eq(g.is_pk_fk_join(T[a], T[b]), now[a, b], "pk-fk", f"fk {a} pk {b}; {ctx()}", key=("pkfk", initial, now[a, b]))
    nm = {e for e in case.edges if not any(now[p] for p in itertools.permutations(e))}
    for e in case.edges:
        a, b = sorted(e)
        mon.eq(g.is_n_m_join(T[a], T[b]), e in nm, "n-m", ctx())
    for both in (False, True):
        got = [path(p) for p in g.available_n_m_join_paths(both_directions_on_initial=both)]
        mon.check({frozenset(p) for p in got} == nm & avail and len(got) == len(nm & avail) * (2 if both and initial else 1) and len(set(got)) == len(got), "available-nm",
                  lambda: f"{got} expected {nm & avail}; {ctx()}")
    mon.eq(g.contains_free_n_m_joins(), bool(nm & avail), "contains-free-nm", ctx())
    for a in N:
        got = sorted(path(p) for p in g.available_pk_fk_joins_for(T[a]))
        want = sorted((a, b) for b in N if b != a and now.get((a, b)) and (a in F or b in F))
        mon.eq(got, want, "available-pkfk", ctx())
        # deep primary key paths: closure over pk/fk edges
        paths = list(g.available_deep_pk_join_paths_for(T[a], rng.choice([None, lambda t, e: ident(t)])))
        got = [path(p) for p in paths]
        mon.count("deep-paths")
        reach, todo = {a: 0}, [a]
        while todo:
            x = todo.pop(0)
            for y in sorted(N):
                if y not in reach and now.get((x, y)):
                    reach[y] = reach[x] + 1
                    todo.append(y)
        mon.check(sorted(t for _, t in got) == sorted(set(reach) - {a}), "deep-paths", lambda: f"from {a}: {got}, reachable {reach}; {ctx()}", key=("deep", len(got)))
        seen = {a}
        for (s, t), p in zip(got, paths):
            mon.check(s in seen and now[s, t], "deep-path-step", lambda: f"from {a}: {got}; {ctx()}")
            seen.add(t)
            check_pred(p)
        mon.check([reach[t] for _, t in got] == sorted(reach[t] for _, t in got), "deep-path-levels", lambda: f"from {a}: {got}; {ctx()}")
    xs, ys = ([T[t] for t in rng.sample(sorted(N), rng.randint(1, len(N)))] for _ in range(2))
    got = sorted(sum((conjunct_texts(p) for p in g.join_predicates_between(xs, ys)), []))
    want = sorted(sum((expected_texts(case, ps) for e, ps in case.edges.items() if any(frozenset((ident(x), ident(y))) == e for x in xs for y in ys)), []))
    mon.eq(got, want, "predicates-between", f"{xs} and {ys}; {ctx()}")
    got = sorted(sum((conjunct_texts(p) for p in g.join_predicates_between(xs)), []))
    want = sorted(sum((expected_texts(case, ps) for e, ps in case.edges.items() if e <= set(map(ident, xs))), []))
    mon.eq(got, want, "predicates-between", f"within {xs}; {ctx()}")
    nxg = g.nx_graph()
    mon.check({ident(t) for t in nxg.nodes} == N and all(nxg.nodes[T[t]]["free"] == (t in F) for t in N), "nx-graph", ctx())
    for t in N:
        nxg.nodes[T[t]]["free"] = "broken"
    mon.check({ident(t) for t in g.free_tables()} == F, "nx-graph-shared", "modifying the exported graph changes the join graph")


def uniqueness(mon, rng, case: Case, g: JoinGraph, joined):
    """A joined column that still counts as primary key must be unique in the intermediate result."""
    con = sqlite3.connect(":memory:")
    for b in set(case.tabs.values()):
        con.execute(f"CREATE TABLE {b} (id int, a int, b int, c int)")
        n = rng.randint(2, 4)
        for i in range(n):
            con.execute(f"INSERT INTO {b} VALUES (?,?,?,?)", (i, *(rng.randrange(max(2, n - 1)) for _ in "abc")))
    left = set(joined)
    while left:
        comp = case.component(next(iter(sorted(left))), set(joined))
        left -= comp
        preds = [p[0] for e, ps in case.edges.items() if e <= comp for p in ps]
        frm = ", ".join(f"{case.tabs[a]} AS {a}" for a in sorted(comp))
        where = f" WHERE {' AND '.join(preds)}" if preds else ""
        for a in comp:
            for i in g[case.t[a]].index_info:
                if i.is_primary():
                    dup = con.execute(f"SELECT {a}.{i.column.name}, count(*) FROM {frm}{where} GROUP BY 1 HAVING count(*) > 1 LIMIT 1").fetchone()
                    mon.count("uniqueness")
                    mon.check(dup is None, "usable-key-not-unique", lambda: f"{a}.{i.column.name} counts as primary key after joining {joined}, but has duplicates in the join of {sorted(comp)}; {case.sql}",
                              key=("uniq", len(comp)))
    con.close()


def history(mon, rng):
    case = Case(rng)
    g = JoinGraph(case.query, StubSchema(case.secondary))
    mon.count("graphs")
    graphs = [(g, [])]
    probe(mon, rng, case, g, [], "fresh")
    for a, b in itertools.permutations(case.names, 2):
        mon.eq(g.is_pk_fk_join(case.t[a], case.t[b]), case.pkfk(a, b), "pk-fk-initial", f"{a} {b}; {case.sql}")
    for step in range(rng.randint(1, 2 * len(case.names))):
        k = rng.randrange(len(graphs))
        g, joined = graphs[k]
        if rng.random() < 0.2 and len(graphs) < 4:
            c = g.clone()
            mon.count("clones")
            graphs.append((c, list(joined)))
            probe(mon, rng, case, c, joined, "clone")
            continue
        free = [t for t in case.names if t not in joined]
        if not free:
            continue
        adj = [t for t in free if any(frozenset((t, j)) in case.edges for j in joined)]
        t = rng.choice(adj) if adj and rng.random() < 0.85 else rng.choice(free)
        if joined and t in adj and rng.random() < 0.3:
            paths = [p for p in g.available_join_paths_for(case.t[t])]
            if len(paths) == 1:
                g.mark_joined(case.t[t], paths[0].join_condition)
            else:
                g.mark_joined(case.t[t])
        else:
            g.mark_joined(case.t[t])
        graphs[k] = (g, joined + [t])
        for i, (h, hj) in enumerate(graphs):
            probe(mon, rng, case, h, hj, f"step {step}, graph {i}, marked {t} on {k}")
        if len(joined) + 1 > 1:
            for _ in range(2):
                uniqueness(mon, rng, case, g, joined + [t])
    foreign = pb.TableReference("nowhere")
    mon.check(foreign not in g, "contains", "")
    mon.raises(lambda: g[foreign], "unknown-table", exc=KeyError)
    mon.raises(lambda: g.available_join_paths_for(foreign), "unknown-table", exc=ValueError)


def components(mon, rng):
    case = Case(rng, n=rng.randint(2, 6), connected=rng.choice(["sparse", "sparse", "tree"]))
    if case.wide:
        return
    g = JoinGraph(case.query, StubSchema(case.secondary))
    left, want = set(case.names), []
    while left:
        c = case.component(next(iter(left)), set(case.names))
        want.append(frozenset(c))
        left -= c
    comps = list(g.join_components())
    mon.count("components")
    mon.check({frozenset(map(ident, c)) for c in comps} == set(want) and len(comps) == len(want), "components", lambda: f"{[list(map(str, c)) for c in comps]} expected {want}; {case.sql}",
              key=("comp", len(want)))
    for c in comps:
        ts = set(map(ident, c))
        mon.eq({frozenset(map(ident, e)) for e in c.all_joins()}, {e for e in case.edges if e <= ts}, "component-edges", case.sql)
        mon.check(c.initial() and not c.contains_cross_products() and {ident(t) for t in c.query.tables()} == ts, "component-query", str(c.query))
        for a, b in c.all_joins():
            mon.eq(sum((conjunct_texts(p) for p in c.join_predicates_between(a, b)), []), expected_texts(case, case.edges[frozenset((ident(a), ident(b)))]), "component-predicate", case.sql)
    c = rng.choice(comps)
    t = rng.choice(list(c))
    c.mark_joined(t)
    mon.check(g.initial() and all(o.initial() for o in comps if o is not c), "component-shared-state", case.sql)


def star(mon, rng):
    """Fact table first, then its dimensions: the remaining primary/foreign key joins stay intact."""
    n = rng.randint(2, 5)
    dims = [f"d{i}" for i in range(n)]
    conj = [f"f.{'abc'[i % 3]} = {d}.id" if rng.random() < 0.5 else f"{d}.id = f.{'abc'[i % 3]}" for i, d in enumerate(dims)]
    q = parse_query(f"SELECT * FROM f, {', '.join(dims)} WHERE {' AND '.join(conj)}", bind_columns=False)
    T = {t.full_name: t for t in q.tables()}
    g = JoinGraph(q, StubSchema({("f", c) for c in "abc"}))
    g.mark_joined(T["f"])
    rng.shuffle(dims)
    for i, d in enumerate(dims):
        for e in dims[i:]:
            mon.check(g.is_pk_fk_join(T["f"], T[e]) and not g.is_pk_fk_join(T[e], T["f"]), "star", f"f-{e} is no primary/foreign key join after {dims[:i]}; {q}", key=("star", n, i))
        mon.check(not g.contains_free_n_m_joins(), "star", str(q))
        g.mark_joined(T[d])


def equivalence(mon, rng):
    case = Case(rng, n=rng.randint(2, 5), equi=True)
    g = JoinGraph(case.query, StubSchema(case.secondary), include_predicate_equivalence_classes=True)
    mon.count("equivalence")
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for _, a, ca, b, cb, _k in case.preds:
        parent[find((a, ca))] = find((b, cb))
    cols = list(parent)
    want = {}
    for x, y in itertools.combinations(sorted(cols), 2):
        if find(x) == find(y) and x[0] != y[0]:
            want.setdefault(frozenset((x[0], y[0])), set()).add(frozenset((x, y)))
    mon.eq({frozenset(map(ident, e)) for e in g.all_joins()}, set(want), "equivalence-edges", case.sql, key=("eq", len(want), len(case.edges)))
    for a, b in g.all_joins():
        pairs = set()
        for p in g.join_predicates_between(a, b):
            for x, y in p.join_partners():
                pairs.add(frozenset(((ident(x.table), x.name), (ident(y.table), y.name))))
        mon.eq(pairs, want[frozenset((ident(a), ident(b)))], "equivalence-predicates", case.sql)
    t = rng.choice(case.names)
    g.mark_joined(case.t[t])
    c = g.clone()
    mon.eq({frozenset(map(ident, e)) for e in c.all_joins()}, set(want), "equivalence-clone", case.sql)
    for u in case.names:
        if u != t and frozenset((t, u)) in want:
            c.mark_joined(case.t[u])
            mon.check({ident(x) for x in c.joined_tables()} == {t, u} and {ident(x) for x in g.joined_tables()} == {t}, "equivalence-mark", case.sql)
            break


SCENARIOS = [Scenario(history, quick=500, thorough=9000), Scenario(components, quick=200, thorough=3000), Scenario(star, quick=60, thorough=600),
             Scenario(equivalence, quick=200, thorough=3000)]
