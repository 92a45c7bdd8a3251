"""P08: plan enumeration and plan sampling stay inside, and cover, the plan space."""
import itertools
import random

from postbound import IntermediateOperator, JoinOperator, JoinTree, ScanOperator
from postbound._hints import PhysicalOperatorAssignment
from postbound.db import DatabasePool
from postbound.opt.enumeration import ExhaustiveJoinOrderEnumerator, ExhaustiveOperatorEnumerator, ExhaustivePlanEnumerator
from postbound.opt.randomized import (RandomJoinOrderGenerator, RandomJoinOrderOptimizer, RandomOperatorGenerator, RandomOperatorOptimizer, RandomPlanGenerator,
                                      RandomPlanOptimizer)
from postbound.parser import parse_query

from lib.plans import leaves, pool, subtrees, tkey
from lib.vlib import Scenario

PROPERTY = "P08"
TECHNIQUE = ("online monitor on the generators: every yielded join order, operator assignment or plan is reduced to a neutral form and checked against the plan space "
             "computed by an independent brute-force recursion; exhaustive generators must deliver that space without repetition, random ones are sampled until every member "
             "with the known minimum probability must have appeared")
RULE = "random join graphs (trees, chains, stars, cycles, cliques, disconnected, isolated tables), structures, operator subsets and seeds; distinct by graph shape and configuration"
ASSUMPTIONS = ["queries with cross products are rejected with ValueError, as documented", "duplicate elimination is only consumed up to the size of the space",
               "plan generators without scan or join operators are not used (a plan needs operators)"]
REQUIRE = {"orders": 3000, "assignments": 3000, "plans": 2000, "sampled-orders": 20000, "sampled-assignments": 3000, "sampled-plans": 1500, "rejected": 20, "coverage": 60,
           "left-deep": 20, "right-deep": 20, "bushy": 20}

SC = [ScanOperator.SequentialScan, ScanOperator.IndexScan, ScanOperator.IndexOnlyScan, ScanOperator.BitmapScan]
JO = [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin]


class Hints:
    def __init__(self, ops):
        self.ops = frozenset(ops)

    def supports_hint(self, h):
        return h in self.ops


class Db:
    def __init__(self, ops):
        self._h = Hints(ops)

    def hinting(self):
        return self._h


# --- oracle --------------------------------------------------------------------------------------------------------
def connected(tabs, edges):
    tabs = set(tabs)
    seen, todo = set(), [next(iter(tabs))]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        todo += [x for e in edges if t in e for x in e if x in tabs and x not in seen]
    return seen == tabs


def bushy(tabs, edges, memo):
    tabs = frozenset(tabs)
    if tabs not in memo:
        if len(tabs) == 1:
            memo[tabs] = [next(iter(tabs))]
        else:
            out, lst = [], sorted(tabs, key=tkey)
            for k in range(1, len(lst)):
                for left in itertools.combinations(lst, k):
                    right = tabs - set(left)
                    if connected(left, edges) and connected(right, edges) and any(len(e & set(left)) == 1 and len(e & right) == 1 for e in edges):
                        out += [(a, b) for a in bushy(left, edges, memo) for b in bushy(right, edges, memo)]
            memo[tabs] = out
    return memo[tabs]


def space(tabs, edges, structure):
    if structure == "bushy":
        return bushy(tabs, edges, {})
    out = []
    for perm in itertools.permutations(tabs):
        if all(connected(perm[:i], edges) for i in range(1, len(perm) + 1)):
            cur = perm[0]
            for t in perm[1:]:
                cur = (cur, t) if structure == "left-deep" else (t, cur)
            out.append(cur)
    return out


def base_ok(order, base, structure):
    """the requested base table is part of the first join"""
    return any(isinstance(s, tuple) and base in s and all(not isinstance(x, tuple) for x in s) for s in subtrees(order))


def shape(tree: JoinTree):
    if tree.is_scan():
        return tree.base_table
    return (shape(tree.outer_child), shape(tree.inner_child))


def ops_of(a: PhysicalOperatorAssignment):
    return (frozenset((t, s.operator) for t, s in a.scan_operators.items()), frozenset((k, j.operator) for k, j in a.join_operators.items()))


def extras(a):
    return dict(a.intermediate_operators), dict(a.global_settings)


# --- inputs ----------------------------------------------------------------------------------------------------------
def graph(rng, n=None, connected_only=False, cap=5):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 5][: 2 * cap - 2 if cap < 5 else 8])
    n = min(n, cap)
    tabs = pool(rng, n)
    kind = rng.choice(["tree", "chain", "star", "cycle", "clique", "random"] + ([] if connected_only else ["cut"]))
    e = set()
    if kind in ("chain", "cycle"):
        e = {frozenset(p) for p in zip(tabs, tabs[1:])}
        if kind == "cycle" and n > 2:
            e.add(frozenset((tabs[0], tabs[-1])))
    elif kind == "star":
        e = {frozenset((tabs[0], t)) for t in tabs[1:]}
    elif kind == "clique":
        e = {frozenset(p) for p in itertools.combinations(tabs, 2)}
    elif kind in ("tree", "random"):
        for i in range(1, n):
            e.add(frozenset((tabs[i], tabs[rng.randrange(i)])))
        if kind == "random":
            e |= {frozenset(p) for p in itertools.combinations(tabs, 2) if rng.random() < 0.3}
    else:
        e = {frozenset(p) for p in itertools.combinations(tabs, 2) if rng.random() < 0.35}
    order = list(tabs)
    rng.shuffle(order)
    name = lambda t: t.identifier()
    conds = []
    for x in sorted(e, key=lambda x: sorted(map(tkey, x))):
        a, b = sorted(x, key=lambda t: rng.random())
        for _ in range(rng.choice([1, 1, 1, 2])):
            op = rng.choice(["=", "=", "=", "<", ">=", "<>"])
            conds.append(rng.choice([f"{name(a)}.x {op} {name(b)}.y", f"{name(a)}.y + 1 {op} {name(b)}.z", f"({name(a)}.x = {name(b)}.y OR {name(a)}.z = {name(b)}.z)"]))
    for t in order:
        if rng.random() < 0.3:
            conds.append(rng.choice([f"{name(t)}.x = 3", f"{name(t)}.s LIKE 'a%'", f"{name(t)}.x IN (1, 2)", f"{name(t)}.x IS NULL"]))
    rng.shuffle(conds)
    decl = [f"{t.schema + '.' if t.schema else ''}{t.full_name}{' AS ' + t.alias if t.alias else ''}" for t in order]
    if rng.random() < 0.2:
        sql = "SELECT * FROM " + " CROSS JOIN ".join(decl)
    elif rng.random() < 0.25 and n > 1 and conds:
        k = rng.randrange(1, n)
        sql = "SELECT * FROM " + ", ".join(decl[:k] + [decl[k]]) + "".join(f" CROSS JOIN {d}" for d in decl[k + 1:])
    else:
        sql = "SELECT * FROM " + ", ".join(decl)
    if conds:
        sql += " WHERE " + " AND ".join(conds)
    q = parse_query(sql, bind_columns=False)
    assert set(q.tables()) == set(tabs), (q.tables(), tabs)
    return q, tabs, frozenset(e), (n, len(e), kind)


def operators(rng, small=False):
    """requested scans/joins, supported operators, and the admissible intersection"""
    supported = set(rng.sample(SC, rng.randint(1, 2 if small else 4)) + rng.sample(JO, rng.randint(1, 2 if small else 3)))
    scans = rng.choice([None, None, [], rng.sample(SC, rng.randint(1, 4))])
    joins = rng.choice([None, None, [], rng.sample(JO, rng.randint(1, 3))])
    s = {o for o in SC if o in supported and (not scans or o in scans)}
    j = {o for o in JO if o in supported and (not joins or o in joins)}
    if not s or not j:
        return operators(rng, small)
    if small and len(s) * len(j) > 4:
        return operators(rng, small)
    conv = rng.choice([list, tuple, set, iter]) if scans else (lambda x: x)
    args = {"scan_operators": conv(scans) if scans is not None else None, "join_operators": joins}
    return args, Db(supported | {IntermediateOperator.Memoize}), s, j


def with_db(rng, db, kwargs):
    """hand in the database explicitly or via the pool"""
    if rng.random() < 0.6:
        return {**kwargs, "database": db}
    DatabasePool.get_instance().empty_pool() if hasattr(DatabasePool.get_instance(), "empty_pool") else None
    DatabasePool.get_instance().register_database("default", db)
    return kwargs


def check_rejected(mon, gen, q, tag):
    try:
        first = next(iter(gen()))
    except ValueError:
        mon.ok(("rejected", tag))
        mon.count("rejected")
        return
    except (StopIteration, RuntimeError) as e:
        mon.fail(f"cross-product:{tag}", f"{q}\n{e!r}")
    mon.fail(f"cross-product:{tag}", f"{q}\nyielded {first}")


# --- scenarios -------------------------------------------------------------------------------------------------------
def exhaustive_orders(mon, rng):
    q, tabs, edges, sig = graph(rng)
    st = rng.choice(["bushy", "left-deep", "right-deep"])
    enum = ExhaustiveJoinOrderEnumerator(st) if st != "bushy" or rng.random() < 0.5 else ExhaustiveJoinOrderEnumerator()
    if not connected(tabs, edges):
        return check_rejected(mon, lambda: enum.all_join_orders_for(q), q, st)
    want = space(tabs, edges, st)
    got = [shape(t) for t in enum.all_join_orders_for(q)]
    ctx = f"{q} {st}"
    mon.count(st)
    mon.count("orders", len(got))
    mon.check(len(set(got)) == len(got), f"orders-duplicates:{st}", lambda: f"{ctx}\n{len(got)} yielded, {len(set(got))} distinct")
    mon.check(set(got) <= set(want), f"orders-outside:{st}", lambda: f"{ctx}\n{list(set(got) - set(want))[:4]}")
    mon.check(set(want) <= set(got), f"orders-missing:{st}", lambda: f"{ctx}\n{len(set(got))} of {len(want)}; missing {list(set(want) - set(got))[:4]}", key=(st,) + sig + (len(want),))
    again = {shape(t) for t in enum.all_join_orders_for(q)}
    mon.check(again == set(got), "orders-repeatable", ctx)
    if rng.random() < 0.3:
        q2, tabs2, edges2, _ = graph(rng, connected_only=True, cap=4)
        got2 = [shape(t) for t in enum.all_join_orders_for(q2)]
        mon.check(sorted(map(str, got2)) == sorted(map(str, space(tabs2, edges2, st))), "orders-state", lambda: f"{q} then {q2}")


def random_tree(rng, tabs, edges):
    return rng.choice(bushy(tabs, edges, {}))


def to_tree(o):
    return JoinTree.join(to_tree(o[0]), to_tree(o[1])) if isinstance(o, tuple) else JoinTree.scan(o)


def want_ops(order, s, j, scans, joins):
    tabs, inter = sorted(leaves(order), key=tkey), [frozenset(leaves(x)) for x in subtrees(order) if isinstance(x, tuple)]
    ss = [frozenset(zip(tabs, c)) for c in itertools.product(s, repeat=len(tabs))] if scans else [frozenset()]
    js = [frozenset(zip(inter, c)) for c in itertools.product(j, repeat=len(inter))] if joins else [frozenset()]
    return {(a, b) for a in ss for b in js}


def exhaustive_operators(mon, rng):
    q, tabs, edges, sig = graph(rng, connected_only=True, cap=3)
    order = random_tree(rng, tabs, edges)
    args, db, s, j = operators(rng)
    inc = rng.choice([(True, True), (True, True), (True, False), (False, True)])
    enum = ExhaustiveOperatorEnumerator(**with_db(rng, db, {**args, "include_scans": inc[0], "include_joins": inc[1]}))
    want = want_ops(order, s, j, *inc)
    if len(want) > 2000:
        return
    lst = list(enum.all_operator_assignments_for(q, to_tree(order)))
    got = [ops_of(a) for a in lst]
    ctx = f"{q} {order} scans={inc[0]} {s} joins={inc[1]} {j}"
    mon.count("assignments", len(got))
    for a in lst:
        mon.check(extras(a) == ({}, {}), "assignment-extra", lambda: f"{ctx}\n{a}")
        mon.check(all(not (x.parallel_workers == x.parallel_workers) for x in [*a.scan_operators.values(), *a.join_operators.values()]), "assignment-workers", lambda: f"{ctx}\n{a}")
        mon.check(all(not x.is_directional() for x in a.join_operators.values()), "assignment-direction", lambda: f"{ctx}\n{a}")
    mon.check(len(set(got)) == len(got), "assignments-duplicates", lambda: f"{ctx}\n{len(got)} yielded, {len(set(got))} distinct")
    mon.check(set(got) == want, "assignments", lambda: f"{ctx}\nmissing {list(want - set(got))[:3]}\nunexpected {list(set(got) - want)[:3]}", key=("ops", inc, len(tabs), len(s), len(j)))
    mon.check(len({hash(a) for a in lst}) == len(lst), "assignments-shared", ctx)


def plan_form(p):
    """order and operators of a query plan"""
    scans, joins = {}, {}

    def walk(n):
        if n.is_scan():
            scans[n.base_table] = n.operator
            return n.base_table
        ins = [walk(n.outer_child), walk(n.inner_child)] if n.is_join() else None
        if ins is None:
            kids = list(n.children)
            assert len(kids) == 1, n
            return walk(kids[0])
        o = (ins[0], ins[1])
        joins[frozenset(leaves(o))] = n.operator
        return o

    o = walk(p)
    return o, frozenset(scans.items()), frozenset(joins.items())


def exhaustive_plans(mon, rng):
    q, tabs, edges, sig = graph(rng, connected_only=True, cap=3)
    st = rng.choice(["bushy", "left-deep", "right-deep"])
    args, db, s, j = operators(rng, small=True)
    enum = ExhaustivePlanEnumerator(join_order_args={"tree_structure": st}, operator_args=with_db(rng, db, args))
    want = {(o, a, b) for o in space(tabs, edges, st) for a, b in want_ops(o, s, j, True, True)}
    if len(want) > 1200:
        return
    plans = list(enum.all_plans_for(q))
    got = [plan_form(p) for p in plans]
    ctx = f"{q} {st} {s} {j}"
    mon.count("plans", len(got))
    mon.check(len(set(got)) == len(got), "plans-duplicates", lambda: f"{ctx}\n{len(got)} yielded, {len(set(got))} distinct")
    mon.check(set(got) == want, "plans", lambda: f"{ctx}\nmissing {list(want - set(got))[:2]}\nunexpected {list(set(got) - want)[:2]}", key=("plans", st, len(tabs), len(s), len(j)))


def minimum(tabs, edges, structure):
    """a lower bound for the probability of the rarest member of the space"""
    n = len(tabs)
    p = 1.0
    if structure == "bushy":
        m = len(edges)
        parts = n
        while parts > 1:
            p /= 2 * max(1, min(m, parts * (parts - 1) // 2))
            parts -= 1
            m = max(parts - 1, m - 1)
        return p
    p /= n
    for k in range(1, n):
        p /= min(len(edges), k * (n - k)) or 1
    return p


def random_orders(mon, rng):
    random.seed(rng.random())
    q, tabs, edges, sig = graph(rng, cap=rng.choice([3, 4, 4, 5]))
    st = rng.choice(["bushy", "left-deep", "right-deep"])
    nodup = rng.random() < 0.3
    gen = RandomJoinOrderGenerator(nodup, tree_structure=st)
    base = rng.choice(tabs) if rng.random() < 0.3 else None
    ctx = f"{q} {st} unique={nodup} base={base}"
    if not connected(tabs, edges):
        check_rejected(mon, lambda: gen.random_join_orders_for(q), q, f"random-{st}")
        if rng.random() < 0.5:
            check_rejected(mon, lambda: [RandomJoinOrderOptimizer(generator_args={"tree_structure": st}).optimize_join_order(q)], q, f"optimizer-{st}")
        return
    want = set(space(tabs, edges, st))
    if base is not None:
        if st == "bushy":
            want = {o for o in want if not isinstance(o, tuple) or base_ok(o, base, st)}
        else:
            want = {o for o in want if first(o, st) == base}
    it = gen.random_join_orders_for(q, base_table=base) if base is not None else gen.random_join_orders_for(q)
    # samples needed so that the rarest member is missed with a probability below e^-25 per member
    need = int(25 / minimum(tabs, edges, st)) if not nodup else len(want)
    cover = nodup or need <= 4000
    k = need if cover else 150
    got = [shape(x) for x in itertools.islice(it, k)]
    mon.count("sampled-orders", len(got))
    mon.check(len(got) == k, "random-order-exhausted", lambda: f"{ctx}\n{len(got)} of {k}")
    mon.check(set(got) <= want, f"random-order-outside:{st}", lambda: f"{ctx}\n{list(set(got) - want)[:3]}")
    if nodup:
        mon.check(len(set(got)) == len(got), f"random-order-repeats:{st}", ctx)
    if cover:
        mon.check(set(got) == want, f"random-order-unreachable:{st}", lambda: f"{ctx}\n{k} samples, never {list(want - set(got))[:3]}", key=("cover", st, nodup, base is None) + sig)
        mon.count("coverage")
    if nodup and len(tabs) == 1:
        mon.check(list(itertools.islice(it, 3)) == [], "random-order-repeats:single", ctx)
    opt = RandomJoinOrderOptimizer(generator_args={"tree_structure": st}) if rng.random() < 0.5 else RandomJoinOrderOptimizer()
    o = shape(opt.optimize_join_order(q))
    mon.check(o in set(space(tabs, edges, opt.describe()["structure"])), "random-order-optimizer", lambda: f"{ctx}\n{o}")


def first(o, st):
    while isinstance(o, tuple):
        o = o[0] if st == "left-deep" else o[1]
    return o


def random_operators(mon, rng):
    random.seed(rng.random())
    q, tabs, edges, sig = graph(rng, connected_only=True, cap=3)
    order = random_tree(rng, tabs, edges)
    args, db, s, j = operators(rng, small=rng.random() < 0.7)
    inc = rng.choice([(True, True), (True, True), (True, False), (False, True)])
    nodup = rng.random() < 0.3
    kw = with_db(rng, db, {**args, "include_scans": inc[0], "include_joins": inc[1], "eliminate_duplicates": nodup})
    gen = RandomOperatorGenerator(**kw)
    want = want_ops(order, s, j, *inc)
    ctx = f"{q} {order} scans={inc[0]} {s} joins={inc[1]} {j} unique={nodup}"
    k = len(want) if nodup else 30 * len(want)
    cover = k <= 900
    k = min(k, 900)
    got = []
    for a in itertools.islice(gen.random_operator_assignments_for(q, to_tree(order)), k):
        mon.check(extras(a) == ({}, {}), "random-assignment-extra", lambda: f"{ctx}\n{a}")
        got.append(ops_of(a))
    mon.count("sampled-assignments", len(got))
    mon.check(set(got) <= want, "random-assignment-outside", lambda: f"{ctx}\n{list(set(got) - want)[:2]}")
    if nodup:
        mon.check(len(set(got)) == len(got), "random-assignment-repeats", ctx)
    if cover:
        mon.check(set(got) == want, "random-assignment-unreachable", lambda: f"{ctx}\nnever {list(want - set(got))[:2]}", key=("opcover", inc, nodup, len(tabs), len(s), len(j)))
        mon.count("coverage")
    args2 = {k: v for k, v in kw.items() if k != "scan_operators"}
    opt = RandomOperatorOptimizer(generator_args=args2)
    o = ops_of(opt.select_physical_operators(q, to_tree(order)))
    s2 = {x for x in SC if x in db._h.ops}
    mon.check(o in want_ops(order, s2, j, *inc), "random-operator-optimizer", lambda: f"{ctx}\n{o}")
    o = ops_of(opt.select_physical_operators(q, None))
    mon.check(o[1] == frozenset() and ({t for t, _ in o[0]} == (set(tabs) if inc[0] else set())), "random-operator-no-order", lambda: f"{ctx}\n{o}")


def random_plans(mon, rng):
    random.seed(rng.random())
    q, tabs, edges, sig = graph(rng, cap=rng.choice([3, 3, 5]))
    st = rng.choice(["bushy", "left-deep", "right-deep"])
    args, db, s, j = operators(rng, small=True)
    nodup = rng.random() < 0.3
    oargs = dict(args)
    kw = {"operator_args": oargs, "join_order_args": {"tree_structure": st}}
    if rng.random() < 0.5:
        kw["database"] = db
    else:
        oargs.update(with_db(rng, db, {}))
        if "database" not in oargs:
            kw.pop("database", None)
    gen = RandomPlanGenerator(eliminate_duplicates=nodup, **kw)
    ctx = f"{q} {st} {s} {j} unique={nodup}"
    if not connected(tabs, edges):
        return check_rejected(mon, lambda: gen.random_plans_for(q), q, f"plan-{st}")
    orders = space(tabs, edges, st)
    total = len(orders) * len(s) ** len(tabs) * len(j) ** (len(tabs) - 1)
    need = total if nodup else int(20 / minimum(tabs, edges, st) * len(s) ** len(tabs) * len(j) ** (len(tabs) - 1))
    cover = need <= (300 if nodup else 2500)
    k = need if cover else min(40, total)
    got = [plan_form(p) for p in itertools.islice(gen.random_plans_for(q), k)]
    mon.count("sampled-plans", len(got))
    oset = set(orders)
    for o, a, b in got:
        mon.check(o in oset, "random-plan-order", lambda: f"{ctx}\n{o}")
        mon.check({t for t, _ in a} == set(tabs) and {x for _, x in a} <= s, "random-plan-scans", lambda: f"{ctx}\n{a}")
        mon.check({k for k, _ in b} == {frozenset(leaves(x)) for x in subtrees(o) if isinstance(x, tuple)} and {x for _, x in b} <= j, "random-plan-joins", lambda: f"{ctx}\n{b}")
    if nodup:
        mon.check(len(set(got)) == len(got) == k, "random-plan-repeats", ctx)
    if cover:
        mon.check(len(set(got)) == total, "random-plan-unreachable", lambda: f"{ctx}\n{len(set(got))} of {total} after {k}", key=("plancover", st, nodup, sig, len(s), len(j)))
        mon.count("coverage")
    if "scan_operators" in oargs:
        oargs["scan_operators"] = list(s)
    opt = RandomPlanOptimizer(**kw)
    o, a, b = plan_form(opt.optimize_query(q))
    mon.check(o in oset and {x for _, x in a} <= s and {x for _, x in b} <= j and {t for t, _ in a} == set(tabs), "random-plan-optimizer", lambda: f"{ctx}\n{o}", key=("planopt", st, sig))


SCENARIOS = [Scenario(exhaustive_orders, quick=500, thorough=6000), Scenario(exhaustive_operators, quick=300, thorough=4000), Scenario(exhaustive_plans, quick=250, thorough=3000),
             Scenario(random_orders, quick=300, thorough=4000), Scenario(random_operators, quick=300, thorough=4000), Scenario(random_plans, quick=300, thorough=4000)]
