"""P10: join trees and query plans are a faithful algebra."""
import copy
import math

import postbound as pb
from postbound import Cardinality, JoinTree, LogicalJoinTree, TableReference
from postbound._hints import PhysicalOperatorAssignment, PlanParameterization, jointree_from_plan
from postbound._qep import QueryPlan, SortKey
from postbound.opt import explode_query_plan, to_query_plan, update_plan
from postbound.opt._helpers import jointree_from_sequence
from postbound.parser import parse_query

from lib.plans import (JOINS, SCANS, Node, leaves, num, pool, random_order, random_plan, snapshot, sql_tables, subtrees, tkey, to_plan)
from lib.vlib import Scenario

PROPERTY = "P10"
TECHNIQUE = ("online monitor: every public answer of join trees and query plans built by random operation sequences is compared with an independent nested-tuple "
             "model; complete content snapshots of all live objects detect lost content and modified inputs")
RULE = ("random join trees (generic and logical, linear and bushy, empty trees) grown by random join/annotate histories; random plans with auxiliary nodes, subplans, "
        "filters, sort keys, measures; derivations, decompositions and recombinations; distinct by shape and answer")
ASSUMPTIONS = ["predicates of a plan node refer to tables below that node", "a node over the same tables as a scan or join below it does not hide that scan or join when "
               "a plan is decomposed", "canonical() may drop what belongs to auxiliary nodes, as documented"]
REQUIRE = {"tree-ops": 1500, "plan-nodes": 4000, "derivations": 1200, "recombined": 300, "overridden": 300, "subplans": 200, "shapes": 500}


def tree_model_equal(tree, m):
    """m: None | (table, ann) leaf as ('s', table, ann) or ('j', outer, inner, ann)"""
    if m is None:
        return tree.is_empty()
    if m[0] == "s":
        return tree.is_scan() and tkey(tree.base_table) == tkey(m[1]) and tree.annotation == m[2]
    return tree.is_join() and not tree.is_empty() and tree.annotation == m[3] and tree_model_equal(tree.outer_child, m[1]) and tree_model_equal(tree.inner_child, m[2])


def mtabs(m):
    return [] if m is None else [m[1]] if m[0] == "s" else mtabs(m[1]) + mtabs(m[2])


def mnodes(m):
    return [] if m is None else [m] if m[0] == "s" else [m] + mnodes(m[1]) + mnodes(m[2])


def mjoins(m):
    return [] if m is None or m[0] == "s" else mjoins(m[1]) + mjoins(m[2]) + [m]


def mdepth(m):
    return 0 if m is None else 1 if m[0] == "s" else 1 + max(mdepth(m[1]), mdepth(m[2]))


def mlinear(m):
    return m[0] == "s" or (not (m[1][0] == "j" and m[2][0] == "j") and mlinear(m[1]) and mlinear(m[2]))


def check_tree(mon, rng, tree, m, cls):
    tag = repr(m)
    mon.check(tree_model_equal(tree, m), "jointree-content", lambda: f"{tree!r} vs {tag}", key=("tree", cls.__name__, mdepth(m), len(mnodes(m))))
    mon.check(isinstance(tree, cls), "jointree-type", lambda: f"{type(tree)} instead of {cls}: {tag}")
    tabs = mtabs(m)
    mon.eq(tree.tables(), set(tabs), "jointree-tables", tag)
    mon.eq(list(tree.itertables()), tabs, "jointree-itertables", tag)
    mon.eq(len(tree), len(set(tabs)), "jointree-len", tag)
    mon.eq(tree.plan_depth(), mdepth(m), "jointree-depth", tag)
    mon.eq(bool(tree), m is not None, "jointree-bool", tag)
    for got, want, what in ((list(tree.iternodes()), mnodes(m), "iternodes"), (list(tree.iterjoins()), mjoins(m), "iterjoins")):
        mon.check(len(got) == len(want) and all(tree_model_equal(g, w) for g, w in zip(got, want)), f"jointree-{what}", lambda: f"{what}: {got} vs {tag}")
    if m is None:
        mon.raises(lambda: tree.is_linear(), "jointree-empty-shape", tag)
        return
    mon.eq(tree.is_linear(), mlinear(m), "jointree-linear", tag, key=("lin", mlinear(m), mdepth(m)))
    mon.eq(tree.is_bushy(), not mlinear(m), "jointree-bushy", tag)
    mon.eq(tree.is_base_join(), m[0] == "j" and m[1][0] == "s" and m[2][0] == "s", "jointree-basejoin", tag)
    mon.eq(len(tree.children), 0 if m[0] == "s" else 2, "jointree-children", tag)
    for n in mnodes(m):
        t = mtabs(n)
        rng.shuffle(t)
        got = tree.lookup(t if len(t) > 1 or rng.random() < 0.5 else t[0])
        mon.check(got is not None and tree_model_equal(got, n), "jointree-lookup", lambda: f"lookup {t} in {tag}: {got}")
        mon.check((t in tree) is True, "jointree-contains", lambda: f"{t} in {tag}")
    known = {frozenset(mtabs(n)) for n in mnodes(m)}
    for _ in range(3):
        probe = frozenset(rng.sample(tabs, rng.randint(1, len(tabs))) + ([TableReference("absent")] if rng.random() < 0.3 else []))
        mon.check((probe in tree) is (probe in known) and (tree.lookup(probe) is not None) == (probe in known), "jointree-absent", lambda: f"{probe} in {tag}")


def tree_history(mon, rng):
    cls = rng.choice([JoinTree, LogicalJoinTree])
    ann = (lambda: rng.choice([None, "a", 1, 2.5])) if cls is JoinTree else (lambda: pb.Cardinality(rng.randint(0, 10 ** 6)))
    free = pool(rng, rng.randint(3, 8))
    rng.shuffle(free)
    live = [(cls.empty(), None)]
    for t in free[:2]:
        a = ann()
        live.append((cls.scan(t, annotation=a), ("s", t, a)))
    free = free[2:]
    for _ in range(rng.randint(3, 12)):
        mon.count("tree-ops")
        tree, m = rng.choice(live)
        op = rng.choice(["table", "table", "tree", "tree", "join", "annotate"])
        a = ann()
        if op == "annotate":
            if m is None:
                mon.raises(lambda: tree.update_annotation(a), "jointree-annotate-empty", "")
                continue
            new, nm = tree.update_annotation(a), (m[0], m[1], a) if m[0] == "s" else (m[0], m[1], m[2], a)
        elif op == "table":
            cand = [t for t in free if t not in set(mtabs(m))]
            if not cand:
                continue
            t, pa, d = rng.choice(cand), ann(), rng.choice(["inner", "outer"])
            new = tree.join_with(t, annotation=a, partner_annotation=pa, partner_direction=d)
            leaf = ("s", t, pa)
            nm = leaf if m is None else ("j", m, leaf, a) if d == "inner" else ("j", leaf, m, a)
        else:
            cand = [(x, y) for x, y in live if not set(mtabs(y)) & set(mtabs(m))]
            if not cand:
                continue
            p, pm = rng.choice(cand)
            if op == "join":
                if m is None or pm is None:
                    continue
                new, nm = cls.join(tree, p, annotation=a), ("j", m, pm, a)
            else:
                d = rng.choice(["inner", "outer"])
                new = tree.join_with(p, annotation=a, partner_direction=d)
                nm = m if pm is None else pm if m is None else ("j", m, pm, a) if d == "inner" else ("j", pm, m, a)
        live.append((new, nm))
        if len(live) > 8:
            live.pop(rng.randrange(1, 4))
        for x, y in live:
            if not tree_model_equal(x, y):
                mon.fail("jointree-modified", f"after {op}: {x!r} vs {y}")
        check_tree(mon, rng, new, nm, cls)
    x, y = rng.choice(live), rng.choice(live)

    def strip(m):
        return None if m is None else ("s", m[1]) if m[0] == "s" else ("j", strip(m[1]), strip(m[2]))
    mon.eq(x[0] == y[0], strip(x[1]) == strip(y[1]), "jointree-eq", f"{x[1]} vs {y[1]}")
    if x[0] == y[0]:
        mon.eq(hash(x[0]), hash(y[0]), "jointree-hash", f"{x[1]}")


def sequences(mon, rng):
    tabs = pool(rng, rng.randint(1, 6))
    order = random_order(rng, tabs)
    tree = jointree_from_sequence(order)

    def same(t, o):
        return (t.is_scan() and t.base_table == o) if not isinstance(o, tuple) else t.is_join() and same(t.outer_child, o[0]) and same(t.inner_child, o[1])
    mon.check(same(tree, order), "jointree-sequence", lambda: f"{order} -> {tree!r}", key=("seq", len(tabs)))


# --- plans -----------------------------------------------------------------------------------------------------------
def model_shapes(n):
    joins = [k for k in n.nodes() if k.kind == "join"]
    bushy = any(j.kids[0].has_join() and j.kids[1].has_join() for j in joins)
    left = not any(j.kids[1].has_join() for j in joins)
    right = not any(j.kids[0].has_join() for j in joins)
    return bushy, left, right


def scan_branch(n):
    return n.kind == "scan" or (len(n.kids) == 1 and scan_branch(n.kids[0]))


def plan_answers(mon, rng):
    tabs = pool(rng, rng.randint(1, 7))
    m = random_plan(rng, tabs, aux=rng.choice([0, 0.25, 0.5]), subplans=rng.choice([0, 0, 0.2]))
    plan = to_plan(m, split=rng.random() < 0.5)
    tag = str(plan)
    snap = m.snap()
    mon.eq(snapshot(plan), snap, "plan-content", tag, key=("content", len(m.nodes()), tag[:60]))
    pre, post = m.nodes(), m.post()
    order = list(plan.iternodes())
    mon.count("plan-nodes", len(pre))
    mon.count("subplans", sum(1 for x in m.nodes_sub() if x.subplan))
    mon.eq([snapshot(x) for x in order], [x.snap() for x in post], "plan-iternodes", tag)
    mon.eq([snapshot(x) for x in plan], [x.snap() for x in m.nodes_sub()], "plan-iter", tag)
    for qp, n in zip(order, post):
        txt = str(qp)
        bushy, left, right = model_shapes(n)
        has = n.has_join()
        mon.count("shapes")
        mon.eq((qp.is_scan(), qp.is_join(), qp.is_auxiliary()), (n.kind == "scan", n.kind == "join", n.kind == "aux"), "plan-kind", txt)
        mon.eq((qp.is_bushy(), qp.is_linear()), (bushy, not bushy), "plan-bushy", txt, key=("shape", bushy, left, right, n.kind, len(n.nodes())))
        mon.eq((qp.is_left_deep(), qp.is_right_deep()), (left, right), "plan-deep", txt)
        if has:
            mon.eq(qp.is_zigzag(), not bushy and not left and not right, "plan-zigzag", txt)
        elif n.kind == "scan":
            mon.eq(qp.is_zigzag(), True, "plan-zigzag", txt)
        mon.eq(bool(qp.is_scan_branch()), scan_branch(n), "plan-scanbranch", txt)
        mon.eq(qp.is_base_join(), n.kind == "join" and all(scan_branch(k) for k in n.kids), "plan-basejoin", txt)
        d = lambda x: 1 + max([d(k) for k in x.kids] or [0])
        mon.eq((qp.plan_depth(), len(qp)), (d(n), d(n)), "plan-depth", txt)
        mon.eq(qp.tables(), set(n.tabs()), "plan-tables", txt)
        mon.eq(qp.fetch_base_table(), n.scans()[0] if scan_branch(n) else None, "plan-basetable", txt)
        out = qp.outermost_scan()
        mon.check(out is not None and out.base_table == n.scans()[0], "plan-outermost", lambda: f"{out} in {txt}")
        mon.eq(qp.is_ordered(), bool(n.sort), "plan-ordered", txt)
        measured = any(v is not None for v in (n.act, n.time, n.hits, n.misses)) or bool(n.extra_m)
        mon.eq(qp.is_analyze(), measured, "plan-analyze", txt)
        if n.kind == "join":
            mon.eq((snapshot(qp.outer_child), snapshot(qp.inner_child)), (n.kids[0].snap(), n.kids[1].snap()), "plan-children", txt)
        if len(n.kids) == 1:
            mon.eq(snapshot(qp.input_node), n.kids[0].snap(), "plan-input", txt)
        if measured and all(k.time is not None for k in n.kids) and n.time is not None:
            mon.eq(num(qp.operator_time), n.time - sum(k.time for k in n.kids), "plan-operatortime", txt)
        if all(k.act is not None for k in n.nodes()):
            mon.eq(float(qp.cout()), float(sum(k.act for k in n.nodes())), "plan-cout", txt)
            mon.eq(float(qp.cout(include_auxiliaries=False)), float(sum(k.act for k in n.nodes() if k.kind != "aux")), "plan-cout-noaux", txt)
        for t in n.scans():
            mon.check(t in qp, "plan-contains", lambda: f"{t} in {txt}")
        mon.eq([TableReference("absent") in qp, n.scans() in qp], [False, True], "plan-contains-set", txt)
        for key in ("parallel_workers", "cost", "execution_time"):
            mon.eq(key in qp, key != "execution_time" or measured, "plan-contains-key", f"{key} in {txt}")
        for k, v in n.extra_p.items():
            mon.check(qp[k] == v and k in qp and qp.get(k) == v, "plan-get", lambda: f"{k} of {txt}")
        mon.eq(qp.get("absent-key", 17), 17, "plan-get-default", txt)
    # searches
    for _ in range(4):
        target = rng.choice(m.nodes_sub())
        want_preds = [(lambda q, s: q.node_type == s, target.type), (lambda q, s: q.operator == s, target.op),
                      (lambda q, s: num(q.estimated_cardinality) == s, num(math.nan if target.est is None else target.est))]
        fn, arg = rng.choice(want_preds)
        mfn = {0: lambda n: n.type == arg, 1: lambda n: n.op == arg, 2: lambda n: num(math.nan if n.est is None else n.est) == arg}[[p[0] for p in want_preds].index(fn)]
        got = plan.find_all_nodes(fn, arg)
        mon.eq([snapshot(x) for x in got], [x.snap() for x in m.nodes_sub() if mfn(x)], "plan-findall", tag)

        def first(n, inner):
            if mfn(n):
                return n
            for k in (reversed(n.kids) if inner else n.kids):
                r = first(k, inner)
                if r:
                    return r
            return first(n.subplan, inner) if n.subplan else None
        direction = rng.choice(["inner", "outer"])
        w = first(m, direction == "inner")
        got = plan.find_first_node(fn, arg, direction=direction)
        mon.check(got is not None and snapshot(got) == w.snap(), "plan-findfirst", lambda: f"{direction} {arg} in {tag}: {got}", key=("ff", direction, w.kind))
    mon.check(plan.find_first_node(lambda q: False) is None, "plan-findnone", tag)
    byset = {}
    for n in pre:
        byset.setdefault(n.tabs(), n)
    for s, n in byset.items():
        probe = list(s)
        rng.shuffle(probe)
        got = plan.lookup(probe)
        mon.check(got is not None and snapshot(got) == n.snap(), "plan-lookup", lambda: f"{probe} in {tag}: {got}")
    alltabs = list(m.tabs())
    probe = frozenset(rng.sample(alltabs, rng.randint(1, len(alltabs))))
    mon.eq(plan.lookup(probe) is not None, probe in byset, "plan-lookup-absent", f"{probe} in {tag}")
    # text renderings mention every node, in depth-first order
    heads = [ln for ln in plan.ast().split("\n") if ln.strip()]
    mon.eq([ln.strip().removeprefix("->").strip().split("(")[0] for ln in heads], [n.type for n in pre], "plan-ast", tag)
    txt = plan.inspect()
    mon.eq(txt.count("->  "), len(m.nodes_sub()) - 1, "plan-inspect", tag)
    mon.eq(snapshot(plan), snap, "plan-modified", tag)


def derive(m, op, arg):
    """model of a derived plan"""
    c = m.copy()
    if op == "parallelize":
        c.workers = arg
    elif op == "estimates":
        card, cost, keep = arg
        c.est = c.est if card is None else card
        c.cost = c.cost if cost is None else cost
        if not keep:
            c.act = c.time = c.hits = c.misses = None
            c.extra_m = {}
    elif op == "scale":
        f, kind, rec = arg

        def go(n, deep):
            if kind in ("estimated", "both") and n.est is not None:
                n.est = round(f * n.est)
            if kind in ("actual", "both") and n.act is not None:
                n.act = round(f * n.act)
            if deep:
                for k in n.kids:
                    go(k, deep)
            if n.subplan:
                go(n.subplan, deep)
        go(c, rec)
    elif op == "actual":
        ignore_nan, costs = arg

        def go(n):
            if n.act is not None or not ignore_nan:
                n.cost = (7.0 if n.act is None else 7.0 + n.act) if costs else None
                n.est = n.act
            n.act = n.time = n.hits = n.misses = None
            n.extra_m = {}
            for k in n.kids:
                go(k)
            if n.subplan:
                go(n.subplan)
        go(c)
    elif op == "canonical":
        def go(n):
            while n.kind == "aux":
                n = n.kids[0]
            n.kids = [go(k) for k in n.kids]
            if n.subplan:
                n.subplan = go(n.subplan)
            return n
        c = go(c)
    return c


def plan_derivations(mon, rng):
    tabs = pool(rng, rng.randint(1, 6))
    m = random_plan(rng, tabs, aux=0.3, subplans=rng.choice([0, 0.15]), known_est=rng.random() < 0.7)
    live = [(to_plan(m, split=rng.random() < 0.5), m)]
    for _ in range(rng.randint(2, 7)):
        plan, m = rng.choice(live)
        tag = str(plan)
        op = rng.choice(["parallelize", "estimates", "scale", "actual", "canonical", "clone", "deepclone", "copy", "deepcopy"])
        mon.count("derivations")
        if op == "parallelize":
            arg = rng.randint(0, 5)
            new = plan.parallelize(arg)
        elif op == "estimates":
            arg = (rng.choice([None, 0, 5, 77]), rng.choice([None, 0.0, 9.5]), rng.random() < 0.5)
            new = plan.with_estimates(cardinality=None if arg[0] is None else pb.Cardinality(arg[0]), cost=arg[1], keep_measures=arg[2])
        elif op == "scale":
            arg = (rng.choice([0.0, 0.5, 2, 10.0]), rng.choice(["estimated", "actual", "both"]), rng.random() < 0.5)
            new = plan.scale_cardinality(arg[0], kind=arg[1], recursive=arg[2])
        elif op == "actual":
            arg = (rng.random() < 0.6, rng.random() < 0.4)
            asked = []

            def estimate(node, card):
                asked.append((node, card))
                return 7.0 if math.isnan(float(card)) else 7.0 + float(card)
            kw = {} if arg[0] and rng.random() < 0.5 else {"ignore_nan": arg[0]}
            new = plan.with_actual_card(**kw, **({"cost_estimator": estimate} if arg[1] else {}))
            mon.check(all(any(node is x for x in plan) for node, _ in asked), "plan-actual-asked", tag)
            mon.count("actual-nan", not arg[0])
        elif op == "canonical":
            arg = None
            new = plan.canonical()
        else:
            arg = None
            new = {"clone": lambda: plan.clone(), "deepclone": lambda: plan.clone(deep=True), "copy": lambda: copy.copy(plan), "deepcopy": lambda: copy.deepcopy(plan)}[op]()
        nm = derive(m, op, arg)
        if op == "actual":
            # the documentation leaves open what happens to the cost of nodes without a measured cardinality
            def fix(model, real, before):
                for x, y, old in zip(model, real, before):
                    if arg[0] and old.act is None:
                        x.cost = None if num(y.estimated_cost) == "nan" else float(y.estimated_cost)
            fix(nm.nodes_sub(), list(new), m.nodes_sub())
        mon.eq(snapshot(new), nm.snap(), f"plan-{op}", f"{op}({arg}) of {tag}", key=("derive", op, len(m.nodes())))
        live.append((new, nm))
        for x, y in live:
            if snapshot(x) != y.snap():
                mon.fail("plan-input-modified", f"{op}({arg}) of {tag} changed {x}")
        if op in ("clone", "deepclone", "copy", "deepcopy"):
            mon.check(new == plan and hash(new) == hash(plan), "plan-clone-eq", tag)
            if rng.random() < 0.5:
                # mutable components of a copy must not be shared with the original
                before = snapshot(plan)
                new.params.index = "changed"
                new.estimates["cost"] = 123456.0
                new.measures["execution_time"] = 99.0
                if op.startswith("deep") and new.children:
                    new.children[0].params["index"] = "deep"
                mon.eq(snapshot(plan), before, "plan-clone-shared", f"{op} of {tag}")
                live.pop()




def recombine(mon, rng):
    """plan -> (join order, operators, parameters) -> plan"""
    tabs = pool(rng, rng.randint(1, 6), fancy=False)
    m = random_plan(rng, tabs, aux=rng.choice([0, 0.3]), filters=False, measures=rng.choice(["all", "none"]))
    for n in m.nodes():
        n.index, n.lookup, n.sort, n.extra_p, n.extra_e = "", None, [], {}, {}
    plan = to_plan(m)
    src = rng.choice(["estimated", "actual"])
    tree, ops, params = explode_query_plan(plan, card_source=src)
    canon = derive(m, "canonical", None)
    tag = f"{plan} ({src})"

    def same(t, n):
        want = (n.est if src == "estimated" else n.act)
        if num(t.annotation) != num(math.nan if want is None else want):
            return False
        return (t.is_scan() and t.base_table == n.table) if n.kind == "scan" else t.is_join() and same(t.outer_child, n.kids[0]) and same(t.inner_child, n.kids[1])
    mon.check(isinstance(tree, LogicalJoinTree) and same(tree, canon), "decompose-jointree", lambda: f"{tag}: {tree.inspect()}", key=("dec", len(tabs), src))
    tree2 = jointree_from_plan(plan, card_source="estimates" if src == "estimated" else "actual")
    mon.check(isinstance(tree2, LogicalJoinTree) and same(tree2, canon), "jointree-from-plan", lambda: f"{tag}: {tree2.inspect()}")
    for n in canon.nodes():
        a = ops.get(n.tabs())
        mon.check(a is not None and a.operator == n.op, "decompose-operators", lambda: f"{tag}: {set(n.tabs())} -> {a}")
    # build a query with the predicates of the plan so that the recombination also has to attach the right predicates
    joined, preds, filters = [], {}, {}
    for n in canon.nodes():
        if n.kind == "join":
            a, b = rng.choice(n.kids[0].scans()), rng.choice(n.kids[1].scans())
            preds[n.tabs()] = f"{a.identifier()}.u = {b.identifier()}.u"
        elif rng.random() < 0.5:
            filters[n.table] = f"{n.table.identifier()}.v > {rng.randint(0, 9)}"
    where = list(preds.values()) + list(filters.values())
    rng.shuffle(where)
    sql = f"SELECT * FROM {sql_tables(tabs)}" + (" WHERE " + " AND ".join(where) if where else "")
    query = parse_query(sql, bind_columns=False) if rng.random() < 0.7 else None
    plain = JoinTree.empty()

    def to_plain(n):
        return JoinTree.scan(n.table) if n.kind == "scan" else JoinTree.join(to_plain(n.kids[0]), to_plain(n.kids[1]))
    variant = rng.choice(["logical", "plain", "noparams"])
    if variant == "noparams":
        p2 = to_query_plan(tree, query=query, physical_ops=ops)
    else:
        p2 = to_query_plan(tree if variant == "logical" else to_plain(canon), query=query, physical_ops=ops, plan_params=params)
    mon.count("recombined")

    def cmp(q, n):
        if q.node_type in ("Materialize", "Sort", "Memoize"):
            return cmp(q.input_node, n)
        want_card = n.est if src == "estimated" else n.act
        mon.eq((q.operator, q.base_table, len(q.children)), (n.op, n.table, len(n.kids)), "recombine-structure", f"{tag} -> {p2}")
        mon.eq(num(q.estimated_cardinality), num(math.nan if want_card is None else want_card), "recombine-cardinality", f"{tag} -> {p2} at {q}")
        if variant != "noparams":
            w = workers.get(n.tabs(), 0)
            mon.eq(q.parallel_workers, w, "recombine-workers", f"{tag} -> {p2} at {q}")
        if query is not None:
            want = preds.get(n.tabs()) if n.kind == "join" else filters.get(n.table)
            got = str(q.filter_predicate) if q.filter_predicate else None
            flip = " = ".join(reversed(want.split(" = "))) if want and n.kind == "join" else want
            mon.check(got in (want, flip), "recombine-predicate", lambda: f"{sql} {tag}: {q} has {got}, expected {want}")
        for a, b in zip(q.children, n.kids):
            cmp(a, b)
    workers = {}
    for n in m.nodes():
        if n.workers:
            workers[n.tabs()] = n.workers
    cmp(p2, canon)
    # explicit cardinalities win over the annotations of the join tree, which fill the gaps
    so, jo = rng.choice(SCANS), rng.choice(JOINS)
    override, c5 = PlanParameterization(), canon.copy()
    for n in c5.nodes():
        if rng.random() < 0.5:
            card = Cardinality(rng.randint(0, 10 ** 6))
            override.add_cardinality(n.tabs(), card)
            n.est = n.act = card
    variant = "noparams"
    for given in (dict(physical_ops=ops), dict(scan_op=so, join_op=jo)):
        p2 = to_query_plan(tree, query=query, plan_params=override, **given)
        if "scan_op" in given:
            for n in c5.nodes():
                n.op = so if n.kind == "scan" else jo
        cmp(p2, c5)
        mon.count("overridden", len(override.cardinalities))
    # defaults
    p3 = to_query_plan(tree, query=query, scan_op=so, join_op=jo)
    c3 = canon.copy()
    for n in c3.nodes():
        n.op = so if n.kind == "scan" else jo
    variant = "noparams"
    cmp(p3, c3)
    # partial assignment with fallback operators
    part = PhysicalOperatorAssignment()
    c4 = canon.copy()
    for n in c4.nodes():
        if rng.random() < 0.5:
            n.op = rng.choice(SCANS if n.kind == "scan" else JOINS)
            part.add(n.op, n.table if n.kind == "scan" else n.tabs())
        else:
            n.op = so if n.kind == "scan" else jo
    if part:
        cmp(to_query_plan(tree, query=query, physical_ops=part, scan_op=so, join_op=jo), c4)


def updates(mon, rng):
    tabs = pool(rng, rng.randint(1, 6))
    m = random_plan(rng, tabs, aux=rng.choice([0, 0.3]), subplans=0)
    plan = to_plan(m, split=rng.random() < 0.5)
    before = m.snap()
    simplify = rng.random() < 0.7
    want = derive(m, "canonical", None) if simplify else m.copy()
    ops, params = PhysicalOperatorAssignment(), PlanParameterization()
    for n in want.nodes():
        if n.kind == "aux":
            continue
        if rng.random() < 0.4:
            n2 = rng.choice(SCANS if n.kind == "scan" else JOINS)
            ops.add(n2, n.table if n.kind == "scan" else n.tabs())
            if n2 != n.op:
                n.op = n2
                n.type = n2.name
        if rng.random() < 0.4 and simplify:
            n.est = rng.choice([0, 3, 12345])
            params.add_cardinality(n.tabs(), pb.Cardinality(n.est))
        if rng.random() < 0.3 and simplify:
            n.workers = rng.randint(1, 9)
            params.set_workers(n.tabs(), n.workers)
    got = update_plan(plan, operators=ops if ops or rng.random() < 0.5 else None, params=params if params.cardinalities or params.parallel_workers else rng.choice([None, params]),
                      simplify=simplify)
    mon.count("recombined")
    mon.eq(snapshot(got), want.snap(), "plan-update", f"{plan}, simplify={simplify}: {ops} {params}", key=("upd", simplify, len(m.nodes())))
    mon.eq(snapshot(plan), before, "plan-update-modified", str(plan))


def sortkeys(mon, rng):
    T = pool(rng, 3, fancy=False)
    cols = [pb.ColumnReference(c, t) for t in T for c in "uv"]
    sa, sb = set(rng.sample(range(6), rng.randint(1, 3))), set(rng.sample(range(6), rng.randint(1, 3)))
    aa, ab = rng.random() < 0.6, rng.random() < 0.6
    ka, kb = (SortKey.for_equivalence_class([cols[i] for i in s], ascending=a) for s, a in ((sa, aa), (sb, ab)))
    mon.eq(ka.is_compatible_with(kb), aa == ab and bool(sa & sb), "sortkey-compatible", f"{ka} {kb}", key=("sk", len(sa & sb), aa, ab))
    for i in range(6):
        mon.eq((ka.is_compatible_with(cols[i]), cols[i] in ka), (i in sa, i in sa), "sortkey-column", f"{cols[i]} in {ka}")
    mon.eq((len(ka), ka.ascending), (len(sa), aa), "sortkey-len", str(ka))
    mon.eq(ka == kb, (sa, aa) == (sb, ab), "sortkey-eq", f"{ka} {kb}")
    if aa == ab:
        mon.eq(ka.merge_with(kb), SortKey.for_equivalence_class([cols[i] for i in sa | sb], ascending=aa), "sortkey-merge", f"{ka} {kb}")
    else:
        mon.raises(lambda: ka.merge_with(kb), "sortkey-merge", f"{ka} {kb}")
    mon.eq(SortKey.of(cols[0], ascending=aa).column.column, cols[0], "sortkey-of", str(cols[0]))


SCENARIOS = [Scenario(tree_history, quick=900, thorough=9000), Scenario(sequences, quick=60, thorough=400), Scenario(plan_answers, quick=900, thorough=9000),
             Scenario(plan_derivations, quick=900, thorough=9000), Scenario(recombine, quick=900, thorough=9000), Scenario(updates, quick=700, thorough=7000),
             Scenario(sortkeys, quick=80, thorough=600)]
