"""P11: operator assignments and plan parameters behave like maps over table sets."""
import math

import postbound as pb
from postbound import IntermediateOperator, JoinOperator, LogicalJoinTree, ScanOperator, TableReference
from postbound._hints import (DirectionalJoinOperatorAssignment, JoinOperatorAssignment, PhysicalOperatorAssignment, PlanParameterization, ScanOperatorAssignment,
                              operators_from_plan, parameters_from_plan)

from lib.plans import INTER, JOINS, SCANS, num, pool, random_plan, to_plan
from lib.vlib import Scenario

PROPERTY = "P11"
TECHNIQUE = ("online state monitor: operator assignments and plan parameters evolve by random operation histories next to a dictionary model keyed by table sets; after "
             "every step every lookup on every live object (sources, copies, views, merge results) is compared with its model")
RULE = ("random histories of setting scan/join/directional/intermediate operators, global switches with and without overwriting, merges, clones, views, worker integration, "
        "cardinalities, workers and settings; extraction from random plans; distinct by operation and size of the model")
ASSUMPTIONS = ["when several plan nodes cover the same table set, the scan or join below supplies the decision of that set",
               "merge_with lets the argument win"]
REQUIRE = {"ops": 4000, "lookups": 50000, "merges": 400, "extractions": 400, "params-ops": 2000}


def sig(a):
    if a is None:
        return None
    w = num(a.parallel_workers)
    if isinstance(a, ScanOperatorAssignment):
        return ("scan", a.operator, a.table, w)
    if a.is_directional():
        return ("dir", a.operator, a.outer, a.inner, w)
    return ("join", a.operator, a.join, w)


class Model:
    def __init__(self):
        self.scan, self.join, self.inter, self.glob = {}, {}, {}, {}

    def copy(self):
        m = Model()
        m.scan, m.join, m.inter, m.glob = dict(self.scan), dict(self.join), dict(self.inter), dict(self.glob)
        return m

    def key(self):
        return (self.scan, self.join, self.inter, self.glob)


def shuffled(rng, s):
    s = list(s)
    rng.shuffle(s)
    return rng.choice([list, tuple, set, frozenset])(s)


def check_assignment(mon, rng, a, m, tabs, tag):
    n = 0
    probes = [frozenset([t]) for t in tabs] + list(m.join) + list(m.inter) + [frozenset(rng.sample(tabs, rng.randint(1, len(tabs)))) for _ in range(3)]
    for p in probes:
        want = m.scan.get(next(iter(p))) if len(p) == 1 else m.join.get(p)
        arg = next(iter(p)) if len(p) == 1 and rng.random() < 0.5 else shuffled(rng, p)
        mon.check(sig(a.get(arg)) == want, "assignment-get", lambda: f"{tag}: get({arg}) is {sig(a.get(arg))}, expected {want}")
        mon.check(sig(a[arg]) == want, "assignment-getitem", lambda: f"{tag}: [{arg}] is {sig(a[arg])}, expected {want}")
        mon.check((arg in a) == (want is not None), "assignment-contains", lambda: f"{tag}: {arg} in assignment")
        if want is None:
            mon.check(a.get(arg, "dflt") == "dflt", "assignment-default", lambda: f"{tag}: get({arg}, dflt) is {a.get(arg, 'dflt')}")
        mon.check(a.intermediate_operators.get(p) == m.inter.get(p), "assignment-intermediate", lambda: f"{tag}: {p}")
        n += 5
    for op in SCANS + JOINS + INTER:
        mon.check(a[op] is m.glob.get(op) and a.global_settings.get(op) is m.glob.get(op), "assignment-global", lambda: f"{tag}: {op} is {a[op]}, expected {m.glob.get(op)}")
    for dflt in (True, False):
        mon.eq(set(a.get_globally_enabled_operators(include_by_default=dflt)), {op for op in SCANS + JOINS + INTER if m.glob.get(op, dflt)}, "assignment-enabled", tag)
    mon.eq({k: sig(v) for k, v in a.scan_operators.items()}, m.scan, "assignment-scans", tag)
    mon.eq({k: sig(v) for k, v in a.join_operators.items()}, m.join, "assignment-joins", tag)
    mon.eq(dict(a.intermediate_operators), m.inter, "assignment-intermediates", tag)
    got = [sig(x) for x in a]
    want = list(m.scan.values()) + list(m.join.values())
    mon.check(len(got) == len(want) and set(got) == set(want), "assignment-iter", lambda: f"{tag}: {got} vs {want}")
    mon.check(bool(a) == any(m.key()), "assignment-bool", tag)
    mon.count("lookups", n)


def history(mon, rng):
    tabs = pool(rng, rng.randint(2, 6))
    live = [(PhysicalOperatorAssignment(), Model())]
    log = []
    for _ in range(rng.randint(4, 16)):
        a, m = rng.choice(live)
        op = rng.choice(["scan", "scan", "join", "join", "dir", "inter", "global", "global", "merge", "clone", "view", "workers"])
        w = rng.choice([math.nan, math.nan, 0, 1, 3])
        mon.count("ops")
        log.append(op)
        if op == "scan":
            t, o = rng.choice(tabs), rng.choice(SCANS)
            how = rng.randrange(4)
            if how == 0:
                a.set_scan_operator(ScanOperatorAssignment(o, t, w))
            elif how == 1:
                a.add(ScanOperatorAssignment(o, t, w))
            else:
                w = math.nan
                (a.set_scan_operator if how == 2 else a.add)(o, rng.choice([t, [t], {t}]))
            m.scan[t] = ("scan", o, t, num(w))
        elif op in ("join", "inter"):
            s = frozenset(rng.sample(tabs, rng.randint(2, len(tabs)) if op == "join" else rng.randint(1, len(tabs))))
            if op == "inter":
                o = rng.choice(INTER)
                (a.set_intermediate_operator if rng.random() < 0.5 else a.add)(o, shuffled(rng, s))
                m.inter[s] = o
            else:
                o = rng.choice(JOINS)
                how = rng.randrange(4)
                if how < 2:
                    x = JoinOperatorAssignment(o, shuffled(rng, s), parallel_workers=w)
                    (a.set_join_operator if how else a.add)(x)
                else:
                    w = math.nan
                    (a.set_join_operator if how == 2 else a.add)(o, shuffled(rng, s))
                m.join[s] = ("join", o, s, num(w))
        elif op == "dir":
            s = rng.sample(tabs, rng.randint(2, len(tabs)))
            k = rng.randint(1, len(s) - 1)
            o, inner, outer = rng.choice(JOINS), frozenset(s[:k]), frozenset(s[k:])
            x = DirectionalJoinOperatorAssignment(o, shuffled(rng, inner), shuffled(rng, outer), parallel_workers=w)
            mon.check(x.is_directional() and x.inner == inner and x.outer == outer and x.intermediate == inner | outer, "directional", lambda: f"{x} {inner} {outer}")
            rng.choice([a.add, a.set_join_operator])(x)
            m.join[inner | outer] = ("dir", o, outer, inner, num(w))
        elif op == "global":
            o, on, over = rng.choice(SCANS + JOINS + INTER), rng.random() < 0.4, rng.random() < 0.5
            if over or rng.random() < 0.5:
                a.set_operator_enabled_globally(o, on, overwrite_fine_grained_selection=over)
            else:
                a.set(o, on)
            m.glob[o] = on
            if over and not on:
                if isinstance(o, ScanOperator):
                    m.scan = {k: v for k, v in m.scan.items() if v[1] != o}
                elif isinstance(o, JoinOperator):
                    m.join = {k: v for k, v in m.join.items() if v[1] != o}
                else:
                    m.inter = {k: v for k, v in m.inter.items() if v != o}
        elif op == "merge":
            b, n = rng.choice(live)
            mon.count("merges")
            nm = Model()
            nm.scan, nm.join, nm.inter, nm.glob = m.scan | n.scan, m.join | n.join, m.inter | n.inter, m.glob | n.glob
            live.append((a.merge_with(b), nm))
        elif op == "clone":
            c = a.clone()
            mon.check(c == a and hash(c) == hash(a), "assignment-clone-eq", lambda: f"{a}")
            live.append((c, m.copy()))
        elif op == "view":
            nm = Model()
            nm.glob = dict(m.glob)
            live.append((a.global_settings_only(), nm))
        else:
            p, nm = PlanParameterization(), m.copy()
            missing = False
            for _ in range(rng.randint(1, 3)):
                s = frozenset(rng.sample(tabs, rng.randint(1, len(tabs))))
                k = rng.randint(0, 4)
                p.set_workers(shuffled(rng, s), k)
            for s, k in p.parallel_workers.items():
                old = nm.scan.get(next(iter(s))) if len(s) == 1 else nm.join.get(s)
                missing |= old is None
                if old is not None:
                    (nm.scan if len(s) == 1 else nm.join)[next(iter(s)) if len(s) == 1 else s] = old[:-1] + (num(k),)
            strict = rng.random() < 0.3
            if strict and missing:
                mon.raises(lambda: a.integrate_workers_from(p, fail_on_missing=True), "workers-missing", f"{a} {p}", exc=ValueError)
            else:
                live.append((a.integrate_workers_from(p, fail_on_missing=strict), nm))
        if len(live) > 6:
            live.pop(rng.randrange(len(live) - 1))
        for x, y in live:
            check_assignment(mon, rng, x, y, tabs, f"{log} on {x}")
        mon.ok(("hist", op, len(live), len(m.scan), len(m.join)))
    (x, mx), (y, my) = rng.choice(live), rng.choice(live)
    mon.eq(x == y, mx.key() == my.key(), "assignment-eq", f"{x} vs {y}")
    # permuted insertion gives an equal assignment with the same hash
    z = PhysicalOperatorAssignment()
    items = [("s", v) for v in x.scan_operators.values()] + [("s", v) for v in x.join_operators.values()] + [("i", v) for v in x.intermediate_operators.items()] + \
        [("g", v) for v in x.global_settings.items()]
    rng.shuffle(items)
    for k, v in items:
        if k == "s":
            z.add(v)
        elif k == "i":
            z.set_intermediate_operator(v[1], shuffled(rng, v[0]))
        else:
            z.set_operator_enabled_globally(*v)
    mon.check(z == x and hash(z) == hash(x), "assignment-permuted", lambda: f"{z} vs {x}", key=("perm", len(items)))


def params(mon, rng):
    tabs = pool(rng, rng.randint(2, 6))
    live = [(PlanParameterization(), ({}, {}, {}, None))]
    for _ in range(rng.randint(4, 14)):
        i = rng.randrange(len(live))
        p, (c, w, s, e) = live[i]
        mon.count("params-ops")
        op = rng.choice(["card", "card", "workers", "set", "kwargs", "mode", "merge", "drop"])
        t = frozenset(rng.sample(tabs, rng.randint(1, len(tabs))))
        if op == "card":
            v = rng.choice([0, 1, 42, 1.5, 10 ** 12, math.inf])
            p.add_cardinality(shuffled(rng, t), v if rng.random() < 0.5 else pb.Cardinality(v))
            c[t] = pb.Cardinality(v)
        elif op == "workers":
            w[t] = rng.randint(0, 8)
            p.set_workers(shuffled(rng, t), w[t])
        elif op == "set":
            k, v = rng.choice(["work_mem", "enable_x", "geqo"]), rng.choice([1, "on", "4MB", False, 0, None])
            p.set_system_settings(k, v)
            s[k] = v
        elif op == "kwargs":
            kw = {k: rng.choice([1, "off"]) for k in rng.sample(["work_mem", "enable_x", "geqo", "jit"], rng.randint(1, 3))}
            p.set_system_settings(**kw)
            s.update(kw)
            mon.raises(lambda: p.set_system_settings(), "settings-empty", "")
            mon.raises(lambda: p.set_system_settings("a", 1, b=2), "settings-both", "")
        elif op == "mode":
            e = rng.choice(["sequential", "parallel", None])
            p.execution_mode = e
            live[i] = (p, (c, w, s, e))
        elif op == "merge":
            q, (c2, w2, s2, e2) = rng.choice(live)
            live.append((p.merge_with(q), (c | c2, w | w2, s | s2, e2 or e)))
            mon.count("merges")
        else:
            live.append((p.drop_workers(), (dict(c), {}, dict(s), e)))
        if len(live) > 5:
            live.pop(rng.randrange(len(live) - 1))
        for x, (c3, w3, s3, e3) in live:
            tag = f"after {op}: {x}"
            mon.eq(dict(x.cardinalities), c3, "params-cardinalities", tag, key=("par", op, len(c3), len(w3), len(s3)))
            mon.check(all(isinstance(v, pb.Cardinality) for v in x.cardinalities.values()), "params-cardinality-type", tag)
            mon.eq(dict(x.parallel_workers), w3, "params-workers", tag)
            mon.eq(dict(x.system_settings), s3, "params-settings", tag)
            mon.eq(x.execution_mode, e3, "params-mode", tag)
            mon.count("lookups", 4)


def items(mon, rng):
    """assignments of single operators"""
    tabs = pool(rng, 4)
    mk = []
    for _ in range(6):
        w = rng.choice([math.nan, float("nan"), 0, 1, 2])
        k = rng.randrange(3)
        if k == 0:
            t, o = rng.choice(tabs[:2]), rng.choice(SCANS[:2])
            mk.append((ScanOperatorAssignment(o, t, w), ("s", o, t, num(w))))
        else:
            s, o = rng.sample(tabs[:3], 2), rng.choice(JOINS[:2])
            if k == 1:
                mk.append((JoinOperatorAssignment(o, shuffled(rng, s), parallel_workers=w), ("j", o, frozenset(s), num(w))))
            else:
                mk.append((DirectionalJoinOperatorAssignment(o, [s[0]], [s[1]], parallel_workers=w), ("d", o, s[0], s[1], num(w))))
    for x, kx in mk:
        for y, ky in mk:
            mon.eq(x == y, kx == ky, "operator-eq", f"{x!r} {y!r} {kx} {ky}", key=("op-eq", kx[0], ky[0], kx == ky))
            if kx == ky:
                mon.eq(hash(x), hash(y), "operator-hash", f"{x!r} {y!r}")
    mon.raises(lambda: JoinOperatorAssignment(JOINS[0], [tabs[0]]), "operator-single", "")
    mon.raises(lambda: DirectionalJoinOperatorAssignment(JOINS[0], [], tabs[:2]), "operator-single", "")


def extraction(mon, rng):
    tabs = pool(rng, rng.randint(1, 7))
    m = random_plan(rng, tabs, aux=rng.choice([0, 0.3, 0.5]), measures=rng.choice(["all", "none"]))
    if rng.random() < 0.4:
        for n in m.nodes():
            if n.kind != "aux" and all(k.kind != "aux" for k in m.nodes()):
                if rng.random() < 0.3:
                    n.est = None
                if rng.random() < 0.3:
                    n.act = n.time = None
    plan = to_plan(m, split=rng.random() < 0.5)
    tag = str(plan)
    mon.count("extractions")
    iw = rng.random() < 0.5
    ops = operators_from_plan(plan, include_workers=iw)
    want = Model()
    for n in m.nodes():     # parents first: nodes further down win
        w = num(n.workers) if iw else "nan"
        if n.kind == "scan":
            want.scan[n.table] = ("scan", n.op, n.table, w)
        elif n.kind == "join":
            want.join[n.tabs()] = ("join", n.op, n.tabs(), w)
        elif n.op is not None:
            want.inter[n.tabs()] = n.op
    check_assignment(mon, rng, ops, want, tabs, f"{tag} (workers={iw})")
    mon.ok(("ex", len(tabs), iw, len(m.nodes())))
    for target, fb in (("estimated", False), ("actual", False), ("actual", True)):
        p = parameters_from_plan(plan, target_cardinality=target, fallback_estimated=fb)
        cards, workers = {}, {}
        for n in m.nodes():
            v = n.est if target == "estimated" else n.act if n.act is not None or not fb else n.est
            if v is not None:
                cards[n.tabs()] = pb.Cardinality(v)
            if n.workers:
                workers[n.tabs()] = n.workers
        mon.eq(dict(p.cardinalities), cards, "extract-cardinalities", f"{tag} {target} fallback={fb}", key=("exc", target, fb, len(cards)))
        mon.eq(dict(p.parallel_workers), workers, "extract-workers", tag)
    from postbound._hints import jointree_from_plan
    tree = jointree_from_plan(plan)
    p = parameters_from_plan(tree)
    cards = {n.tabs(): pb.Cardinality(n.est) for n in m.nodes() if n.kind != "aux" and n.est is not None}
    mon.eq(dict(p.cardinalities), cards, "extract-jointree-cardinalities", f"{tag}")
    mon.eq(dict(p.parallel_workers), {}, "extract-jointree-workers", tag)
    # join orders without estimates, as enumerators and JoinTree conversions produce them
    cards = {}

    def strip(t):
        note = t.annotation if rng.random() < 0.5 else None
        if note is not None and note.is_valid():
            cards[frozenset(t.tables())] = note
        return LogicalJoinTree.scan(t.base_table, annotation=note) if t.is_scan() else LogicalJoinTree.join(strip(t.outer_child), strip(t.inner_child), annotation=note)
    bare = strip(tree)
    mon.eq(dict(parameters_from_plan(bare).cardinalities), cards, "extract-unannotated", lambda: f"{bare.inspect()}")
    mon.count("unannotated")


SCENARIOS = [Scenario(history, quick=600, thorough=8000), Scenario(params, quick=500, thorough=6000), Scenario(items, quick=200, thorough=2000),
             Scenario(extraction, quick=600, thorough=8000)]
