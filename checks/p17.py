"""P17: utility containers and helpers against mathematical models."""
import copy
import itertools
import math
import operator
import os
import pickle
from pathlib import Path
from collections import Counter

import networkx as nx
import numpy as np
import pandas as pd

from postbound import util
from postbound.util import collections as coll, dicts, misc, num, nx as nxu, proc, stats

from lib.vlib import Scenario

PROPERTY = "P17"
TECHNIQUE = "online monitors comparing utility calls and operation histories of stateful containers with reference models"
RULE = ("random inputs (empty, single, duplicates, falsy values, one-shot iterators) for every helper and random operation histories for every "
        "container, compared step by step with a reference model; distinct by helper, input shape and operation")
ASSUMPTIONS = ["the Jaccard coefficient of two empty sets and arithmetic of bounded numbers outside of +,-,*,**,negation are unconstrained with respect to bounds",
               "a breadth-first traversal expands only nodes that satisfy the condition (as its only caller, the join graph, requires)"]
REQUIRE = {"queue-ops": 3000, "dict-ops": 1500, "helpers": 3000, "walks": 200, "bfs": 300, "depgraph": 500, "bounded": 3000, "versions": 1000,
           "frames": 30, "procs": 10}


def val(rng):
    return rng.choice([0, 1, 2, 3, "", "a", "b", None, False, (), (1, 2), frozenset(), 0.5])


def items(rng, lo=0, hi=6):
    return [val(rng) for _ in range(rng.randint(lo, hi))]


def ints(rng, lo=0, hi=6):
    return [rng.randint(0, 4) for _ in range(rng.randint(lo, hi))]


def oneshot(rng, lst):
    return rng.choice([lambda: list(lst), lambda: tuple(lst), lambda: iter(lst), lambda: (x for x in lst)])()


# --------------------------------------------------------------------------- collections
def helpers(mon, rng):
    for _ in range(12):
        mon.count("helpers", 8)
        lst = items(rng)
        snap = list(lst)
        nested = [rng.choice([lambda: items(rng), lambda: tuple(items(rng)), lambda: rng.randint(0, 3), lambda: "abc", lambda: b"xy", lambda: [[1], [2]]])()
                  for _ in range(rng.randint(0, 5))]
        want = []
        for x in nested:
            if isinstance(x, (list, tuple)):
                want.extend(x)
            else:
                want.append(x)
        mon.eq(coll.flatten(nested), want, "flatten", nested, key=len(nested))
        mon.eq(coll.flatten(oneshot(rng, nested)), want, "flatten", "one-shot")
        tup = tuple(items(rng))
        for obj, exp in ((lst, lst), (tup, tup), ("abc", ["abc"]), (5, [5]), (None, [None]), ({1, 2}, {1, 2}), (frozenset([1]), frozenset([1])), ("", [""]), (0, [0])):
            mon.eq(coll.enlist(obj), exp, "enlist", obj)
        mon.eq(coll.enlist(tup, enlist_tuples=True), [tup], "enlist-tuples", tup)
        d = {k: i for i, k in enumerate(ints(rng))}
        mon.eq(coll.enlist(d.keys()), list(d.keys()), "enlist-keys", d)
        mon.eq(coll.enlist(d.values()), list(d.values()), "enlist-values", d)
        mon.eq(coll.enlist(d.items()), list(d.items()), "enlist-items", d)
        exp = lst[0] if len(lst) == 1 else lst
        mon.eq(coll.simplify(lst), exp, "simplify", lst, key=len(lst))
        g = coll.simplify(iter(lst))
        mon.check((g == lst[0]) if len(lst) == 1 else list(g) == lst, "simplify", f"iterator over {lst}: {g}")
        mon.eq(coll.simplify(d), next(iter(d.items())) if len(d) == 1 else d, "simplify-dict", d)
        mon.eq(coll.simplify("a"), "a", "simplify-str")
        if lst:
            mon.check(any(coll.get_any(lst) is x for x in lst), "get_any", lst)
        ps = list(coll.powerset(lst))
        mon.check(len(ps) == 2 ** len(lst), "powerset", f"{lst}: {len(ps)} subsets", key=len(lst))
        idx = list(range(len(lst)))
        mon.eq(sorted(coll.powerset(idx)), sorted(tuple(i for i in idx if m >> i & 1) for m in range(2 ** len(idx))), "powerset", idx)
        size, step = rng.randint(1, 5), rng.randint(1, 3)
        mon.eq(list(coll.sliding_window(lst, size, step)), [lst[i:i + size] for i in range(len(lst)) if i % step == 0 and i + size <= len(lst)], "sliding_window", (lst, size, step))
        src = oneshot(rng, lst)
        want = [(lst[i], lst[j]) for i in range(len(lst)) for j in range(i + 1, len(lst))]
        mon.eq(list(coll.pairs(src)), want, "pairs", f"{type(src).__name__} of {lst}", key=(type(src).__name__, len(lst)))
        sets = [set(items(rng)) for _ in range(rng.randint(0, 4))]
        frozen = [frozenset(s) for s in sets]
        mon.eq(coll.set_union(oneshot(rng, sets)), set().union(*sets), "set_union", sets, key=len(sets))
        mon.check(all(a == b for a, b in zip(sets, frozen)), "argument-modified", "set_union")
        seen = []
        coll.foreach(oneshot(rng, lst), seen.append)
        mon.eq(seen, lst, "foreach")
        mon.check(all(a is b or a == b for a, b in zip(lst, snap)) and len(lst) == len(snap), "argument-modified", f"{snap} -> {lst}")


def nested_value(rng, depth=0):
    k = rng.randrange(7 if depth < 3 else 2)
    if k <= 1:
        return rng.choice([1, 2, "x", None, 0.5, True])
    if k == 2:
        return [nested_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if k == 3:
        return tuple(nested_value(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    if k == 4:
        return {rng.randint(0, 5) for _ in range(rng.randint(0, 3))}
    return {rng.choice("abc"): nested_value(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def shuffled(rng, v):
    """An equal value with another insertion order."""
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(rng, v[k]) for k in ks}
    if isinstance(v, (list, tuple)):
        return type(v)(shuffled(rng, x) for x in v)
    if isinstance(v, set):
        ks = list(v)
        rng.shuffle(ks)
        return set(ks)
    return v


def hashing(mon, rng):
    for _ in range(8):
        mon.count("helpers", 3)
        v = nested_value(rng)
        w = shuffled(rng, v)
        a, b = coll.make_hashable(v), coll.make_hashable(w)
        mon.check(hash(a) == hash(b) and a == b, "make_hashable", f"{v} vs {w}: hashes {hash(a)} {hash(b)}", key=type(v).__name__)
        d = {k: nested_value(rng, 1) for k in rng.sample("abcdef", rng.randint(0, 5))}
        e = shuffled(rng, d)
        mon.eq(dicts.hash_dict(d), dicts.hash_dict(e), "hash_dict", f"{d} vs {e}", key=len(d))
        fd, fe = util.frozendict(d), util.frozendict(e)
        mon.check(fd == fe and hash(fd) == hash(fe), "frozendict-hash", f"{d} vs {e}")
        hd, he = dicts.HashableDict(d), dicts.HashableDict(e)
        mon.check(hd == he and hash(hd) == hash(he), "HashableDict-hash", f"{d} vs {e}")
        mon.check(len({fd, fe}) == 1, "frozendict-hash", "set of equal frozendicts")
        if len(d) >= 2:
            other = dict(d)
            k = rng.choice(list(other))
            other[k] = ("something", "else")
            mon.check(util.frozendict(other) != fd, "frozendict-eq", f"{other} == {d}")


class Keyed:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Keyed) and o.k == self.k

    def __hash__(self):
        return hash(self.k) % 2  # plenty of collisions

    def __repr__(self):
        return f"K{self.k}"


def queues(mon, rng):
    init = items(rng)
    src = rng.choice([None, init])
    q = coll.Queue(oneshot(rng, init) if src is not None else None)
    model = list(init) if src is not None else []
    orig = list(init)
    for _ in range(25):
        op = rng.choice(["enqueue", "push", "append", "extend", "pop", "pop", "head", "peak", "in", "iter"])
        mon.count("queue-ops")
        v = val(rng)
        if op in ("enqueue", "push", "append"):
            getattr(q, op)(v)
            model.append(v)
        elif op == "extend":
            more = items(rng, 0, 4)
            q.extend(oneshot(rng, more))
            model.extend(more)
        elif op == "pop":
            want = model.pop(0) if model else None
            got = q.pop()
            mon.check(got is want or got == want, "queue-pop", f"{got!r} vs {want!r}")
        elif op in ("head", "peak"):
            got, want = getattr(q, op)(), model[0] if model else None
            mon.check(got is want or got == want, "queue-head", f"{got!r} vs {want!r}")
        elif op == "in":
            mon.eq(v in q, v in model, "queue-contains", (v, model))
        mon.check(list(q) == model and len(q) == len(model) and bool(q) == bool(model), f"queue:{op}", f"after {op}: {list(q)} expected {model}",
                  key=(op, min(len(model), 3), bool(model and not model[0])))
    mon.check(init == orig, "argument-modified", "queue")
    cap = rng.randint(1, 4)
    s = coll.SizedQueue(cap, oneshot(rng, init) if src is not None else None)
    model = list(init)[-cap:] if src is not None else []
    mon.eq(list(s), model, "sizedqueue-init", (cap, init))
    for _ in range(25):
        op = rng.choice(["append", "append", "extend", "pop", "head", "in"])
        mon.count("queue-ops")
        v = val(rng)
        if op == "append":
            s.append(v)
            model = (model + [v])[-cap:]
        elif op == "extend":
            more = items(rng, 0, 4)
            s.extend(oneshot(rng, more))
            model = (model + more)[-cap:]
        elif op == "pop":
            want = model.pop(0) if model else None
            got = s.pop()
            mon.check(got is want or got == want, "sizedqueue-pop", f"{got!r} vs {want!r}")
        elif op == "head":
            got, want = s.head(), model[0] if model else None
            mon.check(got is want or got == want, "sizedqueue-head", f"{got!r} vs {want!r}")
        elif op == "in":
            mon.eq(v in s, v in model, "sizedqueue-contains", (v, model))
        mon.check(list(s) == model and len(s) == len(model), f"sizedqueue:{op}", f"cap {cap}, after {op}: {list(s)} expected {model}",
                  key=("s", op, cap, min(len(model), 3)))


# --------------------------------------------------------------------------- dictionaries
def rdict(rng, lo=0, hi=5):
    return {k: rng.randint(0, 9) for k in rng.sample("abcdefg", rng.randint(lo, hi))}


def dictionaries(mon, rng):
    for _ in range(6):
        a, b = rdict(rng), rdict(rng)
        sa, sb = dict(a), dict(b)
        mon.count("dict-ops", 12)
        mon.eq(dicts.difference(a, b), {k: a[k] for k in set(a) - set(b)}, "dict-difference", (a, b), key=(len(a), len(b)))
        mon.eq(dicts.intersection(a, b), {k: a[k] for k in set(a) & set(b)}, "dict-intersection", (a, b))
        mon.eq(dicts.merge(a, b), {**a, **b}, "dict-merge", (a, b))
        mon.eq(dicts.merge(a, b, updater=lambda k, x, y: (k, x, y)),
               {k: (k, a[k], b[k]) if k in a and k in b else a.get(k, b.get(k)) for k in set(a) | set(b)}, "dict-merge-updater", (a, b))
        mon.eq(dicts.update(a, lambda k, v: (k, v)), {k: (k, v) for k, v in a.items()}, "dict-update", a)
        multi = {k: ints(rng, 0, 3) for k in rng.sample("abcd", rng.randint(0, 4))}
        sm = copy.deepcopy(multi)
        mon.eq(list(dicts.explode(multi)), [(k, v) for k in multi for v in multi[k]], "dict-explode", multi)
        entries = [(rng.choice("ab"), rng.randint(0, 3)) for _ in range(rng.randint(0, 6))]
        want = {}
        for k, v in entries:
            want.setdefault(k, []).append(v)
        mon.eq(dicts.generate_multi(oneshot(rng, entries)), want, "generate_multi", entries)
        mon.eq(dicts.reduce_multi(multi, lambda k, vs: (k, sum(vs))), {k: (k, sum(vs)) for k, vs in multi.items()}, "reduce_multi", multi)
        uniq = {k: sorted(set(vs)) for k, vs in multi.items()}
        inv = dicts.invert_multi(uniq)
        mon.eq({v: sorted(ks) for v, ks in inv.items()}, {v: sorted(k for k in uniq if v in uniq[k]) for v in set().union(*uniq.values())} if uniq else {},
               "invert_multi", uniq, key=("inv", len(uniq), len(inv)))
        ds = [rdict(rng) for _ in range(rng.randint(0, 4))]
        mon.eq(dicts.aggregate(oneshot(rng, ds)), {k: [d[k] for d in ds if k in d] for k in set().union(*ds)} if ds else {}, "dict-aggregate", ds)
        bij = dict(zip(a, range(len(a))))
        mon.eq(dicts.invert(bij), {v: k for k, v in bij.items()}, "dict-invert", bij)
        if a:
            mon.check(a[dicts.argmin(a)] == min(a.values()) and a[dicts.argmax(a)] == max(a.values()), "dict-argmin", a)
            mon.check(list(dicts.dict_to_numpy(a)) == [a[k] for k in sorted(a)], "dict_to_numpy", a)
        if len(a) == 1:
            mon.check(dicts.key(a) in a and dicts.value(a) == a[dicts.key(a)], "dict-key-value", a)
        else:
            mon.raises(lambda: dicts.key(a), "dict-key", a, exc=ValueError)
            mon.raises(lambda: dicts.value(a), "dict-value", a, exc=ValueError)
        mon.check(a == sa and list(a) == list(sa) and b == sb and multi == sm, "argument-modified", "dict helper")
    # frozendict
    src = rdict(rng)
    fd = util.frozendict(src)
    snap, h = dict(src), hash(fd)
    mutators = {
        "setitem": lambda: fd.__setitem__("z", 1), "overwrite": lambda: fd.__setitem__(next(iter(fd), "q"), 99),
        "delitem": lambda: fd.__delitem__(next(iter(fd), "q")), "update": lambda: fd.update({"z": 1}), "update-kw": lambda: fd.update(z=3),
        "setdefault": lambda: fd.setdefault("zz", 5), "pop": lambda: fd.pop(next(iter(fd), "q")), "popitem": lambda: fd.popitem(), "clear": lambda: fd.clear(),
        "ior": lambda: operator.ior(fd, {"z": 1}), "source": lambda: src.update(q=1),
    }
    for _ in range(8):
        name = rng.choice(list(mutators))
        try:
            mutators[name]()
        except (TypeError, AttributeError, KeyError):
            pass
        mon.count("dict-ops")
        mon.check(dict(fd) == snap and len(fd) == len(snap) and list(fd) == list(snap) and hash(fd) == h, f"frozendict-immutable:{name}", f"{name} changes {snap} to {dict(fd)}",
                  key=("fd", name, bool(snap)))
    for how, c in (("copy", fd.copy()), ("copy.copy", copy.copy(fd)), ("deepcopy", copy.deepcopy(fd)), ("pickle", pickle.loads(pickle.dumps(fd)))):
        mon.check(c == fd and hash(c) == h and dict(c) == snap, f"frozendict-{how}", f"{c} vs {snap}")
    both = fd | {"z": 1}
    mon.check(isinstance(both, util.frozendict) and dict(both) == {**snap, "z": 1}, "frozendict-or", str(both))
    for k in "abz":
        mon.check((k in fd) == (k in snap) and fd.get(k, -1) == snap.get(k, -1), "frozendict-lookup", k)
    # custom hash dictionary: keys are identified by the hash function
    off = rng.randint(0, 5)
    cd = dicts.CustomHashDict(lambda k, off=0: (k % 7) + off, off=off)
    model = {}
    calls = []
    dd = dicts.DynamicDefaultDict(lambda k: (calls.append(k), k * 2)[1])
    for _ in range(20):
        k, v = rng.randint(0, 20), rng.randint(0, 99)
        mon.count("dict-ops")
        op = rng.choice(["set", "get", "del", "in", "pop", "setdefault"])
        if op == "set":
            cd[k] = v
            model[k % 7] = v
        elif op == "del" and k % 7 in model:
            del cd[k]
            del model[k % 7]
        elif op == "pop":
            mon.eq(cd.pop(k, None), model.pop(k % 7, None), "customhash-pop", k)
        elif op == "setdefault":
            mon.eq(cd.setdefault(k, v), model.setdefault(k % 7, v), "customhash-setdefault", k)
        mon.check((k in cd) == (k % 7 in model) and cd.get(k) == model.get(k % 7) and len(cd) == len(model), f"customhash:{op}", f"{k}: {cd} vs {model}", key=("ch", op))
        mon.eq(dd[k], k * 2, "dynamic-default", k)
    mon.check(len(calls) == len(set(calls)), "dynamic-default", "factory invoked twice for one key")
    mon.eq(dicts.stringify({"a": 1, "b": "x"}), "{a: 1, b: x}", "stringify")


# --------------------------------------------------------------------------- graphs
def rgraph(rng, directed=False, hi=9):
    g = nx.DiGraph() if directed else nx.Graph()
    n = rng.randint(1, hi)
    nodes = list(range(n)) if rng.random() < 0.5 else [f"n{i}" for i in range(n)]
    rng.shuffle(nodes)
    g.add_nodes_from((x, {"w": rng.randint(0, 9)}) for x in nodes)
    p = rng.choice([0.0, 0.08, 0.12, 0.2, 0.4, 1.0])
    for a, b in itertools.permutations(nodes, 2):
        if (directed or not g.has_edge(b, a)) and rng.random() < p:
            g.add_edge(a, b, w=rng.randint(0, 9), ok=rng.random() < 0.7)
    return g


def graphs(mon, rng):
    g = rgraph(rng, directed=True)
    mon.count("helpers", 3)
    mon.eq(set(nxu.nx_sinks(g)), {n for n in g if not any(a == n for a, _ in g.edges)}, "nx_sinks")
    mon.eq(set(nxu.nx_sources(g)), {n for n in g if not any(b == n for _, b in g.edges)}, "nx_sources")
    mon.eq([(n, d["w"]) for n, d in nxu.nx_filter_nodes(g, lambda n, d: d["w"] > 4)], [(n, d["w"]) for n, d in g.nodes.data() if d["w"] > 4], "nx_filter_nodes")
    # random walk: every node exactly once, stays connected as long as possible
    u = rgraph(rng)
    edges = set(map(frozenset, u.edges))
    start = rng.choice([None, *u.nodes])
    import random as _r
    _r.seed(rng.random())
    walk = list(nxu.nx_random_walk(u, starting_node=start))
    mon.count("walks")
    mon.check(sorted(walk, key=str) == sorted(u.nodes, key=str), "random-walk", f"walk {walk} over {list(u.nodes)}")
    if start is not None:
        mon.eq(walk[0], start, "random-walk-start")
    for i in range(1, len(walk)):
        seen = walk[:i]
        front = {b for a in seen for b in u.adj[a] if b not in seen}
        mon.check(walk[i] in front or not front, "random-walk-step", f"{walk} jumps to {walk[i]} although {front} is adjacent; edges {list(u.edges)}")
    # breadth-first traversal
    for gr in (g, u):
        start = rng.choice(list(gr.nodes))
        order = rng.choice([None, lambda n, e: e["w"], lambda n, e: -e["w"]])
        cond_calls = []
        mode = rng.choice(["all", "edge"])

        def cond(n, e):
            cond_calls.append((n, e))
            return mode == "all" or e["ok"]
        got = list(nxu.nx_bfs_tree(gr, start, cond, node_order=order))
        mon.count("bfs")
        usable = lambda a, b: mode == "all" or gr.edges[a, b]["ok"]
        dist = {start: 0}
        todo = [start]
        while todo:
            a = todo.pop(0)
            for b in gr.adj[a]:
                if b not in dist and usable(a, b):
                    dist[b] = dist[a] + 1
                    todo.append(b)
        names = [n for n, _ in got]
        mon.check(len(names) == len(set(names)), "bfs-duplicates", f"{names} from {start} over {list(gr.edges)}", key=("bfs", mode, len(names)))
        mon.eq(set(names), set(dist) - {start}, "bfs-nodes", f"from {start} over {list(gr.edges(data=True))}")
        mon.check([dist[n] for n in names] == sorted(dist[n] for n in names), "bfs-levels", f"{names} distances {dist}")
        for pos, (n, e) in enumerate(got):
            parents = [p for p in [start, *names[:pos]] if gr.has_edge(p, n) and gr.edges[p, n] is e or gr.has_edge(p, n) and gr.adj[p][n] is e]
            mon.check(bool(parents), "bfs-edge", f"edge data of {n} does not belong to an edge from an earlier node")
        if order:
            first = [(n, e) for n, e in got if dist[n] == 1]
            ws = [order(n, e) for n, e in first]
            mon.check(ws == sorted(ws), "bfs-order", f"first level {first} is not sorted")
            # children of one parent are sorted, and grouped by the order of their parents
            parent = {}
            for pos, (n, e) in enumerate(got):
                for p in [start, *names[:pos]]:
                    if gr.has_edge(p, n) and gr.adj[p][n] is e:
                        parent[n] = p
                        break
            for p in set(parent.values()):
                ws = [order(n, e) for n, e in got if parent.get(n) == p]
                mon.check(ws == sorted(ws), "bfs-order", f"children of {p} are not sorted: {ws}")
    # frontier walks
    if len(u) <= 5:
        def extend(walk):
            if len(walk) == len(u):
                yield tuple(walk)
                return
            front = {b for a in walk for b in u.adj[a] if b not in walk} or {n for n in u.nodes if n not in walk}
            for n in front:
                yield from extend([*walk, n])
        want = {w for n in u.nodes for w in extend([n])}
        got = list(nxu.nx_frontier_walks(u))
        mon.count("walks", len(got))
        mon.check({tuple(w.nodes()) for w in got} == want, "frontier-walks", f"over {list(u.edges)} and {list(u.nodes)}: {len(got)} walks, expected {len(want)}",
                  key=("fw", len(u), u.number_of_edges()))
        edge_ids = Counter(tuple((n, id(e)) for n, e in w.path) + (w.start_node,) for w in got)
        mon.check(max(edge_ids.values()) == 1, "frontier-walk-duplicates", f"over {list(u.edges)}")
        for w in got[:20]:
            mon.check(len(w) == len(u) and all(n in w for n in u.nodes) and w.final_node() == w.nodes()[-1] and list(w) == list(w.nodes())
                      and w.nodes_hash() == hash(tuple(w.nodes())), "graph-walk", str(w))
            w2 = w.expand("extra", None)
            mon.check(len(w2) == len(w) + 1 and "extra" not in w and w2.final_node() == "extra" and w2.start_node == w.start_node, "graph-walk-expand", str(w))
            mon.check(w != w2 and w == nxu.GraphWalk(w.start_node, list(w.path)), "graph-walk-eq", str(w))


def depgraph(mon, rng):
    n = rng.randint(1, 8)
    kind = rng.choice(["int", "str", "colliding"])
    tasks = [i if kind == "int" else f"t{i}" if kind == "str" else Keyed(i) for i in range(n)]
    rank = list(range(n))
    rng.shuffle(rank)
    g = misc.DependencyGraph()
    deps = {}
    for _ in range(rng.randint(1, 2 * n)):
        t = rng.randrange(n)
        cand = [i for i in range(n) if rank[i] < rank[t]]
        ds = rng.sample(cand, min(len(cand), rng.randint(0, 3)))
        if rng.random() < 0.3:
            arg = None
            ds = []
        else:
            arg = oneshot(rng, [tasks[d] for d in ds])
        if arg is None:
            g.add_task(tasks[t])
        else:
            g.add_task(tasks[t], depends_on=arg)
        deps.setdefault(t, set()).update(ds)
        for d in ds:
            deps.setdefault(d, set())
        mon.count("depgraph")
        for _ in range(2):  # iteration is repeatable
            order = list(g)
            pos = {}
            for i, x in enumerate(order):
                pos.setdefault(tasks.index(x), i)
            mon.check(len(order) == len(deps) and set(pos) == set(deps), "depgraph-tasks", f"order {order}, tasks {deps}", key=(kind, len(deps)))
            for x, dd in deps.items():
                for d in dd:
                    mon.check(pos[d] < pos[x], "depgraph-order", f"order {order}: {tasks[x]} before its dependency {tasks[d]}")
            sources = [x for x in deps if not deps[x]]
            mon.check({tasks.index(x) for x in order[:len(sources)]} == set(sources), "depgraph-sources-first", f"order {order}, sources {sources}")


# --------------------------------------------------------------------------- numbers
ROPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "/": operator.truediv,
        "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "**": operator.pow}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def numbers_(mon, rng):
    for cls in ("atomic", "bounded"):
        lo = rng.choice([None, 0, -5]) if cls == "bounded" else None
        hi = rng.choice([None, 10, 20]) if cls == "bounded" else None

        def clamp(v):
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return v

        def make(v):
            return num.AtomicInt(v) if cls == "atomic" else num.BoundedInt(v, allowed_min=lo, allowed_max=hi)
        for _ in range(25):
            a, b = rng.randint(-8, 25), rng.randint(-8, 25)
            if rng.random() < 0.3:
                b = rng.randint(0, 3)
            A, B = make(a), make(b)
            mon.count("bounded")
            mon.check(int(A) == clamp(a) and A.value == clamp(a) and A == clamp(a) and float(A) == float(clamp(a)), f"{cls}-value", f"{a} in [{lo},{hi}]: {A!r}")
            a, b = clamp(a), clamp(b)
            op = rng.choice(list(ROPS))
            mode = rng.choice(["xx", "xi", "ix", "same"])
            left, right = (A, B) if mode == "xx" else (A, b) if mode == "xi" else (a, B) if mode == "ix" else (A, A)
            x, y = a, (a if mode == "same" else b)
            if op in ("<<", ">>", "**") and (y < 0 or y > 30) and not (op == "**" and -3 < y < 0):
                continue
            try:
                want = ROPS[op](x, y)
            except ZeroDivisionError:
                mon.raises(lambda: ROPS[op](left, right), f"{cls}-division", f"{x} {op} {y}", exc=ZeroDivisionError)
                continue
            if op == "**" and want != int(want):
                if mode != "ix":
                    mon.raises(lambda: ROPS[op](left, right), f"{cls}-pow", f"{x} ** {y}", exc=ValueError)
                continue
            got = ROPS[op](left, right)
            if isinstance(left, num.BoundedInt) and op in "+-*" or op == "**" and isinstance(left, num.BoundedInt):
                want = clamp(int(want))
            mon.check(got == want and (not isinstance(got, num.BoundedInt) or (got._allowed_min, got._allowed_max) == (lo, hi)), f"{cls}:{op}",
                      f"{left!r} {op} {right!r} = {got!r}, expected {want}", key=(cls, op, mode, lo, hi))
            for name, fn in CMP.items():
                mon.eq(fn(left, right), fn(x, y), f"{cls}:{name}", (left, right))
            if A == B:
                mon.check(hash(A) == hash(B) == hash(a), f"{cls}-hash", a)
            mon.check(int(A) == a and int(B) == b, f"{cls}-operand-changed", f"{left!r} {op} {right!r}")
            for name, fn in (("abs", abs), ("invert", operator.invert), ("pos", operator.pos), ("neg", operator.neg), ("round", round), ("trunc", math.trunc),
                             ("ceil", math.ceil), ("floor", math.floor), ("index", operator.index), ("bool", bool)):
                want = fn(a)
                if name == "neg":
                    want = clamp(want)
                mon.eq(fn(A), want, f"{cls}-{name}", a)
            mon.eq(divmod(A, 7), divmod(a, 7), f"{cls}-divmod", a)
            mon.eq(pow(A, 3, 5), clamp(pow(a, 3, 5)), f"{cls}-powmod", a)
            A.value = b
            mon.check(int(A) == clamp(b), f"{cls}-set", b)
        if cls == "atomic":
            c = num.AtomicInt(5)
            ref = 5
            for _ in range(10):
                by = rng.randint(-3, 5)
                c.increment(by)
                ref += by
                if rng.random() < 0.1:
                    c.reset()
                    ref = 0
                mon.eq(c.value, ref, "atomic-increment", by)
            c.increment()
            mon.eq(int(c), ref + 1, "atomic-increment")
        else:
            mon.raises(lambda: num.BoundedInt(1.5), "bounded-type", exc=TypeError)
            mon.raises(lambda: num.BoundedInt(1, allowed_min=3, allowed_max=2), "bounded-range", exc=ValueError)
            mon.eq(num.BoundedInt.non_neg(-4), 0, "bounded-nonneg")
            mon.eq(num.BoundedInt.non_neg(9, allowed_max=4), 4, "bounded-nonneg")
    for txt in ("1", "1.5", "-3e4", " 7 ", "abc", "", "1,2", "0x1", "inf", None, "--1"):
        try:
            float(txt)
            ok = True
        except (TypeError, ValueError):
            ok = False
        mon.eq(num.represents_number(txt), ok, "represents_number", txt)
    n = rng.randint(0, 700)
    c = 1
    for k in range(n):
        c = c * 2 * (2 * k + 1) // (k + 2)
    mon.eq(stats.catalan_number(n), c, "catalan", n, key=("cat", n // 50))
    a, b = set(ints(rng)), frozenset(ints(rng))
    if a | b:
        both = len([x for x in a if x in b])
        mon.check(math.isclose(stats.jaccard(a, b), both / (len(a) + len(b) - both)), "jaccard", (a, b))
        mon.check(stats.jaccard(a, b) == stats.jaccard(b, a), "jaccard-symmetric", (a, b))
    xs = ints(rng, 0, 5)
    m = stats.score_matrix(oneshot(rng, xs), lambda p, q: p * 10 + q)
    mon.check(m.shape == (len(xs), len(xs)) and all(m[i, j] == xs[i] * 10 + xs[j] for i in range(len(xs)) for j in range(len(xs))), "score_matrix", xs)
    w = "".join(rng.choice("abCD e") for _ in range(rng.randint(0, 8)))
    t = stats.trigrams(w)
    pad = "  " + w.lower() + "  "
    mon.check(all(len(x) == 3 for x in t) and t[0] + "".join(x[2] for x in t[1:]) == pad, "trigrams", (w, t))


def versions(mon, rng):
    def rv():
        return [rng.choice([0, 1, 2, 9, 10, 14]) for _ in range(rng.randint(1, 4))]
    for _ in range(15):
        a, b, c = rv(), rv(), rv()
        if rng.random() < 0.3:
            b = list(a) + ([0] if rng.random() < 0.4 else [])
        mk = lambda v: rng.choice([lambda: misc.Version(".".join(map(str, v))), lambda: misc.Version(list(v)), lambda: misc.Version([str(x) for x in v])])()
        A, B = mk(a), mk(b)
        mon.count("versions")
        for name, fn in CMP.items():
            mon.eq(fn(A, B), fn(a, b), f"version:{name}", (a, b), key=(name, (a > b) - (a < b), len(a) - len(b)))
            mon.eq(fn(A, ".".join(map(str, b))), fn(a, b), f"version:{name}", ("str", a, b))
        if a == b:
            mon.check(hash(A) == hash(B) and len({A, B}) == 1, "version-hash", (a, b))
        mon.check(A.major == a[0] and A.minor == (a[1] if len(a) > 1 else None) and A.patch == (a[2] if len(a) > 2 else None)
                  and list(A.components) == a and len(A) == len(a), "version-components", a)
        mon.eq(A.formatted(prefix="p", suffix="s", separator="_"), "p" + "_".join(map(str, a)) + "s", "version-formatted", a)
        mon.check(misc.Version.is_valid(A.formatted()) and misc.Version.wrap(A) == A, "version-valid", a)
        if len(a) == 1:
            mon.eq(misc.Version(a[0]), A, "version-int", a)
        mon.eq([v.components for v in sorted([A, B, mk(c)])], sorted([a, b, c]), "version-sort", (a, b, c))
    for bad in ("x", "1.x", "", "1..2", []):
        mon.check(not misc.Version.is_valid(bad) and misc.Version.wrap(bad) is None, "version-invalid", repr(bad))
        mon.raises(lambda: misc.Version(bad), "version-invalid", repr(bad), exc=ValueError)
        mon.check(misc.Version("1.2") != bad, "version-invalid-eq", repr(bad))


# --------------------------------------------------------------------------- data frames and processes
def frames(mon, rng):
    n = rng.randint(1, 6)
    df = pd.DataFrame({"i": [rng.randint(0, 99) for _ in range(n)], "s": [rng.choice(["a", "b,c", 'q"x', "l1\nl2", "ü"]) for _ in range(n)],
                       "f": [rng.choice([0.5, 2.25, -1.0]) for _ in range(n)]})
    complex_ = [rng.choice([{"k": 1}, [1, 2], {"a": [1, {"b": None}]}]) for _ in range(n)]
    if rng.random() < 0.7:
        df["c"] = complex_
    snap = df.copy(deep=True)
    import json
    for suffix in rng.sample([".csv", ".parquet", ".json", ".feather"], 2):
        path = Path(mon.tmp) / f"sub{rng.randint(0, 999)}" / f"out{suffix}"
        path2 = rng.choice([path, str(path)])
        util.write_df(df, path2)
        mon.count("frames")
        mon.check(df.equals(snap) and all(type(a) is type(b) for a, b in zip(df.get("c", []), snap.get("c", []))), "frame-modified", f"writing {suffix} changed the data frame: {df.to_dict()}",
                  key=(suffix, "c" in df))
        back = util.read_df(path2)
        mon.check(list(back.columns) == list(df.columns) and len(back) == n, "frame-shape", f"{suffix}: {list(back.columns)} {len(back)}")
        for col in ("i", "s", "f"):
            mon.check(list(back[col]) == list(snap[col]), "frame-values", f"{suffix}.{col}: {list(back[col])} vs {list(snap[col])}")
        if "c" in df:
            mon.check([json.loads(x) if isinstance(x, str) else x for x in back["c"]] == complex_, "frame-json", f"{suffix}: {list(back['c'])}")
    mon.raises(lambda: util.write_df(df, Path(mon.tmp) / "x.unknown"), "frame-format", exc=ValueError)
    mon.raises(lambda: util.read_df(Path(mon.tmp) / "x.unknown"), "frame-format", exc=ValueError)


def procs(mon, rng):
    cwd = os.getcwd()
    wd = Path(mon.tmp) / f"wd{rng.randint(0, 999)}"
    wd.mkdir(exist_ok=True)
    mon.count("procs")
    args = rng.sample(["a", "b c", 3, "$HOME"], 2)
    for form in (lambda: proc.run_cmd("printf", "%s|%s", *args), lambda: proc.run_cmd(["printf", "%s|%s"], *args),
                 lambda: proc.run_cmd(("printf", "%s|%s", args[0]), args[1]), lambda: proc.run_cmd(x for x in ["printf", "%s|%s", *args])):
        res = form()
        mon.check(res == f"{args[0]}|{args[1]}" and res.exit_code == 0 and bool(res) and os.getcwd() == cwd, "run_cmd", f"{res!r}", key="forms")
    res = proc.run_cmd("pwd", work_dir=rng.choice([wd, str(wd)]))
    mon.check(os.path.realpath(res.strip()) == os.path.realpath(wd) and os.getcwd() == cwd, "run_cmd-workdir", f"{res!r}")
    res = proc.run_cmd("sh", "-c", "echo out; echo err >&2; exit 3", work_dir=wd)
    mon.check(not res and res.exit_code == 3 and res.out_data == "out\n" and res.err_data == "err\n" and os.getcwd() == cwd, "run_cmd-failure", f"{res!r}")
    mon.raises(res.raise_if_error, "run_cmd-raise", exc=RuntimeError)
    mon.raises(lambda: proc.run_cmd("/nonexistent-command", work_dir=wd), "run_cmd-missing", exc=OSError)
    try:
        mon.check(os.getcwd() == cwd, "run_cmd-cwd-restored", f"working directory is {os.getcwd()} after a failed call")
    finally:
        os.chdir(cwd)


SCENARIOS = [
    Scenario(helpers, quick=120, thorough=2500), Scenario(hashing, quick=150, thorough=4000), Scenario(queues, quick=150, thorough=4000),
    Scenario(dictionaries, quick=120, thorough=3000), Scenario(graphs, quick=900, thorough=5000), Scenario(depgraph, quick=250, thorough=5000),
    Scenario(numbers_, quick=150, thorough=3000), Scenario(versions, quick=150, thorough=3000), Scenario(frames, quick=40, thorough=600),
    Scenario(procs, quick=16, thorough=100),
]
