"""P16: cardinality arithmetic against extended numbers."""
import copy
import json
import math
import operator
import pickle

import postbound as pb
from postbound import Cardinality, util

from lib.vlib import Scenario

PROPERTY = "P16"
TECHNIQUE = "online monitor comparing every cardinality operation with a model of integers extended by infinity and unknown"
RULE = ("operands drawn from small and large integers, fractions, infinity and unknown, as cardinalities or plain numbers on either side; "
        "every operator, comparison, conversion and hash is compared with the model; distinct by operator, operand kinds and magnitudes")
ASSUMPTIONS = ["arithmetic is judged up to double precision (the implementation computes with floats)",
               "division or modulo by zero may raise ZeroDivisionError, overflow of ** may raise OverflowError, as for plain numbers"]
REQUIRE = {"arith": 3000, "compare": 3000, "hash": 1000, "histories": 200}

ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow,
         "//": operator.floordiv, "%": operator.mod}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def number(rng, plain=False):
    k = rng.randrange(10)
    if k == 0:
        return math.inf
    if k == 1:
        return math.nan
    if k == 2:
        return 0
    if k == 3:
        return rng.choice([1, 2, 2 ** 31, 2 ** 40, 10 ** 12])
    if k == 4 and plain:
        return rng.choice([0.5, 0.25, 1.5, 2.75, 0.001, 1e6 + 0.5])
    if k == 5 and plain:
        return float(rng.randint(0, 100))
    return rng.randint(0, 60)


def rnd(x):
    return x if math.isnan(x) or math.isinf(x) else round(x)


def kind(x):
    return "nan" if math.isnan(x) else "inf" if math.isinf(x) else "frac" if x != int(x) else "0" if x == 0 else "big" if x > 1000 else "int"


def same(got, want):
    if isinstance(got, Cardinality):
        got = got.get()
    if math.isnan(want) or math.isnan(got):
        return math.isnan(want) and math.isnan(got)
    return got == want or (abs(want) > 2 ** 50 and math.isclose(got, want, rel_tol=1e-12))


def model(op, a, b):
    """Result over the extended numbers; None when Python itself raises."""
    if op in ("//", "%"):
        if math.isnan(a) or math.isnan(b):
            return math.nan
        if math.isinf(a):
            return None if b == 0 else (math.inf if not math.isinf(b) else math.nan) if op == "//" else math.nan
        if b == 0:
            return None
        if math.isinf(b):
            return 0 if op == "//" else a
        return a // b if op == "//" else a % b
    try:
        return ARITH[op](float(a), float(b))
    except (ZeroDivisionError, OverflowError):
        return None


def state(mon, c, what):
    flags = (c.is_valid(), c.isnan(), c.isinf())
    mon.check(sum(flags) == 1 and c.is_unknown() == c.isnan(), "states", f"{what}: valid/unknown/infinite flags {flags} of {c!r}")
    if c.is_valid():
        mon.check(isinstance(c.value, int) and int(c) == c.value and float(c) == float(c.value), "value", f"{what}: {c!r}")
    else:
        mon.raises(lambda: c.value, "value-of-invalid", f"{what}: value of {c!r}")
        mon.raises(lambda: int(c), "int-of-invalid", f"{what}: int of {c!r}")
    match c:
        case Cardinality(valid, value):
            mon.check(valid == c.is_valid() and value == (c.value if valid else -1), "match", f"{what}: pattern of {c!r} gives {valid}, {value}")
    mon.check(not c.is_valid() or c.get() == c.value, "get", f"{what}: get of {c!r}")


def arithmetic(mon, rng):
    for _ in range(40):
        op = rng.choice(list(ARITH))
        mode = rng.randrange(3)  # card-card, card-plain, plain-card
        a, b = number(rng, plain=mode == 2), number(rng, plain=mode == 1)
        if op == "**" and (abs(a) > 1000 or abs(b) > 30):
            continue
        left = a if mode == 2 else Cardinality(a)
        right = b if mode == 1 else Cardinality(b)
        want = model(op, a, b)
        mon.count("arith")
        try:
            got = ARITH[op](left, right)
        except (ZeroDivisionError, OverflowError) as e:
            mon.check(want is None or op in ("//", "%") and b == 0, "arith-raises", f"{left!r} {op} {right!r} raises {e!r}, expected {want}")
            continue
        if want == -math.inf:
            continue  # not representable
        if want is None:
            if op == "//" or op == "%":
                continue  # the module may answer unknown/infinite instead of raising
            mon.fail("arith-no-error", f"{left!r} {op} {right!r} = {got!r}, plain numbers raise")
        mon.check(isinstance(got, Cardinality) or op in ("//",), "arith-type", f"{left!r} {op} {right!r} has type {type(got)}")
        mon.check(same(got, rnd(want)), f"arith:{op}", f"{left!r} {op} {right!r} = {got!r}, expected {rnd(want)}",
                  key=(op, mode, kind(a), kind(b)))
        if isinstance(got, Cardinality):
            state(mon, got, f"{left!r} {op} {right!r}")
        mon.check(same(Cardinality(a), rnd(a)), "immutable", "operand changed")
    x = Cardinality(number(rng))
    for name, fn in (("abs", abs), ("round", round), ("trunc", math.trunc), ("ceil", math.ceil), ("floor", math.floor)):
        mon.check(same(fn(x), x.get()), f"unary:{name}", f"{name}({x!r}) = {fn(x)!r}")
    try:
        neg = -x
    except (TypeError, ValueError):
        neg = None
    mon.check(neg is None or isinstance(neg, (Cardinality, int, float)), "unary:neg", f"-{x!r} = {neg!r}")
    if isinstance(neg, Cardinality) and x.is_valid():
        mon.check(same(neg, -x.get()), "unary:neg", f"-{x!r} = {neg!r}")
    if rng.random() < 0.5:
        a, b = rng.randint(0, 99), rng.randint(1, 20)
        for l, r in ((Cardinality(a), Cardinality(b)), (Cardinality(a), b), (a, Cardinality(b))):
            mon.eq(tuple(float(v) for v in divmod(l, r)), tuple(map(float, divmod(a, b))), "divmod", f"divmod({l!r}, {r!r})")
        mon.check(complex(Cardinality(a)) == complex(a), "complex", str(a))


def construct(mon, rng):
    for v in (number(rng, True), number(rng, True), rng.random() * 100):
        c = Cardinality(v)
        state(mon, c, f"Cardinality({v})")
        mon.check(same(c, rnd(v)), "construct", f"Cardinality({v}) = {c!r}")
        mon.check(Cardinality.of(c) == c and Cardinality.of(v) == c, "of", f"Cardinality.of({v})")
        for d, how in ((copy.copy(c), "copy"), (copy.deepcopy(c), "deepcopy"), (pickle.loads(pickle.dumps(c)), "pickle")):
            state(mon, d, how)
            mon.check(same(d, c.get()) and d == c and hash(d) == hash(c), f"roundtrip-{how}", f"{how} of {c!r} gives {d!r}")
        txt = util.to_json({"c": c})
        back = Cardinality(json.loads(txt)["c"])
        mon.check(same(back, c.get()) and back == c, "roundtrip-json", f"{c!r} -> {txt} -> {back!r}")
        mon.check(str(c) == ("NaN" if math.isnan(v) else "inf" if math.isinf(v) else str(round(v))) and repr(c) == str(c), "str", f"{v}: {c}")
        mon.check(Cardinality.unknown().isnan() and Cardinality.infinite().isinf(), "factories", "")


def compare(mon, rng):
    for _ in range(40):
        mode = rng.randrange(3)
        a, b = number(rng, plain=mode == 2), number(rng, plain=mode == 1)
        if rng.random() < 0.25:
            b = rnd(a) if mode == 2 else a
        left = a if mode == 2 else Cardinality(a)
        right = b if mode == 1 else Cardinality(b)
        for name, fn in CMP.items():
            got = fn(left, right)
            mon.count("compare")
            if math.isnan(a) and math.isnan(b):
                # unknown values are interchangeable, but not ordered
                want = {"==": True, "!=": False}.get(name)
                if want is None:
                    continue
            else:
                want = fn(a, b)
            mon.check(got is want or got == want and isinstance(got, bool), f"compare:{name}", f"{left!r} {name} {right!r} = {got!r}, expected {want}",
                      key=(name, mode, kind(a), kind(b), (a > b) - (a < b)))
        if left == right and not math.isnan(a):
            mon.count("hash")
            mon.check(hash(left) == hash(right), "hash", f"{left!r} == {right!r}, but hashes differ ({mode})")
        if mode == 0:
            mon.check(hash(left) == hash(Cardinality(a)), "hash-stable", str(a))
            if math.isnan(a) and math.isnan(b):
                mon.check(hash(left) == hash(right), "hash", "unknown cardinalities hash differently")
        mon.check((left == "x") is False and (left != None), "compare-foreign", f"{left!r}")  # noqa: E711


def ordering(mon, rng):
    """sorted/min/max/sum/set over mixed cardinalities behave as over plain numbers."""
    vals = [v for v in (number(rng) for _ in range(rng.randint(1, 9))) if not math.isnan(v)] or [3]
    cards = [Cardinality(v) for v in vals]
    mon.count("histories")
    mon.check([c.get() for c in sorted(cards)] == [float(v) for v in sorted(vals)], "sorted", f"sorted({vals}) = {sorted(cards)}")
    mon.check(min(cards).get() == min(vals) and max(cards).get() == max(vals), "minmax", f"{vals}: {min(cards)}, {max(cards)}")
    mon.check(same(sum(cards), sum(map(float, vals))), "sum", f"sum({vals}) = {sum(cards)}")
    mon.check({c.get() for c in set(cards)} == set(map(float, vals)) and len(set(cards)) == len(set(map(float, vals))), "set", f"set({vals})")
    mixed = {v: i for i, v in enumerate(vals)}
    for v, c in zip(vals, cards):
        mon.check(mixed.get(c) == mixed[v], "dict-lookup", f"lookup of cardinality {c!r} in a dict with key {v}", key=kind(v))
    acc, ref = Cardinality(1), 1.0
    for v in vals[:4]:
        op = rng.choice("+*")
        acc = ARITH[op](acc, Cardinality(v))
        ref = rnd(ARITH[op](ref, float(v)))
        mon.check(same(acc, ref), "history", f"running {op} over {vals}: {acc!r}, expected {ref}")
        if math.isnan(ref):
            break


SCENARIOS = [Scenario(arithmetic, 900, 30000), Scenario(compare, 900, 30000), Scenario(construct, 400, 8000), Scenario(ordering, 500, 15000)]
