"""P26: training data against a model of samples (list of feature -> value records)."""
import pathlib
import random

import numpy as np
import pandas as pd

from postbound import parser, util
from postbound.train import TrainingData, TrainingDataRepository, TrainingSpec

from lib import sqlgen
from lib.vlib import Scenario

PROPERTY = "P26"
TECHNIQUE = "model-based monitoring: random histories of loading, storing, projecting, merging and repository retrieval run in lockstep with a model that stores each sample as a feature/value record"
RULE = ("histories of 8-18 operations over datasets with identity, renamed and permuted feature maps, extra columns, 0-6 samples, mixed value types, stored as CSV/JSON/Parquet/Feather; "
        "distinct by operation x feature map kind x size class")
ASSUMPTIONS = ["feature maps point to existing columns", "query plans and other structured features are compared as opaque values", "feature names in one spec are distinct"]
LEVEL_NOTE = "exact model comparison after every operation, and re-check of all earlier datasets (they must not change)"
REQUIRE = {"ops": 4000, "samples": 20000, "rejected": 300, "merges": 400, "renamed": 400, "stored": 300, "repo": 500, "specs": 1500}

FEATURES = ["query", "runtime_ms", "query_plan", "estimated_cost", "cardinality", "custom", "x y"]
_Q = []


def queries():
    if not _Q:
        rng = random.Random(5)
        seen = {}
        while len(seen) < 12:
            q = parser.parse_query(sqlgen.spj(rng, n_tables=rng.choice([1, 2, 3]))[0], bind_columns=False)
            seen.setdefault(str(q), q)
        _Q.extend(seen.values())
    return _Q


def value(rng, feat):
    if feat == "query":
        return rng.choice(queries())
    if feat == "runtime_ms":
        return rng.choice([0.0, 42.42, 1e-9, 1e12, 3.0])
    if feat == "query_plan":
        return rng.choice(["SeqScan(a)", "Join(b, \"c\")", "ü"])
    if feat == "estimated_cost":
        return rng.choice([1.5, 2.5, 1e30])
    if feat == "cardinality":
        return rng.choice([0, 1, 7, 2 ** 53 + 1, 2 ** 60 + 3, 1000])
    if feat == "custom":
        return rng.choice(["a", "b,c", "line\nbreak", "'q'"])
    return rng.randint(0, 5)


def norm(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return None
    return v


def rows_of(df):
    return [[norm(v) for v in row] for row in df.itertuples(index=False, name=None)]


class Model:
    def __init__(self, features, records, loose=False):
        self.features, self.records = list(features), list(records)   # records: dict feature -> value


def verify(mon, data, model, mech, what):
    feats = model.features
    mon.eq(list(data.spec.features), feats, f"{mech}:features", what)
    mon.eq(list(data.feature_map), feats, f"{mech}:feature-map", what)
    mon.check(data.spec.feature_set == frozenset(feats), f"{mech}:feature-set", lambda: f"{what}: {data.spec.feature_set}")
    if not mon.eq(len(data), len(model.records), f"{mech}:len", what):
        return
    want = [[r[f] for f in feats] for r in model.records]
    mon.count("samples", len(want))
    df = data.as_df(TrainingSpec(feats)) if feats else None
    if df is not None:
        mon.eq(list(df.columns), feats, f"{mech}:columns", what)
        mon.check(rows_of(df) == want, f"{mech}:samples", lambda: f"{what}: {rows_of(df)} instead of {want}")
    full = data.as_df()
    mon.check(all(f in full.columns for f in feats) and len(full) == len(want), f"{mech}:unprojected-columns", lambda: f"{what}: {list(full.columns)} lacks some of {feats}")
    if len(set(full.columns)) == len(full.columns) and feats:
        mon.check(rows_of(full[feats]) == want, f"{mech}:unprojected-samples", lambda: f"{what}: {rows_of(full[feats])} instead of {want}")
    if not want:
        return
    got = [[norm(v) for v in data[i]] for i in range(len(data))]
    mon.check(got == want, f"{mech}:getitem", lambda: f"{what}: {got} instead of {want}")
    got = [[norm(v) for v in s] for s in data]
    mon.check(got == want, f"{mech}:iter", lambda: f"{what}: {got} instead of {want}")
    raw = data.samples
    for f in feats:
        col = [norm(v) for v in raw[data.feature_map[f]]]
        mon.check(col == [r[f] for r in model.records], f"{mech}:raw-samples", lambda: f"{what}: {f} is column {data.feature_map[f]}: {col}")


def build(mon, rng):
    feats = rng.sample(FEATURES, rng.randint(1, 5))
    n = rng.choice([0, 1, 2, 3, 6])
    records = [{f: value(rng, f) for f in feats} for _ in range(n)]
    kind = rng.choice(["identity", "renamed", "permuted", "file", "frame"])
    if kind in ("file", "frame"):
        text = kind == "file" or rng.random() < 0.6
        order = list(feats)
        rng.shuffle(order)
        df = pd.DataFrame([{f: str(r[f]) if f == "query" and text else r[f] for f in order} for r in records], columns=order)
        if n == 0 and kind == "file":
            return build(mon, rng)
        if kind == "frame":
            before = df.copy(deep=True)
            src = rng.choice([None, "origin.csv", pathlib.Path("origin.csv")])
            data = TrainingData.from_df(df, source=src)
            mon.check(list(df.columns) == list(before.columns) and rows_of(df) == rows_of(before), "from_df:input-changed", lambda: f"{rows_of(df)} was {rows_of(before)}")
            mon.check(data.source == (pathlib.Path(src) if src else None), "from_df:source", lambda: f"{data.source} for {src}")
            return data, Model(order, records), kind
        mon.count("stored")
        path = pathlib.Path(mon.tmp) / f"t{rng.randrange(1 << 40)}{rng.choice(['.csv', '.json', '.parquet', '.feather'])}"
        if rng.random() < 0.5:
            # stored with the library: queries are complex objects
            util.write_df(df.assign(query=[r["query"] for r in records]) if "query" in order else df, path)
        else:
            {".csv": lambda: df.to_csv(path, index=False), ".json": lambda: df.to_json(path, orient="records"), ".parquet": lambda: df.to_parquet(path),
             ".feather": lambda: df.to_feather(path)}[path.suffix]()
        data = TrainingData.from_df(rng.choice([str, pathlib.Path])(path))
        mon.check(data.source == path, "from_df:file-source", lambda: f"{data.source}")
        path.unlink()
        if path.suffix in (".csv", ".json"):
            # text formats: floats survive up to the precision of the writer
            for i, r in enumerate(records):
                for f in ("runtime_ms", "estimated_cost"):
                    if f in r:
                        got = float(data.samples[f].iloc[i])
                        if abs(got - r[f]) <= 1e-9 * max(1, abs(r[f])):
                            r[f] = got
        return data, Model(order, records), kind
    if kind == "identity":
        fm = {f: f for f in feats}
    elif kind == "renamed":
        fm = {f: f"col_{i}" for i, f in enumerate(feats)}
    else:
        cols = list(feats)
        rng.shuffle(cols)
        fm = dict(zip(feats, cols))
    if kind != "identity":
        mon.count("renamed")
    cols = {fm[f]: [r[f] for r in records] for f in feats}
    names = list(cols)
    rng.shuffle(names)
    df = pd.DataFrame({c: pd.Series(cols[c], dtype=None if n else object) for c in names})
    for i in range(rng.choice([0, 0, 1, 2])):
        df.insert(rng.randrange(len(df.columns) + 1), f"extra{i}", [rng.randrange(9) for _ in range(n)])
    if n and rng.random() < 0.3:
        df.index = rng.sample(range(100, 200), n)
    return TrainingData(df, feature_map=fm), Model(feats, records), kind


def make_spec(rng, feats):
    form = rng.randrange(5)
    feats = list(feats)
    if form == 0:
        return TrainingSpec(*feats)
    if form == 1:
        return TrainingSpec(iter(feats))
    if form == 2:
        return TrainingSpec(tuple(feats))
    if form == 3:
        return TrainingSpec(feats[:1], *feats[1:])
    return TrainingSpec(feats)


def check_spec(mon, rng):
    mon.count("specs")
    a, b = rng.sample(FEATURES, rng.randint(1, 5)), rng.sample(FEATURES, rng.randint(1, 5))
    sa, sb = make_spec(rng, a), make_spec(rng, b)
    what = f"{a} / {b}"
    mon.eq(list(sa.features), a, "spec:features", what)
    mon.eq(list(sa), a, "spec:iter", what)
    v = sa.satisfies(sb)
    miss = set(b) - set(a)
    mon.check(bool(v) == (not miss) and v.contains_violations() == bool(miss) and set(v.missing_features) == miss, "spec:satisfies", lambda: f"{what}: {v!r}", key=("spec", len(miss), len(a)))
    arg = rng.choice([list, tuple, set, iter, lambda x: x])(b)
    mon.check(sa.provides(arg) == (not miss), "spec:provides", what)
    mon.check(sa.requires(b[0]) == (b[0] in a), "spec:requires", what)
    mon.check((sa == sb) == (set(a) == set(b)) and (sa != sb or hash(sa) == hash(sb)), "spec:eq", what)


def pick_spec(rng, feats):
    """Mostly a subset of the features, in random order."""
    out = rng.sample(feats, rng.randint(1, len(feats)))
    if rng.random() < 0.2:
        out.insert(rng.randrange(len(out) + 1), rng.choice([f for f in FEATURES if f not in out]))
    return out


def history(mon, rng):
    objs, trace = [], []
    repo, registered = TrainingDataRepository(), []

    def push(entry, mech, kind="derived"):
        data, model = entry
        mon.count("ops")
        mon.ok((mech, kind, min(len(model.records), 2), len(model.features)))
        verify(mon, data, model, mech, f"{trace[-6:]}")
        objs.append(entry)
        for d, m in objs[-5:]:
            verify(mon, d, m, f"frozen:{mech}", f"{trace[-6:]}")
        if len(objs) > 6:
            objs.pop(rng.randrange(4))

    for step in range(rng.randint(8, 18)):
        op = "build" if len(objs) < 3 else rng.choice(["build", "conform", "conform", "merge_with", "merge", "register", "first", "all", "merged", "spec", "satisfies", "mutate-result"])
        if op == "build":
            data, model, kind = build(mon, rng)
            trace.append(f"build[{kind},{model.features},{data.feature_map},{len(model.records)}]")
            push((data, model), "build", kind)
            continue
        data, model = rng.choice(objs)
        if op == "conform":
            want = pick_spec(rng, model.features)
            trace.append(f"conform({model.features}->{want})")
            arg = make_spec(rng, want) if rng.random() < 0.6 else rng.choice([list, tuple, iter])(want)
            if not set(want) <= set(model.features):
                mon.count("rejected")
                mon.raises(lambda: data.conform_to(arg), "conform:unsatisfied", str(trace[-1]), exc=ValueError)
                mon.raises(lambda: data.as_df(TrainingSpec(want)), "as_df:unsatisfied", str(trace[-1]), exc=ValueError)
                continue
            got = data.conform_to(arg)
            push((got, Model(want, model.records)), op)
            df = data.as_df(TrainingSpec(want))
            exp = [[r[f] for f in want] for r in model.records]
            mon.check(list(df.columns) == want and rows_of(df) == exp, "as_df:projection", lambda: f"{trace[-3:]}: {list(df.columns)} {rows_of(df)} instead of {exp}")
        elif op == "merge_with":
            other, om = rng.choice(objs)
            trace.append(f"merge_with({model.features}, {om.features})")
            if not set(model.features) <= set(om.features):
                mon.count("rejected")
                mon.raises(lambda: data.merge_with(other), "merge:unsatisfied", str(trace[-1]), exc=ValueError)
                continue
            mon.count("merges")
            push((data.merge_with(other), Model(model.features, model.records + om.records)), op)
        elif op == "merge":
            base = pick_spec(rng, model.features)
            cands = [e for e in objs if set(base) <= set(e[1].features)]
            if rng.random() < 0.2:
                cands = objs
            picked = [rng.choice(cands) for _ in range(rng.randint(1, 3))] if cands else [rng.choice(objs)]
            trace.append(f"merge({[m.features for _, m in picked]} by {base})")
            arg = rng.choice([list, iter, tuple])([d for d, _ in picked])
            if any(not set(base) <= set(m.features) for _, m in picked):
                mon.count("rejected")
                mon.raises(lambda: TrainingData.merge(arg, according_to=TrainingSpec(base)), "merge:unsatisfied", str(trace[-1]), exc=ValueError)
                continue
            mon.count("merges")
            push((TrainingData.merge(arg, according_to=make_spec(rng, base)), Model(base, [r for _, m in picked for r in m.records])), op)
        elif op == "register":
            trace.append("register")
            mon.check(repo.register(data) is repo, "register:result", "")
            registered.append((data, model))
        elif op in ("first", "all", "merged"):
            mon.count("repo")
            want = pick_spec(rng, model.features)
            trace.append(f"{op}({want}) of {[m.features for _, m in registered]}")
            match = [e for e in registered if set(want) <= set(e[1].features)]
            spec = make_spec(rng, want)
            if op == "first":
                got = repo.retrieve_first(spec)
                if not match:
                    mon.check(got is None, "first:none", lambda: f"{trace[-1]}: {got}")
                elif mon.check(got is not None, "first:missing", trace[-1]):
                    push((got, Model(want, match[0][1].records)), op)
            elif op == "all":
                got = list(repo.retrieve_all(spec))
                if mon.eq(len(got), len(match), "all:count", trace[-1]):
                    for g, (d, m) in zip(got, match):
                        verify(mon, g, m if list(g.spec.features) == m.features else Model(want, m.records), "all", trace[-1])
            else:
                got = repo.retrieve_merged(spec)
                if not match:
                    mon.check(got is None, "merged:none", lambda: f"{trace[-1]}: {got}")
                elif mon.check(got is not None, "merged:missing", trace[-1]):
                    mon.count("merges")
                    push((got, Model(want, [r for _, m in match for r in m.records])), op)
        elif op == "satisfies":
            want = pick_spec(rng, model.features)
            miss = set(want) - set(model.features)
            v = data.satisfies(make_spec(rng, want))
            mon.check(bool(v) == (not miss) and set(v.missing_features) == miss, "satisfies", lambda: f"{model.features} vs {want}: {v!r}")
            mon.check(all(data.provides(f) == (f in model.features) for f in FEATURES), "provides", lambda: f"{model.features}")
            other, om = rng.choice(objs)
            if data == other:
                mon.check(set(model.features) == set(om.features) and len(model.records) == len(om.records), "eq", lambda: f"{data} == {other}, but {model.records} / {om.records}")
        elif op == "mutate-result":
            df = data.as_df(TrainingSpec(model.features))
            if len(df):
                df.drop(df.index[0], inplace=True)
                df.rename(columns={model.features[0]: "gone"}, inplace=True)
            verify(mon, data, model, "mutate-result", str(trace[-4:]))
        else:
            check_spec(mon, rng)


def specs(mon, rng):
    for _ in range(10):
        check_spec(mon, rng)


SCENARIOS = [Scenario(history, quick=1200, thorough=15000), Scenario(specs, quick=200, thorough=1000)]
