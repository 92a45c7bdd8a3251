"""P19: workload operations against a list-of-pairs model; readers against generated file trees."""
import copy
import csv
import pathlib
import pickle
import random
import re
import shutil
import warnings

from postbound import parser, workloads
from postbound.workloads import Workload

from lib import sqlgen
from lib.vlib import Scenario

PROPERTY = "P19"
TECHNIQUE = "model-based monitoring: random operation histories on real workloads run in lockstep with a list-of-pairs model (set semantics, natural order); readers run on generated directories and files with injected malformed queries"
RULE = ("histories of 12-25 operations over a pool of workloads with int/str/float/tuple/mixed labels, duplicate queries and colliding labels; directory trees, batch files and CSV files with several encodings, "
        "quoting, malformed queries and all error modes; distinct by operation x label kind x size class")
ASSUMPTIONS = ["labels whose natural sort keys tie (q1/q01) are not generated", "negative arguments of first/last/pick_random are not judged",
               "directory readers: files that match the pattern are regular files"]
LEVEL_NOTE = "exact model comparison after every operation of seeded random histories, and re-check of all earlier workloads (immutability)"
REQUIRE = {"ops": 8000, "histories": 400, "frozen": 20000, "dirs": 200, "malformed": 100, "skipped-malformed": 25, "raised-malformed": 40, "batch": 100, "csv": 100, "fetch": 20, "nested": 80}


def natkey(label):
    if isinstance(label, (int, float)):
        return ("", label)
    if isinstance(label, tuple):
        return tuple(natkey(x) for x in label)
    parts = re.split(r"(\d+)", label)
    if parts and parts[-1] == "":
        parts.pop()
    return tuple(int(p) if i % 2 else p for i, p in enumerate(parts))


def draw_label(rng, kind):
    if kind == "mixed":
        # the text "22" and the number 22 tie
        kind = rng.choice(["int", "str"])
        if kind == "str":
            return rng.choice("qx") + draw_label(rng, "str")
    if kind == "int":
        return rng.randint(-3, 25)
    if kind == "float":
        return rng.choice([0.5, 1.5, 2.25, 10.5, -1.5, 3.75, 7.125, 100.5, 11.0, 9.0])
    if kind == "tuple":
        return (rng.choice("ab"), rng.randint(1, 12))
    a = rng.choice(["q", "Q", "job-", "", "q-", "a.b", "x_", "w"])
    b = rng.choice(["", str(rng.randint(1, 25))])
    c = rng.choice(["", "a", "b", "-2", "-10", ".sql", "c3"])
    return (a + b + c) or "z"


def draw_labels(rng, kind, n, avoid=()):
    out, keys = [], {natkey(x) for x in avoid}
    tries = 0
    while len(out) < n and tries < 200:
        tries += 1
        x = draw_label(rng, kind)
        if natkey(x) not in keys:
            keys.add(natkey(x))
            out.append(x)
    return out


_QUERIES = {}


def pool(seed=77):
    if seed not in _QUERIES:
        rng = random.Random(seed)
        seen = {}
        while len(seen) < 14:
            q = parser.parse_query(sqlgen.spj(rng, n_tables=rng.choice([1, 2, 3]))[0], bind_columns=False)
            seen.setdefault(str(q), q)
        _QUERIES[seed] = list(seen.values())
    return _QUERIES[seed]


def clone_query(q):
    return parser.parse_query(str(q), bind_columns=False)


class Model:
    """Entries in the order the workload reports them; `free`: any order of the labels is fine."""

    def __init__(self, entries, free=False):
        self.entries, self.free = list(entries), free

    @property
    def data(self):
        return dict(self.entries)


def natural(entries):
    return sorted(entries, key=lambda e: natkey(e[0]))


def verify(mon, wl, model, mech, what):
    """The workload reports exactly the entries of the model."""
    want = model.entries
    labels, queries, entries = list(wl.labels()), list(wl.queries()), list(wl.entries())
    data = model.data
    mon.check(len(wl) == len(want) and set(iter(wl)) == set(data) and set(wl.keys()) == set(data), f"{mech}:labels", lambda: f"{what}: {sorted(map(str, wl.keys()))} instead of {sorted(map(str, data))}")
    if model.free:
        mon.check(sorted(map(repr, labels)) == sorted(map(repr, data)), f"{mech}:order", lambda: f"{what}: {labels}")
    else:
        mon.check([(type(a), a) for a in labels] == [(type(a), a) for a, _ in want], f"{mech}:order", lambda: f"{what}: {labels} instead of {[a for a, _ in want]}")
    mon.check(len(entries) == len(labels) == len(queries) and all(a == lab and q is e for (a, e), lab, q in zip(entries, labels, queries)), f"{mech}:entries", lambda: f"{what}: {entries}")
    for lab, q in entries:
        mon.check(lab in data and (data[lab] is q or data[lab] == q), f"{mech}:association", lambda: f"{what}: {lab} -> {q}")
        mon.check(wl[lab] is q, f"{mech}:getitem", lambda: f"{what}: {lab} -> {wl[lab]} / {q}")
        got = wl.label_of(q)
        mon.check(got in data and data[got] == q, f"{mech}:label_of", lambda: f"{what}: {q} -> {got}")
    head = wl.head()
    mon.check((head is None) if not entries else head == entries[0], f"{mech}:head", lambda: f"{what}: {head}")


def check_absent(mon, rng, wl, model, what):
    data = model.data
    for q in rng.sample(pool(), 3):
        if q not in data.values():
            mon.raises(lambda: wl.label_of(q), "label_of-unknown", what, exc=KeyError)
    lab = draw_label(rng, "str")
    if lab not in data:
        mon.raises(lambda: wl[lab], "getitem-unknown", what, exc=KeyError)
        mon.check(lab not in wl, "contains-unknown", what)


def new_workload(rng, kind):
    labels = draw_labels(rng, kind, rng.choice([0, 1, 2, 4, 6, 9]))
    entries = []
    for lab in labels:
        q = rng.choice(pool())
        entries.append((lab, clone_query(q) if rng.random() < 0.2 else q))
    return entries


def history(mon, rng):
    mon.count("histories")
    kind = rng.choice(["int", "str", "str", "float", "tuple", "mixed"])
    name = rng.choice(["", "wl"])
    objs = []          # (workload, model)
    trace = []

    def build():
        entries = new_workload(rng, kind)
        form = rng.randrange(3)
        src = dict(entries)
        if form == 0 and kind == "int":
            qs = [q for _, q in entries]
            wl = workloads.generate_workload(rng.choice([list, iter, tuple])(qs), name=name)
            entries = [(i + 1, q) for i, q in enumerate(qs)]
        elif form == 1 and entries and len({str(q) for _, q in entries}) == len(entries):
            labels = {q: lab for lab, q in entries}
            for q in pool():          # labels of queries that are not part of the workload
                if rng.random() < 0.1 and q not in labels:
                    labels[q] = draw_labels(rng, kind, 1, [x for x in labels.values()])[0]
            qs = [q for _, q in entries]
            wl = workloads.generate_workload(rng.choice([list, iter])(qs), labels=labels, name=name)
        else:
            wl = Workload(src, name)
            if rng.random() < 0.3:
                src.clear()
        trace.append(f"build{[str(a) for a, _ in entries]}")
        return wl, Model(natural(entries))

    def push(pair, mech):
        wl, model = pair
        what = f"{kind} {trace[-8:]}"
        mon.count("ops")
        verify(mon, wl, model, mech, what)
        mon.ok((mech, kind, min(len(model.entries), 3)))
        if rng.random() < 0.1:
            check_absent(mon, rng, wl, model, what)
        objs.append(pair)
        # everything that exists must still be as it was
        for w, m in objs[-6:]:
            mon.count("frozen")
            verify(mon, w, m, f"immutable:{mech}", what)
        if len(objs) > 7:
            objs.pop(rng.randrange(4))

    push(build(), "build")
    for _ in range(rng.randint(12, 25)):
        wl, model = rng.choice(objs)
        data, ent = model.data, model.entries
        op = rng.choice(OPS)
        trace.append(op)
        if op == "build":
            push(build(), op)
        elif op == "with_labels":
            labs = [a for a in data if rng.random() < 0.5] + draw_labels(rng, kind, rng.randrange(3))
            got = wl.with_labels(rng.choice([list, set, tuple, iter])(labs))
            push((got, sel(got, model, lambda a, q: a in labs)), op)
        elif op in ("first", "last"):
            n = rng.choice([0, 1, 2, len(ent), len(ent) + 2, max(0, len(ent) - 1)])
            got = getattr(wl, op)(n)
            if model.free:
                push((got, sel(got, model, lambda a, q: a in got)), op)
                mon.eq(len(got), min(n, len(ent)), f"{op}:size", str(trace[-5:]))
                continue
            part = ent[:n] if op == "first" else ent[max(0, len(ent) - n):]
            push((got, order_of(got, part)), op)
        elif op == "pick_random":
            n = rng.choice([0, 1, 2, len(ent), len(ent) + 2])
            random.seed(rng.random())
            got = wl.pick_random(n)
            mon.eq(len(got), min(n, len(ent)), "pick_random:size", str(trace[-5:]))
            mon.check(set(got) <= set(data), "pick_random:subset", lambda: f"{list(got)}")
            push((got, Model(natural([(a, data[a]) for a in got]))), op)
        elif op == "with_prefix":
            if any(not isinstance(a, str) for a in data):
                continue
            p = rng.choice(["q", "", "job", "a", "Q", "1", "x_"])
            push((wl.with_prefix(p), Model(natural([(a, q) for a, q in ent if a[:len(p)] == p]))), op)
        elif op == "filter_by":
            keep = {repr(a) for a in data if rng.random() < 0.6}
            seen = []
            got = wl.filter_by(lambda a, q: (seen.append((a, q)), repr(a) in keep)[1])
            mon.check(sorted(map(repr, (a for a, _ in seen))) == sorted(map(repr, data)) and all(data[a] is q or data[a] == q for a, q in seen), "filter_by:arguments", lambda: f"{seen}")
            push((got, Model(natural([(a, q) for a, q in ent if repr(a) in keep]))), op)
        elif op == "relabel":
            kind2 = rng.choice(["int", "str", kind, "tuple"])
            labs = draw_labels(rng, kind2, len(ent))
            if len(labs) < len(ent) or kind2 != kind:
                if len(labs) < len(ent):
                    continue
            new = {repr(a): b for a, b in zip(data, labs)}
            got = wl.relabel(lambda a, q: new[repr(a)] if data[a] is q or data[a] == q else "wrong")
            m = Model(natural([(new[repr(a)], q) for a, q in ent]))
            if kind2 == kind:
                push((got, m), op)
            else:
                verify(mon, got, m, op, str(trace[-5:]))
        elif op == "map":
            extra = rng.randrange(100)
            repl = {str(q): rng.choice(pool()) for _, q in ent}
            got = wl.map(lambda q, x, k=0: repl[str(q)] if (x, k) == (extra, 5) else None, extra, k=5)
            push((got, Model(natural([(a, repl[str(q)]) for a, q in ent]))), op)
        elif op == "transform":
            labs = draw_labels(rng, kind, len(ent))
            if len(labs) < len(ent):
                continue
            new = {repr(a): (b, rng.choice(pool())) for a, b in zip(data, labs)}
            got = wl.transform(lambda a, q, *args, **kw: new[repr(a)] if (data[a] is q or data[a] == q) and (args, kw) == ((1,), {"z": 2}) else None, 1, z=2)
            push((got, Model(natural([new[repr(a)] for a, _ in ent]))), op)
        elif op == "shuffle":
            random.seed(rng.random())
            got = wl.shuffle()
            labs = list(got.labels())
            mon.check(sorted(map(repr, labs)) == sorted(map(repr, data)), "shuffle:labels", lambda: f"{labs} of {list(data)}")
            push((got, Model([(a, data[a]) for a in labs])), op)
            if len(ent) >= 6:
                mon.count("shuffled-long")
        elif op == "ordered":
            push((wl.ordered(), Model(natural(ent))), op)
        elif op in ("add", "or", "or_dict"):
            other, om = rng.choice(objs)
            if op == "or_dict":
                got = wl | dict(om.data)
            elif op == "or":
                got = wl | other
            else:
                got = wl + other
            # own entries win
            push((got, Model(natural(list({**om.data, **data}.items())))), op)
        elif op == "sub":
            other, om = rng.choice(objs)
            push((wl - other, Model(natural([(a, q) for a, q in ent if a not in om.data]))), op)
        elif op == "sub_labels":
            labs = [a for a in data if rng.random() < 0.4] + draw_labels(rng, kind, 1)
            push((wl - rng.choice([list, set, tuple, iter])(labs), Model(natural([(a, q) for a, q in ent if a not in labs]))), op)
        elif op == "and":
            other, om = rng.choice(objs)
            push((wl & other, Model(natural([(a, q) for a, q in ent if a in om.data]))), op)
        elif op == "and_labels":
            labs = [a for a in data if rng.random() < 0.5] + draw_labels(rng, kind, 1)
            push((wl & rng.choice([list, set, tuple, iter])(labs), Model(natural([(a, q) for a, q in ent if a in labs]))), op)
        elif op == "pickle":
            got = pickle.loads(pickle.dumps(wl))
            mon.check(got.name == wl.name, "pickle:name", got.name)
            push((got, Model([(a, got[a]) for a, q in ent if got[a] == q])), op)
        elif op in ("copy", "deepcopy"):
            push((getattr(copy, op)(wl), model), op)
        elif op == "returned-list":
            for f in ("queries", "labels", "entries"):
                lst = getattr(wl, f)()
                if isinstance(lst, list):
                    lst.reverse()
                    del lst[:1]
            push((wl, model), op)
        elif op == "equality":
            other, om = rng.choice(objs)
            mon.check((wl == other) == (data == om.data), "equality", lambda: f"{trace[-5:]}")
            items = list(wl.items())
            mon.check(sorted(map(repr, (a for a, _ in items))) == sorted(map(repr, data)) and all(data[a] == q for a, q in items) and [wl.get(a) for a, _ in items] == [q for _, q in items],
                      "items", lambda: f"{trace[-5:]}")


OPS = ["build", "with_labels", "first", "last", "pick_random", "with_prefix", "filter_by", "relabel", "map", "transform", "shuffle", "shuffle", "ordered", "add", "or", "or_dict", "sub", "sub_labels",
       "and", "and_labels", "pickle", "copy", "deepcopy", "returned-list", "equality"]


def sel(got, model, keep):
    return order_of(got, [e for e in model.entries if keep(*e)])


def order_of(got, part):
    """A part of a shuffled workload may keep the shuffled order or be sorted again."""
    nat = natural(part)
    return Model(part if list(got.labels()) == [a for a, _ in part] else nat)


# ---------------------------------------------------------------- readers

BAD = ["SELEC * FROM users", "SELECT * FROM WHERE", "this is no query", "SELECT (1 FROM users", ")"]


def file_query(rng, enc):
    """Text of a query file and the literals that must survive."""
    lits = []
    parts = []
    for _ in range(rng.randint(0, 2)):
        lit = rng.choice(["abc", "two words", "line\nbreak", "a\n\nb", "tab\there", "Ünïcode" if enc != "ascii" else "plain", "it''s", "semi;colon", "-- dash"])
        lits.append(lit)
        parts.append(f"u1.name {rng.choice(['=', '<>'])} '{lit}'")
    parts.append(f"u1.id {rng.choice(['<', '>', '='])} {rng.randint(0, 99)}")
    rng.shuffle(parts)
    nl = rng.choice([" ", "\n", "\n  "])
    sql = f"SELECT {rng.choice(['*', 'COUNT(*)', 'u1.id'])}{nl}FROM users AS u1{nl}WHERE {(nl + 'AND ').join(parts)}"
    if rng.random() < 0.5:
        sql += ";"
    if rng.random() < 0.2:
        sql = "-- comment about the query\n" + sql
    if rng.random() < 0.2:
        sql += "\n"
    return sql, lits


def expect_query(mon, q, sql, lits, mech, what):
    want = parser.parse_query(sql, bind_columns=False)
    mon.check(q == want and str(q) == str(want), mech, lambda: f"{what}: {q}\nfor file {sql!r}")
    for lit in lits:
        mon.check(f"'{lit}'" in str(q), f"{mech}:literal", lambda: f"{what}: {lit!r} lost in {q}")


def read_dir(mon, rng):
    mon.count("dirs")
    enc = rng.choice(["utf-8", "utf-8", "latin-1", "utf-16"])
    root = pathlib.Path(mon.tmp) / f"wl{rng.randrange(1 << 40)}"
    root.mkdir()
    bad_rate = rng.choice([0, 0, 0.1, 0.5])
    files = {}       # relative label path -> (sql, lits) or None for malformed
    pattern = rng.choice(["*.sql", "*.sql", "q*.sql", "*.txt"])
    subdirs = [()]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        parent = rng.choice(subdirs)
        sub = parent + (rng.choice(["a", "b", "v1.0", "v1.1", "q-1", "sub dir", "7"]),)
        if sub not in subdirs:
            subdirs.append(sub)
    if len(subdirs) > 1:
        mon.count("nested")
    for sub in subdirs:
        d = root.joinpath(*sub)
        d.mkdir(exist_ok=True)
        for stem in rng.sample(["q1", "q2", "q10", "1a", "q-1-1", "q.v2", "other", "Q1"], rng.randint(0, 4)):
            ext = rng.choice([".sql", ".sql", ".txt"])
            f = d / (stem + ext)
            if rng.random() < bad_rate:
                mon.count("malformed")
                f.write_text(rng.choice(BAD), encoding=enc)
                content = None
            else:
                content = file_query(rng, enc)
                f.write_bytes(content[0].encode(enc))
            if f.match(pattern):
                files[sub + (stem,)] = content
    # same stem with a different extension is not read twice: the pattern fixes the extension
    mode = rng.choice(["raise", "warn", "ignore"])
    recurse = rng.random() < 0.5
    prefix = rng.choice(["", "", "wl-", "job/"])
    deprecated = not recurse and rng.random() < 0.5
    what = f"{root.name} {sorted(files)} bad={[k for k, v in files.items() if v is None]} mode={mode} recurse={recurse} prefix={prefix!r} enc={enc} pattern={pattern}"
    kw = dict(query_file_pattern=pattern, file_encoding=enc, on_error=mode)
    if rng.random() < 0.7:
        kw["bind_columns"] = False
    relevant = {k: v for k, v in files.items() if recurse or len(k) == 1}
    bad = [k for k, v in relevant.items() if v is None]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            if deprecated:
                wl = Workload.read(rng.choice([str, pathlib.Path])(root), name="n", label_prefix=prefix, **kw)
            else:
                wl = workloads.read_workload(rng.choice([str, pathlib.Path])(root), "n", query_label_prefix=prefix, recurse_subdirectories=recurse, **kw)
            err = None
        except ValueError as e:
            if not bad or mode != "raise":
                raise
            wl, err = None, e
    shutil.rmtree(root)
    if bad and mode == "raise":
        mon.count("raised-malformed")
        mon.check(err is not None, "malformed-not-raised", what)
        return
    if bad:
        mon.count("skipped-malformed")
        if mode == "warn":
            mon.check(sum(1 for w in caught if any("/".join(k) in str(w.message) for k in bad)) >= len(bad), "malformed-not-warned", lambda: f"{what}: {[str(w.message) for w in caught]}")
    good = {k: v for k, v in relevant.items() if v is not None}
    mon.eq(wl.name, "n", "read:name", what)
    by = {}
    for k in good:
        forms = {prefix + "/".join(k)}
        if len(k) > 1 and prefix:
            forms.add(prefix.rstrip("/") + "/" + "/".join(k))
        by[k] = forms
    labels = list(wl.labels())
    if not mon.check(len(labels) == len(good) and all(len(f & set(labels)) == 1 for f in by.values()), "read:labels", lambda: f"{what}: {labels}", key=("dir", mode, recurse, bool(prefix), bool(bad), min(len(good), 4))):
        return
    mon.check(labels == sorted(labels, key=natkey), "read:order", lambda: f"{what}: {labels}")
    for k, (sql, lits) in good.items():
        lab, = by[k] & set(labels)
        expect_query(mon, wl[lab], sql, lits, "read:query", f"{what} {lab}")


def one_line(rng, enc):
    while True:
        sql, lits = file_query(rng, enc)
        if "\n" not in sql.strip() and not sql.startswith("--"):
            return sql.strip(), lits


def read_batch(mon, rng):
    mon.count("batch")
    enc = rng.choice(["utf-8", "utf-8", "latin-1"])
    content, expected = [], []
    for _ in range(rng.randint(0, 6)):
        sql, lits = one_line(rng, enc)
        content.append(sql)
        expected.append((sql, lits))
        if rng.random() < 0.3:
            content.append(rng.choice(["", "  ", "\t"]))
        if rng.random() < 0.2:
            content.append(sql)
            expected.append((sql, lits))
    bad = rng.random() < 0.15
    if bad:
        content.insert(rng.randint(0, len(content)), rng.choice(BAD))
    text = "\n".join(content) + rng.choice(["", "\n", "\n\n"])
    f = pathlib.Path(mon.tmp) / f"b{rng.randrange(1 << 40)}.sql"
    f.write_bytes(text.encode(enc))
    what = f"{text!r} {enc}"
    name = rng.choice(["", "n"])
    if bad:
        mon.count("raised-malformed")
        mon.raises(lambda: workloads.read_batch_workload(str(f), name, file_encoding=enc), "batch:malformed", what)
        f.unlink()
        return
    wl = workloads.read_batch_workload(str(f), name, file_encoding=enc)
    f.unlink()
    mon.eq(wl.name, name or f.stem, "batch:name", what)
    if mon.eq(list(wl.labels()), list(range(1, len(expected) + 1)), "batch:labels", what, key=("batch", len(expected), enc)):
        for i, (sql, lits) in enumerate(expected):
            expect_query(mon, wl[i + 1], sql, lits, "batch:query", what)


def read_csv(mon, rng):
    mon.count("csv")
    enc = rng.choice(["utf-8", "utf-8", "latin-1"])
    n = rng.randint(1, 6)
    rows = [file_query(rng, enc) for _ in range(n)]
    if n > 1 and rng.random() < 0.4:
        rows[-1] = rows[0]
    qcol, lcol = rng.choice(["query", "sql text"]), rng.choice([None, "label", "id"])
    style = rng.choice(["str", "int", "zeros", "special"])
    labels = {"str": [f"q{i}{c}" for i in (1, 2, 10) for c in "ab"], "int": [str(i) for i in (1, 2, 3, 10, 11, 20)], "zeros": ["007", "08", "1", "0010", "11", "2"],
              "special": ["NA", "null", "1e5", "nan", "True", "1.50"]}[style]
    labels = rng.sample(labels, n)
    sep = rng.choice([",", ",", ";", "|"])
    cols = [qcol, "runtime"] + ([lcol] if lcol else [])
    rng.shuffle(cols)
    f = pathlib.Path(mon.tmp) / f"c{rng.randrange(1 << 40)}.csv"
    with open(f, "w", newline="", encoding=enc) as h:
        w = csv.writer(h, delimiter=sep)
        w.writerow(cols)
        for (sql, _), lab in zip(rows, labels):
            w.writerow([{qcol: sql, "runtime": "1.5"}.get(c, lab) for c in cols])
    what = f"{f.read_text(encoding=enc)!r} {enc} qcol={qcol} lcol={lcol}"
    kw = {}
    if sep != ",":
        kw["pd_args"] = {"sep": sep}
    if qcol != "query" or rng.random() < 0.5:
        kw["query_column"] = qcol
    wl = workloads.read_csv_workload(f, label_column=lcol, file_encoding=enc, **kw)
    f.unlink()
    mon.eq(wl.name, f.stem, "csv:name", what)
    want = labels if lcol else list(range(1, n + 1))
    if mon.check(sorted(map(repr, wl.labels())) == sorted(map(repr, want)), "csv:labels", lambda: f"{what}: {wl.labels()}", key=("csv", style if lcol else "auto", enc, sep)):
        for lab, (sql, lits) in zip(want, rows):
            expect_query(mon, wl[lab], sql, lits, "csv:query", what)


def fetch(mon, rng):
    """Pre-defined workloads are read from the local cache directory."""
    mon.count("fetch")
    base = pathlib.Path(mon.tmp) / f"pb{rng.randrange(1 << 40)}"
    names = {"job": "JOB", "imdb": "JOB", "job-light": "JOB-light", "joblight": "JOB-light", "job-complex": "JOB-complex", "jobcomplex": "JOB-complex", "stats": "Stats", "stack": "Stack", "ssb": "SSB"}
    dirs = {"imdb": "job", "joblight": "job-light", "jobcomplex": "job-complex"}
    key = rng.choice(list(names))
    contents = {}
    for d in ("job", "job-light", "job-complex", "stats", "stack", "ssb"):
        (base / "workloads" / d).mkdir(parents=True)
        contents[d] = {}
        for stem in rng.sample(["1a", "1b", "2a", "10a", "q1-1"], rng.randint(1, 4)):
            sub = ("s" + stem[:1],) if d == "stack" else ()
            p = (base / "workloads" / d).joinpath(*sub)
            p.mkdir(exist_ok=True)
            contents[d]["/".join(sub + (stem,))] = e = file_query(rng, "utf-8")
            (p / f"{stem}.sql").write_text(e[0])
    old = workloads.pbdir
    workloads.pbdir = base
    try:
        wl = workloads.fetch_workload(key)
        empty = base / "workloads" / "job"
        for f in empty.glob("*.sql"):
            f.unlink()
        mon.raises(lambda: workloads.job(), "fetch:empty", key, exc=ValueError)
        mon.raises(lambda: workloads.fetch_workload("nothing"), "fetch:unknown", key, exc=ValueError)
    finally:
        workloads.pbdir = old
        shutil.rmtree(base)
    want = contents[dirs.get(key, key)]
    mon.eq(wl.name, names[key], "fetch:name", key)
    if mon.eq(list(wl.labels()), sorted(want, key=natkey), "fetch:labels", key, key=("fetch", key)):
        for lab, (sql, lits) in want.items():
            expect_query(mon, wl[lab], sql, lits, "fetch:query", f"{key} {lab}")


SCENARIOS = [Scenario(history, quick=1200, thorough=12000), Scenario(read_dir, quick=700, thorough=6000), Scenario(read_batch, quick=300, thorough=2500), Scenario(read_csv, quick=300, thorough=2500),
             Scenario(fetch, quick=60, thorough=400)]
