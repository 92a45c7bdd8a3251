"""Random generator for SELECT statements in the common subset of pglast's grammar, PostBOUND and DuckDB."""
from __future__ import annotations

import random

from lib.db import SCHEMA, TEXTS, q


class Opts:
    def __init__(self, **kw):
        self.subqueries = True
        self.correlated = True
        self.explicit_joins = True
        self.outer_joins = True
        self.nested_joins = True
        self.aggregates = True
        self.windows = True
        self.setops = True
        self.ctes = True
        self.values = True
        self.lateral = True
        self.from_subqueries = True
        self.order = True
        self.limit = True
        self.distinct = True
        self.case = True
        self.casts = True
        self.odd_names = True
        self.unqualified = True
        self.quantifiers = True
        self.bare_bool = True
        self.arrays = True
        self.max_tables = 4
        self.depth = 3
        self.no_alias_prob = 0.3
        self.star = True
        self.literals = "full"      # "plain": no odd strings
        self.select_exprs = True
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Rel:
    """A relation in scope: name used to qualify, columns with types."""

    def __init__(self, name, cols, base=None):
        self.name, self.cols, self.base = name, dict(cols), base


class Scope:
    def __init__(self, parent=None):
        self.rels: list[Rel] = []
        self.parent = parent
        self.ctes: dict[str, list] = dict(parent.ctes) if parent else {}


class Query:
    def __init__(self, sql, cols, ordered=False):
        self.sql, self.cols, self.ordered = sql, cols, ordered


class Gen:
    def __init__(self, rng: random.Random, opts: Opts | None = None, schema=SCHEMA):
        self.rng = rng
        self.o = opts or Opts()
        self.schema = schema
        self.features: set[str] = set()
        self._n = 0

    # ---- helpers ----
    def fresh(self, prefix):
        self._n += 1
        return f"{prefix}{self._n}"

    def p(self, x):
        return self.rng.random() < x

    def feat(self, *names):
        self.features.update(names)

    # ---- scalars ----
    def colref(self, scope: Scope, typ, outer_ok=True):
        cands = [(r, c) for r in scope.rels for c, t in r.cols.items() if t == typ]
        if outer_ok and self.o.correlated and scope.parent is not None and (not cands or self.p(0.25)):
            local_names = {r.name for r in scope.rels}
            s = scope.parent
            oc = []
            while s is not None:
                oc += [(r, c) for r in s.rels for c, t in r.cols.items() if t == typ and r.name not in local_names]
                local_names |= {r.name for r in s.rels}
                s = s.parent
            if oc:
                self.feat("correlated")
                r, c = self.rng.choice(oc)
                if self.o.unqualified and self.p(0.3):
                    s = scope
                    while s is not None and not any(c in x.cols for x in s.rels):
                        s = s.parent
                    if s is not None and [x for x in s.rels if c in x.cols] == [r]:
                        self.feat("unqualified-outer")
                        return q(c)
                return f"{q(r.name)}.{q(c)}"
        if not cands:
            return None
        r, c = self.rng.choice(cands)
        if self.o.unqualified and self.p(0.2):
            if sum(1 for x in scope.rels if c in x.cols) == 1:
                self.feat("unqualified")
                return q(c)
        return f"{q(r.name)}.{q(c)}"

    def const(self, typ):
        r = self.rng
        if typ == "int":
            v = r.choice([0, 1, 2, 3, 4, 5, 6, -1, -2, 10])
            return f"({v})" if v < 0 and self.p(0.5) else str(v)
        if typ == "num":
            return r.choice(["0.5", "1.25", "2.75", "3.0", "0.0", "-1.5", "10.5"])
        if typ == "text":
            pool = TEXTS if self.o.literals == "full" else ["a", "b", "ab", "abc"]
            return "'" + r.choice(pool).replace("'", "''") + "'"
        if typ == "bool":
            return r.choice(["TRUE", "FALSE"])
        if typ == "date":
            d = f"'2020-01-0{r.randint(1, 7)}'"
            return r.choice([f"CAST({d} AS date)", f"{d}::date", f"date {d}"]) if self.o.casts else d
        raise ValueError(typ)

    def atom(self, typ, scope):
        if self.p(0.75):
            c = self.colref(scope, typ)
            if c:
                return c
        return self.const(typ)

    def expr(self, typ, scope, d):
        """Scalar expression of the given type."""
        if typ == "bool":
            return self.pred(scope, d) if self.p(0.5) else self.atom("bool", scope)
        if d <= 0 or not self.o.select_exprs or self.p(0.35):
            return self.atom(typ, scope)
        opts = []
        if self.o.case:
            opts += ["case", "simplecase", "coalesce"]
        if self.o.subqueries:
            opts += ["scalar"]
        if typ in ("int", "num"):
            opts += ["arith"] * 4 + ["neg", "abs"]
        if typ == "int":
            opts += ["length", "mod"]
        if typ == "text":
            opts += ["lower", "concat", "concat", "substr"]
        if self.o.casts:
            opts += ["cast"]
        k = self.rng.choice(opts)
        e = lambda t=typ: self.expr(t, scope, d - 1)
        self.feat("expr:" + k)
        if k == "case":
            n = self.rng.randint(1, 2)
            s = "CASE " + " ".join(f"WHEN {self.pred(scope, d - 1)} THEN {e()}" for _ in range(n))
            return s + (f" ELSE {e()}" if self.p(0.7) else "") + " END"
        if k == "simplecase":
            t = self.rng.choice(["int", "text"])
            s = f"CASE {self.paren(e(t))} " + " ".join(f"WHEN {self.const(t)} THEN {e()}" for _ in range(self.rng.randint(1, 2)))
            return s + (f" ELSE {e()}" if self.p(0.7) else "") + " END"
        if k == "coalesce":
            return f"COALESCE({', '.join(e() for _ in range(self.rng.randint(1, 3)))})"
        if k == "scalar":
            return self.scalar_subquery(typ, scope, d - 1)
        if k == "arith":
            ops = ["+", "-", "*"] + (["/"] if typ == "num" else [])
            l, r = e(), e(self.rng.choice(["int", "num"]) if typ == "num" else "int")
            l = self.paren(l) if self.p(0.5) else l
            r = self.paren(r) if self.p(0.5) or r.startswith("-") else r
            return f"{l} {self.rng.choice(ops)} {r}"
        if k == "neg":
            return f"-{self.paren(e())}"
        if k == "abs":
            return f"abs({e()})"
        if k == "length":
            return f"length({e('text')})"
        if k == "mod":
            return f"{self.paren(e())} % {self.rng.choice([2, 3, 5])}"
        if k == "lower":
            return f"{self.rng.choice(['lower', 'upper'])}({e()})"
        if k == "concat":
            l, r = e(), e()
            l = self.paren(l) if self.p(0.3) else l
            r = self.paren(r) if self.p(0.3) else r
            return f"{l} || {r}"
        if k == "substr":
            return f"substr({e()}, {self.rng.randint(1, 2)}, {self.rng.randint(1, 3)})"
        if k == "cast":
            if typ == "int":
                src, ty = e(self.rng.choice(["int", "bool"])), self.rng.choice(["integer", "bigint", "int"])
            elif typ == "num":
                src, ty = e(self.rng.choice(["int", "num"])), self.rng.choice(["double precision", "decimal(10, 2)", "float8"])
            elif typ == "text":
                src, ty = e(self.rng.choice(["int", "text", "date"])), self.rng.choice(["text", "varchar", "varchar(20)"])
            else:
                src, ty = e(), "date"
            return f"CAST({src} AS {ty})" if self.p(0.5) else f"({src})::{ty}"
        raise AssertionError(k)

    def paren(self, s):
        return f"({s})"

    def scalar_subquery(self, typ, scope, d):
        self.feat("scalar-subquery")
        inner = Scope(scope)
        frm, cond = self.from_clause(inner, 2, d)
        agg = {"int": ["max", "min", "count"], "num": ["max", "min"], "text": ["max", "min"], "date": ["max", "min"],
               "bool": ["max"]}[typ]
        a = self.rng.choice(agg)
        arg = "*" if a == "count" and self.p(0.5) else (self.colref(inner, typ, outer_ok=False) or self.const(typ))
        where = self.where(inner, d, cond)
        return f"(SELECT {a}({arg}) FROM {frm}{where})"

    def cmp(self, scope, d, typ=None):
        typ = typ or self.rng.choice(["int", "int", "int", "num", "text", "date"])
        op = self.rng.choice(["=", "=", "<>", "<", "<=", ">", ">=", "!="])
        l = self.expr(typ, scope, d - 1)
        r = self.expr(typ, scope, d - 1) if self.p(0.4) else self.const(typ)
        return f"{l} {op} {r}"

    def pred(self, scope, d):
        r = self.rng
        if d <= 0:
            return self.cmp(scope, 0)
        kinds = ["cmp"] * 5 + ["between", "in", "in", "null", "null", "and", "or", "or", "not", "like"]
        if self.o.subqueries:
            kinds += ["exists", "insub", "insub"]
            if self.o.quantifiers:
                kinds += ["quant"]
        if self.o.bare_bool:
            kinds += ["boolcol", "distinct"]
        if self.o.arrays:
            kinds += ["anyarray"]
        k = r.choice(kinds)
        self.feat("pred:" + k)
        if k == "cmp":
            return self.cmp(scope, d)
        if k == "between":
            t = r.choice(["int", "num", "date", "text"])
            return f"{self.expr(t, scope, d - 1)} BETWEEN {self.const(t)} AND {self.expr(t, scope, d - 2)}"
        if k == "in":
            t = r.choice(["int", "text", "int", "date"])
            n = r.randint(1, 4)
            vals = ", ".join(self.const(t) if self.p(0.85) else self.expr(t, scope, d - 2) for _ in range(n))
            return f"{self.expr(t, scope, d - 1)} {r.choice(['IN', 'IN', 'NOT IN'])} ({vals})"
        if k == "null":
            t = r.choice(["int", "text", "num"])
            e = self.expr(t, scope, d - 2)
            return f"{self.paren(e) if ' ' in e else e} IS {r.choice(['', 'NOT '])}NULL"
        if k in ("and", "or"):
            n = r.randint(2, 3)
            parts = [self.pred(scope, d - 1) for _ in range(n)]
            return f" {k.upper()} ".join(f"({x})" for x in parts)
        if k == "not":
            return f"NOT ({self.pred(scope, d - 1)})"
        if k == "like":
            op = r.choice(["LIKE", "NOT LIKE", "ILIKE", "NOT ILIKE"])
            pat = r.choice(["a%", "%b", "_", "%", "A_", "%''%", "x%y", "50\\%"])
            if pat == "50\\%":
                pat = "50%"
            return f"{self.expr('text', scope, d - 2)} {op} '{pat}'"
        if k == "exists":
            inner = Scope(scope)
            frm, cond = self.from_clause(inner, 2, d - 1)
            where = self.where(inner, d - 1, cond)
            sel = r.choice(["1", "*"])
            return f"{r.choice(['', 'NOT '])}EXISTS (SELECT {sel} FROM {frm}{where})"
        if k == "insub":
            t = r.choice(["int", "text"])
            inner = Scope(scope)
            frm, cond = self.from_clause(inner, 2, d - 1)
            col = self.colref(inner, t, outer_ok=False) or self.const(t)
            where = self.where(inner, d - 1, cond)
            return f"{self.expr(t, scope, d - 2)} {r.choice(['IN', 'NOT IN'])} (SELECT {col} FROM {frm}{where})"
        if k == "quant":
            inner = Scope(scope)
            frm, cond = self.from_clause(inner, 1, 0)
            col = self.colref(inner, "int", outer_ok=False) or "1"
            where = self.where(inner, 1, cond)
            return f"{self.expr('int', scope, d - 2)} {r.choice(['=', '<', '>=', '<>'])} {r.choice(['ANY', 'ALL'])} (SELECT {col} FROM {frm}{where})"
        if k == "boolcol":
            return self.atom("bool", scope)
        if k == "distinct":
            t = r.choice(["int", "text"])
            return f"{self.expr(t, scope, d - 2)} IS {r.choice(['', 'NOT '])}DISTINCT FROM {self.atom(t, scope)}"
        if k == "anyarray":
            return f"{self.expr('int', scope, d - 2)} = ANY (ARRAY[{', '.join(self.const('int') for _ in range(r.randint(1, 3)))}])"
        raise AssertionError(k)

    # ---- FROM ----
    def base_table(self, scope: Scope):
        names = [t for t in self.schema if self.o.odd_names or t.islower()]
        if scope.ctes and self.p(0.4):
            cte = self.rng.choice(sorted(scope.ctes))
            used = {r.name for r in scope.rels}
            self.feat("cte-ref")
            if cte not in used and self.p(0.5):
                return q(cte), Rel(cte, scope.ctes[cte])
            a = self.fresh("c")
            return f"{q(cte)} {self.rng.choice(['', 'AS '])}{a}", Rel(a, scope.ctes[cte])
        t = self.rng.choice(names)
        used = {r.name for r in scope.rels}
        s = scope.parent
        shadow = set()
        while s is not None:
            shadow |= {r.name for r in s.rels}
            s = s.parent
        if t not in used and t not in shadow and t not in scope.ctes and self.p(self.o.no_alias_prob):
            return q(t), Rel(t, self.schema[t]["cols"], base=t)
        a = self.fresh(t[0].lower())
        if self.o.odd_names and self.p(0.05):
            a = a.upper()
        return f"{q(t)} {self.rng.choice(['', 'AS '])}{q(a)}", Rel(a, self.schema[t]["cols"], base=t)

    def source(self, scope: Scope, d):
        r = self.rng
        x = r.random()
        if self.o.from_subqueries and self.o.subqueries and d > 0 and x < 0.12:
            lateral = self.o.lateral and scope.rels and self.p(0.4)
            if lateral:
                self.feat("lateral")
                inner_parent = scope
            else:
                inner_parent = Scope()
                inner_parent.ctes = scope.ctes
            sub = self.select(inner_parent, d - 1, named=True, allow_order=False)
            a = self.fresh("sq")
            self.feat("from-subquery")
            return f"{'LATERAL ' if lateral else ''}({sub.sql}) AS {a}", Rel(a, sub.cols)
        if self.o.values and x > 0.95:
            a = self.fresh("v")
            self.feat("values")
            rows = ", ".join(f"({self.const('int')}, {self.const('text')})" for _ in range(r.randint(1, 3)))
            c1, c2 = self.fresh("x"), self.fresh("y")
            return f"(VALUES {rows}) AS {a} ({c1}, {c2})", Rel(a, [(c1, "int"), (c2, "text")])
        return self.base_table(scope)

    def join_cond(self, left: list[Rel], right: list[Rel], scope, d):
        conds = []
        for _ in range(1 if self.p(0.8) else 2):
            t = self.rng.choice(["int", "int", "int", "text", "date"])
            lc = [(r, c) for r in left for c, ty in r.cols.items() if ty == t]
            rc = [(r, c) for r in right for c, ty in r.cols.items() if ty == t]
            if not lc or not rc:
                continue
            (a, b), (x, y) = self.rng.choice(lc), self.rng.choice(rc)
            op = "=" if self.p(0.85) else self.rng.choice(["<", ">=", "<>"])
            one, two = f"{q(a.name)}.{q(b)}", f"{q(x.name)}.{q(y)}"
            if self.p(0.5):
                one, two = two, one
            conds.append(f"{one} {op} {two}")
        if not conds:
            return "TRUE" if self.o.bare_bool else "1 = 1"
        if self.p(0.15):
            tmp = Scope()
            tmp.rels = left + right
            tmp.ctes = scope.ctes
            conds.append(self.pred(tmp, 1))
        return " AND ".join(conds)

    def from_clause(self, scope: Scope, max_tables, d):
        """Returns (text, list of join conditions still to be placed into WHERE)."""
        n = self.rng.randint(1, max_tables)
        conds: list[str] = []
        if self.o.explicit_joins and n > 1 and self.p(0.45):
            self.feat("explicit-join")
            txt, rels = self.join_tree(scope, n, d)
            if self.p(0.2):
                self.feat("mixed-from")
                t2, r2 = self.source(scope, d)
                scope.rels.append(r2)
                conds.append(self.join_cond(rels, [r2], scope, d))
                txt = f"{txt}, {t2}" if self.p(0.5) or t2.startswith("LATERAL") else f"{t2}, {txt}"
            return txt, conds
        parts = []
        for i in range(n):
            t, rel = self.source(scope, d)
            if scope.rels and self.p(0.9):
                conds.append(self.join_cond([self.rng.choice(scope.rels)], [rel], scope, d))
            scope.rels.append(rel)
            parts.append(t)
        return ", ".join(parts), conds

    def join_tree(self, scope: Scope, n, d):
        """Adds relations to the scope (left to right); nested joins on either side."""
        if n == 1:
            t, rel = self.source(scope, d)
            scope.rels.append(rel)
            return t, [rel]
        k = n - 1 if not self.o.nested_joins or self.p(0.7) else self.rng.randint(1, n - 1)
        # LATERAL inside the right side of outer joins is restricted: disable there
        lt, lrels = self.join_tree(scope, k, d)
        jt = self.rng.choice(["JOIN", "INNER JOIN", "JOIN"] + (["LEFT JOIN", "RIGHT JOIN", "FULL OUTER JOIN", "LEFT OUTER JOIN"] if self.o.outer_joins else []) + ["CROSS JOIN"])
        save = self.o.lateral
        self.o.lateral = False
        rt, rrels = self.join_tree(scope, n - k, d)
        self.o.lateral = save
        if n - k > 1:
            rt = f"({rt})"
            self.feat("right-nested-join")
        if k > 1 and self.p(0.3):
            lt = f"({lt})"
        self.feat("join:" + jt)
        if jt == "CROSS JOIN":
            return f"{lt} CROSS JOIN {rt}", lrels + rrels
        if "FULL" in jt or "RIGHT" in jt:
            cond = self.simple_eq(lrels, rrels)
        else:
            cond = self.join_cond(lrels, rrels, scope, d)
        return f"{lt} {jt} {rt} ON {cond}", lrels + rrels

    def simple_eq(self, left, right):
        for t in ("int", "text", "date", "num"):
            lc = [(r, c) for r in left for c, ty in r.cols.items() if ty == t]
            rc = [(r, c) for r in right for c, ty in r.cols.items() if ty == t]
            if lc and rc:
                (a, b), (x, y) = self.rng.choice(lc), self.rng.choice(rc)
                return f"{q(a.name)}.{q(b)} = {q(x.name)}.{q(y)}"
        return "1 = 1"

    def where(self, scope, d, conds):
        conds = list(conds)
        for _ in range(self.rng.choice([0, 1, 1, 2])):
            p = self.pred(scope, d)
            conds.append(f"({p})" if " OR " in p or " AND " in p or self.p(0.1) else p)
        self.rng.shuffle(conds)
        return f" WHERE {' AND '.join(conds)}" if conds else ""

    # ---- SELECT ----
    def select(self, parent: Scope | None, d, named=False, allow_order=True, setop_ok=True, ctes_ok=True, ncols=None, types=None, allow_distinct_on=False):
        """named: every output column gets a unique alias (usable from outside)."""
        r = self.rng
        scope = Scope(parent)
        with_txt = ""
        if self.o.ctes and ctes_ok and d > 1 and self.p(0.15):
            with_txt = self.with_clause(scope, d - 1)
        if self.o.setops and setop_ok and d > 1 and self.p(0.1 if types is None else 0.05):
            return self.setop(scope, d, with_txt, named, allow_order, types)
        frm, conds = self.from_clause(scope, self.o.max_tables if d >= self.o.depth else 2, d - 1)
        where = self.where(scope, d, conds)
        group = having = ""
        outs: list[tuple[str, str, str]] = []   # (expr, type, alias)
        star = False
        agg = self.o.aggregates and self.p(0.3)
        distinct = ""
        tl = types or [r.choice(["int", "int", "text", "num", "date", "bool"]) for _ in range(ncols or r.randint(1, 4))]
        if agg:
            self.feat("aggregate")
            gexprs = []
            for _ in range(r.choice([0, 1, 1, 2])):
                t = r.choice(["int", "text", "date"])
                c = self.colref(scope, t, outer_ok=False) if self.p(0.85) else self.simple_gexpr(scope, t)
                if c:
                    gexprs.append((c, t))
            for t in tl:
                g = [e for e, ty in gexprs if ty == t]
                if g and self.p(0.6):
                    outs.append((r.choice(g), t, ""))
                else:
                    outs.append((self.aggregate(t, scope, d), t, ""))
            if gexprs:
                self.feat("group-by")
                group = " GROUP BY " + ", ".join(e for e, _ in gexprs)
            if self.p(0.3) and (gexprs or self.p(0.5)):
                self.feat("having")
                having = f" HAVING {self.aggregate('int', scope, d)} {r.choice(['>', '<>', '<='])} {self.const('int')}"
                if gexprs and self.p(0.3):
                    having += f" AND {gexprs[0][0]} IS NOT NULL"
        elif self.o.star and types is None and not named and self.p(0.15):
            star = True
            self.feat("star")
            cols = []
            for rel in scope.rels:
                cols += [(c, t) for c, t in rel.cols.items()]
            if self.p(0.3):
                rel = r.choice(scope.rels)
                self.feat("qualified-star")
                outs = [(f"{q(rel.name)}.*", "star", "")]
                cols = list(rel.cols.items())
            else:
                outs = [("*", "star", "")]
        else:
            for t in tl:
                if self.o.windows and t in ("int", "num") and self.p(0.08):
                    outs.append((self.window(t, scope), t, ""))
                else:
                    outs.append((self.expr(t, scope, d - 1), t, ""))
            if self.o.distinct and self.p(0.15):
                distinct = "DISTINCT "
                self.feat("distinct")
        if not star:
            named_outs = []
            for e, t, _ in outs:
                alias = self.fresh("o") if (named or self.p(0.4)) else ""
                if alias and self.o.odd_names and self.p(0.05):
                    alias = alias.upper() + " x"
                named_outs.append((e, t, alias))
            outs = named_outs
            cols = [(a, t) for _, t, a in outs]
        txt_outs = ", ".join(e + (f" AS {q(a)}" if a else "") for e, _, a in outs)
        order = limit = ""
        ordered = False
        if self.o.order and allow_order and not star and self.p(0.4):
            ords = list(range(1, len(outs) + 1))
            r.shuffle(ords)
            keys = []
            self.feat("order-by")
            if not agg and not distinct and self.p(0.3):
                keys.append(self.expr(r.choice(["int", "text"]), scope, 1) )
                if keys[-1].lstrip("-(").split(".")[0].isdigit() or keys[-1].startswith("'") or "(SELECT" in keys[-1]:
                    keys.pop()   # constants would be positional
            if self.o.distinct and allow_distinct_on and not agg and not distinct and self.p(0.2):
                c = self.colref(scope, "int", outer_ok=False)
                if c:
                    distinct = f"DISTINCT ON ({c}) "
                    self.feat("distinct-on")
                    keys = [c]
            used = set()
            for o in ords:
                a = outs[o - 1][2]
                keys.append(q(a) if a and self.p(0.5) else str(o))
            keys = [k + r.choice(["", " ASC", " DESC"]) + r.choice(["", "", " NULLS FIRST", " NULLS LAST"]) for k in keys]
            order = " ORDER BY " + ", ".join(keys)
            ordered = True
            if self.o.limit and self.p(0.4):
                self.feat("limit")
                limit = f" LIMIT {r.randint(0 if self.o.limit == 'zero' else 1, 5)}"
                if self.p(0.3):
                    limit += f" OFFSET {r.randint(0, 3)}"
            elif self.o.limit and self.p(0.1):
                limit = f" OFFSET {r.randint(0, 3)}"
        sql = f"{with_txt}SELECT {distinct}{txt_outs} FROM {frm}{where}{group}{having}{order}{limit}"
        return Query(sql, cols, ordered)

    def simple_gexpr(self, scope, t):
        c = self.colref(scope, t, outer_ok=False)
        if not c:
            return None
        if t == "int":
            return f"{c} + 1"
        if t == "text":
            return f"upper({c})"
        return c

    def aggregate(self, t, scope, d):
        r = self.rng
        flt = ""
        if self.p(0.12):
            self.feat("agg-filter")
            flt = f" FILTER (WHERE {self.cmp(scope, 1, 'int')})"
        dist = "DISTINCT " if self.p(0.2) else ""
        if t == "int":
            if self.p(0.4):
                return f"count(*){flt}"
            a = self.expr("int", scope, 1 if d > 0 else 0)
            return f"{r.choice(['count', 'sum', 'min', 'max'])}({dist}{a}){flt}"
        if t == "bool":
            return f"count(*) > {self.const('int')}"
        a = self.expr(t, scope, 1 if d > 0 else 0)
        fn = r.choice(["min", "max"] + (["sum", "avg"] if t == "num" else []))
        return f"{fn}({dist}{a}){flt}"

    def window(self, t, scope):
        self.feat("window")
        r = self.rng
        c = self.colref(scope, t, outer_ok=False) or self.const(t)
        part = self.colref(scope, r.choice(["int", "text"]), outer_ok=False)
        oc = self.colref(scope, "int", outer_ok=False) or self.colref(scope, "text", outer_ok=False)
        spec = []
        if part and self.p(0.6):
            spec.append(f"PARTITION BY {part}")
        has_order = oc and self.p(0.6)
        if has_order:
            spec.append(f"ORDER BY {oc}{r.choice(['', ' DESC', ' ASC NULLS FIRST'])}")
        if t == "int" and has_order and self.p(0.5):
            fn = r.choice(["rank()", "dense_rank()"])
        else:
            fn = f"{r.choice(['sum', 'min', 'max', 'count'])}({c})"
            if self.p(0.2):
                fn += f" FILTER (WHERE {self.cmp(scope, 1, 'int')})"
        return f"{fn} OVER ({' '.join(spec)})"

    def with_clause(self, scope: Scope, d):
        parts = []
        self.feat("cte")
        rec = ""
        n = self.rng.randint(1, 2)
        pending = {}
        for _ in range(n):
            name = self.fresh("cte")
            mat = self.rng.choice(["", "", "", "MATERIALIZED ", "NOT MATERIALIZED "])
            x = self.rng.random()
            s = Scope()
            s.ctes = dict(scope.ctes)
            if self.o.values and x < 0.1 :
                self.feat("values-cte")
                rows = ", ".join(f"({self.const('int')}, {self.const('text')})" for _ in range(self.rng.randint(1, 3)))
                c1, c2 = self.fresh("x"), self.fresh("y")
                parts.append(f"{name} ({c1}, {c2}) AS {mat}(VALUES {rows})")
                scope.ctes[name] = [(c1, "int"), (c2, "text")]
                continue
            if x < 0.18:
                self.feat("recursive-cte")
                rec = "RECURSIVE "
                parts.append(f"{name} AS (SELECT 1 AS n_{name} UNION ALL SELECT {name}.n_{name} + 1 FROM {name} WHERE {name}.n_{name} < {self.rng.randint(2, 5)})")
                scope.ctes[name] = [(f"n_{name}", "int")]
                continue
            sub = self.select(s, d - 1, named=True, allow_order=False)
            if mat:
                self.feat("materialized")
            parts.append(f"{name} AS {mat}({sub.sql})")
            scope.ctes[name] = sub.cols
        return f"WITH {rec}{', '.join(parts)} "

    def setop(self, scope, d, with_txt, named, allow_order, types):
        r = self.rng
        types = types or [r.choice(["int", "text", "num", "date"]) for _ in range(r.randint(1, 3))]
        op = r.choice(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"])
        self.feat("setop:" + op)
        p = Scope(scope.parent)
        p.ctes = scope.ctes
        a = self.select(p, d - 1, named=True, allow_order=False, types=types, ctes_ok=False)
        b = self.select(p, d - 1, named=True, allow_order=False, types=types, ctes_ok=False)
        order = limit = ""
        ordered = False
        if allow_order and self.o.order and self.p(0.5):
            ords = [str(i + 1) for i in range(len(types))]
            r.shuffle(ords)
            order = " ORDER BY " + ", ".join(o + r.choice(["", " DESC", " DESC NULLS LAST"]) for o in ords)
            ordered = True
            if self.o.limit and self.p(0.4):
                limit = f" LIMIT {r.randint(1, 5)}"
                if self.p(0.3):
                    limit += f" OFFSET {r.randint(1, 3)}"
        if self.p(0.6):
            sql = f"{with_txt}({a.sql}) {op} ({b.sql}){order}{limit}"
        else:
            sql = f"{with_txt}{a.sql} {op} {b.sql}{order}{limit}"
            if " UNION " in b.sql or " INTERSECT " in b.sql or " EXCEPT " in b.sql or " INTERSECT " in a.sql or " UNION " in a.sql or " EXCEPT " in a.sql or "WITH " in a.sql[:5] or "WITH " in b.sql[:5]:
                sql = f"{with_txt}({a.sql}) {op} ({b.sql}){order}{limit}"
        return Query(sql, a.cols, ordered)

    def query(self, **kw):
        kw.setdefault("allow_distinct_on", True)
        return self.select(None, self.o.depth, **kw)


def spj(rng: random.Random, schema=SCHEMA, n_tables=None, equi=True, connected=True, filters=True, aliases=True,
        tables=None, select="count"):
    """A plain implicit select-project-join query; returns (sql, tables [(name, alias)], join preds, filter preds)."""
    g = Gen(rng, Opts(subqueries=False, case=False, casts=False, bare_bool=False, arrays=False, odd_names=False,
                      unqualified=False, literals="plain", select_exprs=False), schema)
    names = [t for t in schema if t.islower()]
    n = n_tables or rng.randint(1, 4)
    tabs, rels = [], []
    for i in range(n):
        t = rng.choice(names if tables is None else tables)
        a = g.fresh(t[0]) if aliases or t in [x for x, _ in tabs] else ""
        tabs.append((t, a))
        rels.append(Rel(a or t, schema[t]["cols"], base=t))
    joins = []
    for i in range(1, n):
        if not connected and rng.random() < 0.3:
            continue
        k = rng.randrange(i)
        joins.append(_eq(rng, rels[k], rels[i]))
    while n > 2 and rng.random() < 0.3:
        a, b = rng.sample(range(n), 2)
        joins.append(_eq(rng, rels[a], rels[b]))
    joins = list(dict.fromkeys(joins))
    flt = []
    if filters:
        for rel in rels:
            while rng.random() < 0.4:
                s = Scope()
                s.rels = [rel]
                flt.append(g.cmp(s, 0))
    frm = ", ".join(f"{t} AS {a}" if a else t for t, a in tabs)
    conds = joins + flt
    rng.shuffle(conds)
    sel = "count(*)" if select == "count" else "*"
    sql = f"SELECT {sel} FROM {frm}" + (f" WHERE {' AND '.join(conds)}" if conds else "")
    return sql, tabs, joins, flt


def _eq(rng, a: Rel, b: Rel):
    ac = [c for c, t in a.cols.items() if t == "int"]
    bc = [c for c, t in b.cols.items() if t == "int"]
    x, y = f"{a.name}.{rng.choice(ac)}", f"{b.name}.{rng.choice(bc)}"
    return f"{x} = {y}" if rng.random() < 0.5 else f"{y} = {x}"


def wide(rng: random.Random, schema=SCHEMA, n_tables=None, tables=None):
    """An implicit query whose conjuncts relate two or more of its tables in every way: computed sides, inequalities, ranges, lists and disjunctions."""
    names = [t for t in schema if t.islower()] if tables is None else tables
    n = n_tables or rng.randint(2, 4)
    rels = [(rng.choice(names), f"w{i}") for i in range(n)]

    def col(i):
        t, a = rels[i]
        return f"{a}.{rng.choice([c for c, k in schema[t]['cols'] if k == 'int'] if isinstance(schema[t]['cols'], list) else [c for c, k in schema[t]['cols'].items() if k == 'int'])}"

    def side(ids):
        if len(ids) == 2:
            return f"{col(ids[0])} {rng.choice('+-*')} {col(ids[1])}"
        c = col(ids[0])
        return rng.choice([c, c, c, f"{c} + {rng.randint(1, 5)}", f"{rng.randint(2, 3)} * {c}", f"abs({c})"])

    def atom(ids):
        ids = list(ids)
        rng.shuffle(ids)
        kind = rng.randrange(8)
        if len(ids) == 1:
            c = col(ids[0])
            return rng.choice([f"{c} = {rng.randint(0, 9)}", f"{c} IS NOT NULL", f"{c} IN (1, 2)", f"{c} BETWEEN 1 AND {rng.randint(2, 9)}", f"{c} < {col(ids[0])}"])
        if kind == 0:
            rest = (ids + ids)[1:3] if len(ids) > 2 else [ids[1], ids[1]]
            return f"{side(ids[:1])} BETWEEN {side(rest[:1])} AND {side(rest[1:])}"
        if kind == 1:
            return f"{col(ids[0])} IN ({', '.join(sorted(col(i) for i in ids[1:]) + [str(rng.randint(0, 9))] * rng.randint(0, 1))})"
        op = "=" if kind < 6 else rng.choice(["<", "<>", ">="])
        if len(ids) > 2:
            return f"{side(ids[:1])} {op} {side(ids[1:3])}" if rng.random() < 0.5 else f"{side(ids[:2])} {op} {side(ids[2:])}"
        return f"{side(ids[:1])} {op} {side(ids[1:])}"

    def cond(ids):
        x = rng.random()
        if x < 0.7:
            return atom(ids)
        if x < 0.9:
            return "(" + " OR ".join(atom(rng.sample(ids, rng.randint(1, len(ids)))) for _ in range(rng.randint(1, 2)) ) + f" OR {atom(ids)})"
        return f"NOT ({atom(ids)})" if x < 0.95 else f"({atom(ids)} OR ({atom(ids)} AND {atom(ids[:1])}))"

    conds = [cond(rng.sample(range(n), min(n, rng.choice([1, 2, 2, 2, 3])))) for _ in range(rng.randint(1, 5))]
    conds = list(dict.fromkeys(conds))
    return f"SELECT count(*) FROM {', '.join(f'{t} AS {a}' for t, a in rels)} WHERE {' AND '.join(conds)}"
