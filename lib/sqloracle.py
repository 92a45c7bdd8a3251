"""Independent analysis of SQL text: scopes, columns, conjuncts. Works on pglast's syntax tree, never on PostBOUND's."""
from __future__ import annotations

import json

import pglast

AGGREGATES = {"count", "sum", "min", "max", "avg"}


def strip(o):
    if isinstance(o, dict):
        return {a: strip(b) for a, b in o.items() if a not in ("location", "stmt_len", "stmt_location")}
    if isinstance(o, list):
        return [strip(x) for x in o]
    return o


def parse(sql):
    stmts = strip(json.loads(pglast.parser.parse_sql_json(sql)))["stmts"]
    return stmts[-1]["stmt"]["SelectStmt"]


class Rel:
    """A relation in scope."""

    def __init__(self, kind, name, base=None, alias="", schema="", cols=None, query=None):
        self.kind, self.name, self.base, self.alias, self.schema, self.cols, self.query = kind, name, base, alias, schema, cols, query

    def key(self):
        return self.name


class Block:
    """One SELECT (or set operation) of the text."""

    def __init__(self, node, parent=None):
        self.node = node
        self.parent = parent
        self.rels: list[Rel] = []
        self.ctes: dict[str, Block] = {}
        self.colrefs: list = []           # (rel or None, column, context) of this block only
        self.exprsubs: list[Block] = []   # expression subqueries, directly in this block
        self.fromsubs: list[Block] = []
        self.setinputs: list[Block] = []
        self.conjuncts: list = []         # normalised own conjuncts (WHERE + join conditions)
        self.outputs: list[str | None] = []
        self.outcols: dict = {}           # output name -> set of (rel, col) when the output is a plain column

    def all_blocks(self):
        yield self
        for b in list(self.ctes.values()) + self.fromsubs + self.exprsubs + self.setinputs:
            yield from b.all_blocks()

    def lookup_rel(self, name):
        b = self
        while b is not None:
            for r in b.rels:
                if r.name == name:
                    return r
            b = b.parent
        return None

    def lookup_col(self, col):
        """Returns (known, rel)."""
        b = self
        while b is not None:
            hits = [r for r in b.rels if r.cols is None or col in r.cols]
            exact = [r for r in hits if r.cols is not None]
            if exact:
                return exact[0]
            if hits:
                return None
            b = b.parent
        return None

    def lookup_cte(self, name):
        b = self
        while b is not None:
            if name in b.ctes:
                return b.ctes[name]
            b = b.parent
        return None


class Analyzer:
    def __init__(self, schema: dict[str, list[str]]):
        self.schema = schema

    def analyze(self, sql) -> Block:
        return self.block(parse(sql), None)

    # -- blocks
    def block(self, node, parent) -> Block:
        b = Block(node, parent)
        for c in node.get("withClause", {}).get("ctes", []):
            c = c["CommonTableExpr"]
            q = c["ctequery"]["SelectStmt"]
            if node["withClause"].get("recursive"):
                # the CTE can see itself
                stub = Block(q, b)
                b.ctes[c["ctename"]] = stub
            sub = self.block(q, b)
            if "aliascolnames" in c:
                sub.outputs = [x["String"]["sval"] for x in c["aliascolnames"]]
            b.ctes[c["ctename"]] = sub
        if node["op"] != "SETOP_NONE":
            l, r = self.block(node["larg"], b), self.block(node["rarg"], b)
            # inputs of a set operation do not see each other's relations, only CTEs and outer scopes
            b.setinputs = [l, r]
            b.outputs, b.outcols = l.outputs, {}
            for s in node.get("sortClause", []):
                self.expr(s, b, "order")
            return b
        if "valuesLists" in node:
            n = 0
            for row in node["valuesLists"]:
                items = row["List"]["items"]
                n = len(items)
                for i in items:
                    self.expr(i, b, "values")
            b.outputs = [f"column{i + 1}" for i in range(n)]
            return b
        for f in node.get("fromClause", []):
            self.from_item(f, b)
        for t in node.get("targetList", []):
            t = t["ResTarget"]
            start = len(b.colrefs)
            v = t["val"]
            if "ColumnRef" in v and "A_Star" in v["ColumnRef"]["fields"][-1]:
                fields = v["ColumnRef"]["fields"]
                rels = b.rels if len(fields) == 1 else [r for r in b.rels if r.name == fields[0]["String"]["sval"]]
                for r in rels:
                    b.outputs.extend(r.cols if r.cols is not None else [None])
                continue
            self.expr(v, b, "select")
            name = t.get("name")
            if "ColumnRef" in v:
                name = name or v["ColumnRef"]["fields"][-1]["String"]["sval"]
                rel, col, _ = b.colrefs[start]
                b.outcols.setdefault(name, set()).add((rel, col))
            elif name:
                b.outcols.setdefault(name, set()).add(None)
            b.outputs.append(name)
        if "whereClause" in node:
            self.expr(node["whereClause"], b, "where")
            b.conjuncts += flatten_and(node["whereClause"])
        for g in node.get("groupClause", []):
            self.expr(g, b, "group")
        if "havingClause" in node:
            self.expr(node["havingClause"], b, "having")
        for s in node.get("sortClause", []):
            self.expr(s, b, "order")
        for d in node.get("distinctClause", []):
            if d:
                self.expr(d, b, "distinct")
        return b

    def from_item(self, f, b: Block):
        if "RangeVar" in f:
            v = f["RangeVar"]
            name, alias = v["relname"], v.get("alias", {}).get("aliasname", "")
            cte = b.lookup_cte(name) if "schemaname" not in v else None
            if cte is not None:
                b.rels.append(Rel("cte", alias or name, base=name, alias=alias, cols=cte.outputs if None not in cte.outputs else
                                  [c for c in cte.outputs if c], query=cte))
            else:
                b.rels.append(Rel("base", alias or name, base=name, alias=alias, schema=v.get("schemaname", ""), cols=self.schema.get(name)))
        elif "JoinExpr" in f:
            j = f["JoinExpr"]
            self.from_item(j["larg"], b)
            self.from_item(j["rarg"], b)
            if "quals" in j:
                self.expr(j["quals"], b, "on")
                b.conjuncts += flatten_and(j["quals"])
        elif "RangeSubselect" in f:
            s = f["RangeSubselect"]
            q = s["subquery"]["SelectStmt"]
            alias = s.get("alias", {}).get("aliasname", "")
            if s.get("lateral"):
                sub = self.block(q, b)
            else:
                holder = Block({}, b.parent)     # no access to siblings
                holder.ctes = b.ctes
                sub = self.block(q, holder)
            cols = [x["String"]["sval"] for x in s.get("alias", {}).get("colnames", [])] or [c for c in sub.outputs if c]
            if "valuesLists" in q:
                b.rels.append(Rel("values", alias, alias=alias, cols=cols, query=sub))
                b.colrefs += sub.colrefs
                b.exprsubs += sub.exprsubs
            else:
                b.fromsubs.append(sub)
                b.rels.append(Rel("subquery", alias, alias=alias, cols=cols, query=sub))
        elif "RangeFunction" in f:
            s = f["RangeFunction"]
            self.expr(s["functions"][0]["List"]["items"][0], b, "from")
            alias = s.get("alias", {}).get("aliasname", "")
            b.rels.append(Rel("function", alias, alias=alias, cols=None))
        else:
            raise ValueError(f"unknown FROM item {list(f)}")

    # -- expressions: records column references and subqueries; annotates the tree with the resolution
    def expr(self, node, b: Block, ctx):
        if isinstance(node, list):
            for x in node:
                self.expr(x, b, ctx)
            return
        if not isinstance(node, dict):
            return
        for k, v in node.items():
            if k == "ColumnRef":
                fields = v["fields"]
                if "A_Star" in fields[-1]:
                    continue
                col = fields[-1]["String"]["sval"]
                if len(fields) == 1:
                    rel = b.lookup_col(col)
                    if ctx == "order" and col in b.outcols and not b.setinputs:
                        b.colrefs.append(("output", col, ctx))
                        v["resolved"] = ("output", col)
                        continue
                else:
                    rel = b.lookup_rel(fields[-2]["String"]["sval"])
                b.colrefs.append((rel, col, ctx))
                v["resolved"] = (rel.name if rel is not None else None, col)
            elif k == "SubLink":
                sub = self.block(v["subselect"]["SelectStmt"], b)
                b.exprsubs.append(sub)
                if "testexpr" in v:
                    self.expr(v["testexpr"], b, ctx)
            else:
                self.expr(v, b, ctx)


def flatten_and(node):
    if "BoolExpr" in node and node["BoolExpr"]["boolop"] == "AND_EXPR":
        out = []
        for a in node["BoolExpr"]["args"]:
            out += flatten_and(a)
        return out
    return [node]


def flatten_bool(node):
    """Children of an AND/OR, nested ones of the same kind spliced in."""
    op = node["BoolExpr"]["boolop"]
    out = []
    for a in node["BoolExpr"]["args"]:
        if "BoolExpr" in a and a["BoolExpr"]["boolop"] == op and op != "NOT_EXPR":
            out += flatten_bool(a)
        else:
            out.append(a)
    return out


def column_rels(node):
    """(relation, column) of column references outside of subqueries."""
    out = set()
    if isinstance(node, list):
        for x in node:
            out |= column_rels(x)
    elif isinstance(node, dict):
        for k, v in node.items():
            if k == "ColumnRef":
                if "resolved" in v:
                    out.add(tuple(v["resolved"]))
            elif k == "SubLink":
                if "testexpr" in v:
                    out |= column_rels(v["testexpr"])
            else:
                out |= column_rels(v)
    return out


def rels_of(node):
    return {r for r, _ in column_rels(node) if r is not None}


def is_join(node) -> bool | None:
    """Classification as documented in AbstractPredicate.is_join; None where the documentation is silent."""
    if "BoolExpr" in node:
        parts = [is_join(a) for a in node["BoolExpr"]["args"]]
        return True if True in parts else None if None in parts else False
    if "A_Expr" in node:
        e = node["A_Expr"]
        if e["kind"] in ("AEXPR_IN", "AEXPR_BETWEEN"):
            left = rels_of(e["lexpr"])
            items = e["rexpr"]["List"]["items"]
            if len(left) > 1 or any(len(left | rels_of(i)) > 1 for i in items):
                return True
            return False if len(rels_of(e["rexpr"])) < 2 else None
    if "SubLink" in node and node["SubLink"]["subLinkType"] in ("ANY_SUBLINK", "ALL_SUBLINK"):
        return len(rels_of(node["SubLink"].get("testexpr", {}))) > 1
    return len(rels_of(node)) > 1


def low(names):
    """Identifiers compare case-insensitively throughout PostBOUND (documented in _core.normalize)."""
    return tuple(n.lower() if isinstance(n, str) else n for n in names)


def norm(node):
    """Canonical, hashable form of an expression tree; column references by (relation, column)."""
    if isinstance(node, list):
        return tuple(norm(x) for x in node)
    if not isinstance(node, dict):
        return node
    if "ColumnRef" in node and len(node) == 1:
        v = node["ColumnRef"]
        if "resolved" in v and v["resolved"][0] not in (None, "output"):
            return ("col", *low(v["resolved"]))
        f = v["fields"]
        if "A_Star" in f[-1]:
            return ("star", *[x["String"]["sval"] for x in f[:-1]])
        names = [x["String"]["sval"] for x in f]
        return ("col", names[-2].lower() if len(names) > 1 else None, names[-1].lower())
    if "BoolExpr" in node and len(node) == 1:
        op = node["BoolExpr"]["boolop"]
        return (op, tuple(norm(x) for x in flatten_bool(node)))
    if "A_Expr" in node and node["A_Expr"]["kind"] == "AEXPR_IN" and node["A_Expr"]["name"][0]["String"]["sval"] == "<>":
        e = dict(node["A_Expr"])
        e["name"] = [{"String": {"sval": "="}}]
        return ("NOT_EXPR", (norm({"A_Expr": e}),))
    if "TypeCast" in node and len(node) == 1:
        t = node["TypeCast"]["typeName"]
        return ("cast", norm(node["TypeCast"]["arg"]), tuple(n["String"]["sval"] for n in t["names"])[-1:], norm(t.get("typmods", [])),
                "arrayBounds" in t)
    if "A_Const" in node and len(node) == 1 and "fval" in node["A_Const"]:
        return ("num", float(node["A_Const"]["fval"]["fval"]))
    if "FuncCall" in node and len(node) == 1:
        d = dict(node["FuncCall"])
        d["funcname"] = [x["String"]["sval"].lower() for x in d["funcname"]]
        return ("func", norm(d))
    skip = {"SelectStmt": {"limitOption"}, "ResTarget": set()}
    return tuple((k, v.lower() if k in ("relname", "aliasname", "ctename", "name") and isinstance(v, str) else norm(v)) for k, v in sorted(node.items()) if k not in ("resolved", "funcformat", "coerceformat", "lateral"))


def norm_text(predicate_text, analyzer_schema=None):
    """Canonical form of a printed predicate (its columns are taken as printed, nested scopes resolved)."""
    node = parse("SELECT 1 WHERE " + predicate_text)
    return norm(node["whereClause"])


