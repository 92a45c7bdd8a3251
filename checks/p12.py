"""P12: optimization pipelines run the configured stages and honour every decision."""
import collections
import random
import warnings

import postbound as pb
from postbound import Cardinality, JoinOperator, QueryPlan, ScanOperator, util
from postbound._hints import PhysicalOperatorAssignment, PlanParameterization
from postbound._stages import (CardinalityEstimator, CompleteOptimizationAlgorithm, CostModel, IncrementalOptimizationStep, JoinOrderOptimization, ParameterGeneration,
                               PhysicalOperatorSelection, PlanEnumerator, as_complete_algorithm)
from postbound.db import Database, HintService, OptimizerInterface, UnsupportedDatabaseFeatureError
from postbound.parser import parse_query
from postbound.train import TrainingData, TrainingDataRepository, TrainingSpec
from postbound.util._errors import StateError
from postbound.validation import CompoundCheck, OptimizationPreCheck, PreCheckResult, UnsupportedQueryError, UnsupportedSystemError

from lib import db as vdb
from lib.plans import leaves, pool, random_order, random_plan, sql_tables, to_plan
from lib.sqlgen import spj
from lib.vlib import Scenario

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from postbound.opt import presets

PROPERTY = "P12"
TECHNIQUE = ("online monitor: recording stages, pre-checks and a recording hinting service log every call; a reference model of each pipeline variant predicts the exact event "
             "sequence, the arguments, the outcome and the errors for random configuration/optimization histories; an end-to-end scenario runs them on a live DuckDB")
RULE = ("random histories of configure/build/optimize/change-database steps over all pipeline variants, with accepting and rejecting pre-checks, empty stages and failing stages; "
        "distinct by pipeline, configuration and outcome")
ASSUMPTIONS = ["the clean-up hook is only required after a successful optimization", "two stages of one pipeline carry different names when training metrics are compared",
               "the deprecated UES preset is covered by P21 only"]
REQUIRE = {"optimized": 500, "events": 1500, "rejected-query": 100, "rejected-db": 80, "not-built": 100, "failed-stage": 30, "training-calls": 200, "executed": 60, "emulated": 60}


class Boom(Exception):
    pass


class Check(OptimizationPreCheck):
    def __init__(self, uid, bad_tables, bad_dbs):
        super().__init__(f"check{uid}")
        self.uid, self.bad_tables, self.bad_dbs = uid, bad_tables, bad_dbs

    def rejects(self, query):
        return bool(self.bad_tables & {t.full_name for t in query.tables()})

    def check_supported_query(self, query):
        return PreCheckResult(False, f"<Q{self.uid}>") if self.rejects(query) else PreCheckResult.with_all_passed()

    def check_supported_database_system(self, database_instance):
        return PreCheckResult(False, f"<D{self.uid}>") if database_instance.database_name() in self.bad_dbs else PreCheckResult.with_all_passed()

    def describe(self):
        return {"name": self.name}


class Log(list):
    def add(self, *event):
        self.append(event)


def js(x):
    return None if x is None else util.to_json(x)


class RecHints(HintService):
    def __init__(self, db):
        self.db = db

    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        self.db.log.add("hints", self.db.name, str(query), js(plan), js(join_order), js(physical_operators), js(plan_parameters))
        self.db.serial += 1
        return parse_query(f"SELECT {self.db.serial}")

    def format_query(self, query):
        return str(query)

    def supports_hint(self, hint):
        return True


class RecOptimizer(OptimizerInterface):
    def __init__(self, db):
        self.db = db

    def query_plan(self, query):
        self.db.serial += 1
        self.db.log.add("explain", self.db.name, str(query))
        return QueryPlan(f"native{self.db.serial}")

    def analyze_plan(self, query):
        raise NotImplementedError

    def parse_plan(self, plan, *, query=None):
        raise NotImplementedError

    def cardinality_estimate(self, query):
        raise NotImplementedError

    def cost_estimate(self, query):
        raise NotImplementedError


class RecDb(Database):
    def __init__(self, name, log):
        self.name, self.log, self.serial = name, log, 0
        self._cache_enabled, self._query_cache, self.system_name = False, {}, "recorder"

    def schema(self):
        raise NotImplementedError

    def statistics(self):
        raise NotImplementedError

    def hinting(self):
        return RecHints(self)

    def optimizer(self):
        return RecOptimizer(self)

    def execute_query(self, query, *, cache_enabled=None, raw=False):
        raise NotImplementedError

    def database_name(self):
        return self.name

    def database_system_version(self):
        return util.Version("1.0")

    def describe(self):
        return {"name": self.name}

    def reset_connection(self):
        pass

    def cursor(self):
        raise NotImplementedError

    def close(self):
        pass


class Stage:
    """mixin of all recording stages"""
    def prepare(self, w, uid, check):
        self.w, self.uid, self.check, self.fail, self.name = w, uid, check, False, f"stage{uid}"
        return self

    def pre_check(self):
        return self.check

    def describe(self):
        return {"name": self.name}

    def event(self, kind, *args):
        self.w.log.add(kind, self.uid, *args)
        if self.fail:
            raise Boom(self.uid)


class Algo(Stage, CompleteOptimizationAlgorithm):
    def optimize_query(self, query):
        self.event("algo", str(query))
        return self.w.out(self, "plan", query)


class Order(Stage, JoinOrderOptimization):
    def optimize_join_order(self, query):
        self.event("order", str(query))
        return self.w.out(self, "order", query)


class Ops(Stage, PhysicalOperatorSelection):
    def select_physical_operators(self, query, join_order):
        self.event("ops", str(query), js(join_order))
        return self.w.out(self, "ops", query)


class Params(Stage, ParameterGeneration):
    def generate_plan_parameters(self, query, join_order, operator_assignment):
        self.event("params", str(query), js(join_order), js(operator_assignment))
        return self.w.out(self, "params", query)


class Cards(Stage, CardinalityEstimator):
    """uses the inherited parameter generation"""
    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        self.w.log.add("init", self.uid, target_db.database_name(), str(query))

    def cleanup(self):
        super().cleanup()
        self.w.log.add("cleanup", self.uid)

    def generate_plan_parameters(self, query, join_order, operator_assignment):
        self.event("params", str(query), js(join_order), js(operator_assignment))
        return super().generate_plan_parameters(query, join_order, operator_assignment)

    def calculate_estimate(self, query, intermediate):
        tabs = util.enlist(intermediate)
        return Cardinality(sum(len(str(t)) for t in tabs) * 100 + self.uid)


class Costs(Stage, CostModel):
    def estimate_cost(self, query, plan):
        return 1.0


class Enum(Stage, PlanEnumerator):
    def generate_execution_plan(self, query, *, cost_model, cardinality_estimator):
        self.event("enumerate", str(query), getattr(cost_model, "uid", "?"), getattr(cardinality_estimator, "uid", "?"))
        return self.w.out(self, "plan", query)


class Step(Stage, IncrementalOptimizationStep):
    def optimize_query(self, query, current_plan):
        self.event("step", str(query), js(current_plan))
        return self.w.out(self, "plan", query)


class World:
    def __init__(self, rng):
        self.rng, self.log, self.n, self.outputs = rng, Log(), 0, {}
        self.dbs = [RecDb(f"db{i}", self.log) for i in range(3)]
        self.queries = []
        for _ in range(3):
            tabs = pool(rng, rng.choice([1, 2, 2, 3, 4]))
            self.queries.append(parse_query("SELECT * FROM " + sql_tables(tabs), bind_columns=False))

    def make_check(self):
        r = self.rng
        if r.random() < 0.1:
            return None
        self.n += 1
        chk = Check(self.n, set(r.sample([f"t{i}" for i in range(4)], r.choice([0, 0, 0, 0, 1]))), set(r.sample(["db0", "db1", "db2"], r.choice([0, 0, 0, 0, 1]))))
        if r.random() < 0.2:
            return CompoundCheck([chk, self.atom()])
        return chk

    def atom(self):
        self.n += 1
        r = self.rng
        return Check(self.n, set(r.sample([f"t{i}" for i in range(4)], r.choice([0, 0, 0, 1]))), set(r.sample(["db0", "db1", "db2"], r.choice([0, 0, 0, 1]))))

    def make(self, cls):
        self.n += 1
        return cls().prepare(self, self.n, self.make_check())

    def out(self, stage, kind, query):
        """output of a stage, fixed per stage and query"""
        key = stage.uid, str(query)
        if key not in self.outputs:
            r = random.Random(repr(key))
            tabs = sorted(query.tables(), key=str)
            if kind == "order":
                self.outputs[key] = None if r.random() < 0.2 else build_order(random_order(r, tabs))
            elif kind == "plan":
                self.outputs[key] = to_plan(random_plan(r, tabs, filters=False))
            elif kind == "ops":
                a = PhysicalOperatorAssignment()
                for t in tabs:
                    if r.random() < 0.5:
                        a.add(r.choice([ScanOperator.SequentialScan, ScanOperator.IndexScan]), t)
                a.set_operator_enabled_globally(r.choice(list(JoinOperator)), False)
                self.outputs[key] = a
            else:
                p = PlanParameterization()
                p.add_cardinality(tabs, Cardinality(stage.uid))
                p.set_system_settings(uid=stage.uid)
                self.outputs[key] = p if r.random() < 0.9 else None
        return self.outputs[key]


def build_order(o):
    from postbound import JoinTree
    return JoinTree.scan(o) if not isinstance(o, tuple) else JoinTree.join(build_order(o[0]), build_order(o[1]))


def atoms(checks):
    out = []
    for c in checks:
        if c is None:
            continue
        out += c.checks if isinstance(c, CompoundCheck) else [c]
    return out


def bad_query(checks, query):
    return [f"<Q{c.uid}>" for c in atoms(checks) if c.rejects(query)]


def bad_db(checks, database):
    return [f"<D{c.uid}>" for c in atoms(checks) if database.name in c.bad_dbs]


class Driver:
    """executes one operation on a pipeline and compares outcome and events with the model's prediction"""
    def __init__(self, mon, w, pipe, kind):
        self.mon, self.w, self.pipe, self.kind, self.trace = mon, w, pipe, kind, []

    def ctx(self):
        return f"{self.kind}: " + " ; ".join(self.trace[-14:])

    def call(self, text, fn, error=None, reasons=(), all_reasons=True):
        """returns the value or None; error: expected exception type"""
        self.trace.append(text)
        start = len(self.w.log)
        try:
            value = fn()
        except (StateError, UnsupportedQueryError, UnsupportedSystemError, Boom) as e:
            self.mon.check(error is not None and isinstance(e, error), "unexpected-error", lambda: f"{self.ctx()}\n{e!r}, expected {error}", key=(self.kind, type(e).__name__))
            if reasons:
                found = [r for r in reasons if r in str(e)]
                self.mon.check(found and (len(found) == len(reasons) or not all_reasons), "error-reasons", lambda: f"{self.ctx()}\n{e}: expected {reasons}")
                surplus = set(__import__("re").findall(r"<[QD]\d+>", str(e))) - set(reasons)
                self.mon.check(not surplus, "error-reasons", lambda: f"{self.ctx()}\n{e}: surplus {surplus}")
            if isinstance(e, UnsupportedQueryError):
                self.mon.count("rejected-query")
            elif isinstance(e, UnsupportedSystemError):
                self.mon.count("rejected-db")
            elif isinstance(e, StateError):
                self.mon.count("not-built")
            else:
                self.mon.count("failed-stage")
            return None, self.w.log[start:]
        self.mon.check(error is None, "missing-error", lambda: f"{self.ctx()}\nexpected {error} {reasons}", key=(self.kind, "ok"))
        return value, self.w.log[start:]

    def events(self, got, want, key):
        self.mon.count("events", len(got))
        self.mon.check(list(got) == list(want), "events", lambda: f"{self.ctx()}\ngot  {[e for e in got]}\nwant {want}", key=key)


def pick_fail(rng, stages):
    for s in stages:
        s.fail = False
    if stages and rng.random() < 0.08:
        s = rng.choice(stages)
        s.fail = True


def cut(events, stages):
    """events up to (and including) the first failing stage"""
    failing = {s.uid for s in stages if s.fail}
    for i, e in enumerate(events):
        if e[0] not in ("init", "cleanup", "hints", "explain") and e[1] in failing:
            return events[:i + 1], True
    return events, False


# --- pipeline variants -------------------------------------------------------------------------------------------------
def check_output(d, mon, hinted, plan_mode, got, database, key):
    mon.count("optimized")
    if plan_mode:
        return
    mon.check(str(hinted).rstrip(";") == f"SELECT {database.serial}", "hinted-query", lambda: f"{d.ctx()}\n{hinted}")


def multistage(mon, rng):
    w = World(rng)
    cur = rng.choice(w.dbs)
    pipe = pb.MultiStageOptimizationPipeline(cur)
    d = Driver(mon, w, pipe, "multistage")
    cfg = {"check": None, "order": None, "ops": None, "params": None}
    built = False
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(["order", "ops", "params", "check", "settings", "db", "build", "build", "build", "opt", "opt", "opt", "plan", "describe"])
        if op in ("order", "ops", "params"):
            s = w.make({"order": Order, "ops": Ops, "params": rng.choice([Params, Cards])}[op])
            if rng.random() < 0.5:
                ret, ev = d.call(f"use({op}{s.uid})", lambda: pipe.use(s))
            else:
                fn = {"order": pipe.setup_join_order_optimization, "ops": pipe.setup_physical_operator_selection, "params": pipe.setup_plan_parameterization}[op]
                ret, ev = d.call(f"setup({op}{s.uid})", lambda: fn(s))
            mon.check(ret is pipe, "chaining", d.ctx)
            d.events(ev, [], None)
            cfg[op], built = s, False
        elif op == "check":
            c = w.make_check()
            d.call(f"support_check({c})", lambda: pipe.setup_query_support_check(c))
            cfg["check"], built = c, False
        elif op == "settings":
            class Settings(pb.OptimizationSettings):
                def __init__(self, **kw):
                    self.kw = kw

                def query_pre_check(self):
                    return self.kw["check"]

                def build_join_order_optimizer(self):
                    return self.kw["order"]

                def build_physical_operator_selection(self):
                    return self.kw["ops"]

                def build_plan_parameterization(self):
                    return self.kw["params"]
            new = {"check": w.make_check() if rng.random() < 0.5 else None, "order": w.make(Order) if rng.random() < 0.5 else None,
                   "ops": w.make(Ops) if rng.random() < 0.5 else None, "params": w.make(Cards) if rng.random() < 0.5 else None}
            d.call(f"load_settings({[k for k, v in new.items() if v is not None]})", lambda: pipe.load_settings(Settings(**new)))
            cfg.update({k: v for k, v in new.items() if v is not None})
            built = False
        elif op == "db":
            cur = rng.choice(w.dbs)

            def setdb():
                pipe.target_db = cur
            d.call(f"target_db={cur.name}", setdb)
            built = False
        elif op == "build":
            reasons = bad_db([cfg["check"]] + [s.check for k, s in cfg.items() if k != "check" and s is not None], cur)
            ret, ev = d.call("build", pipe.build, UnsupportedSystemError if reasons else None, reasons)
            d.events(ev, [], None)
            built = not reasons
        elif op == "describe":
            desc = pipe.describe()
            util.to_json(desc)
            for k, name in (("join_ordering", "order"), ("operator_selection", "ops"), ("plan_parameterization", "params")):
                mon.eq(desc.get(k, "missing"), cfg[name].describe() if cfg[name] else None, "describe", d.ctx())
            mon.eq({s.uid for s in pipe.stages()}, {s.uid for k, s in cfg.items() if k != "check" and s is not None}, "stages", d.ctx())
            mon.check(pipe.target_database() is cur, "target-database", d.ctx)
        else:
            q = rng.choice(w.queries)
            stages = [cfg[k] for k in ("order", "ops", "params") if cfg[k] is not None]
            pick_fail(rng, stages)
            fn = (lambda: pipe.optimize_query(q)) if op == "opt" else (lambda: pipe.query_execution_plan(q))
            reasons = bad_query([cfg["check"]] + [s.check for s in stages], q)
            if not built:
                _, ev = d.call(f"{op}({q})", fn, StateError)
                d.events(ev, [], None)
                continue
            if reasons:
                _, ev = d.call(f"{op}({q})", fn, UnsupportedQueryError, reasons)
                d.events(ev, [], ("multi", "rejected", len(reasons)))
                continue
            qs, want = str(q), []
            jo = ops = par = None
            if cfg["order"]:
                want.append(("order", cfg["order"].uid, qs))
                jo = w.out(cfg["order"], "order", q)
            if cfg["ops"]:
                want.append(("ops", cfg["ops"].uid, qs, js(jo)))
                ops = w.out(cfg["ops"], "ops", q)
            else:
                ops = PhysicalOperatorAssignment()
            if cfg["params"]:
                card = isinstance(cfg["params"], Cards)
                if card:
                    want.append(("init", cfg["params"].uid, cur.name, qs))
                want.append(("params", cfg["params"].uid, qs, js(jo), js(ops)))
                if card:
                    want.append(("cleanup", cfg["params"].uid))
                    par = cards_oracle(cfg["params"], q, jo)
                else:
                    par = w.out(cfg["params"], "params", q)
            else:
                par = PlanParameterization()
            want.append(("hints", cur.name, qs, None, js(jo), js(ops), js(par)))
            want, fails = cut(want, stages)
            key = ("multi", len(q.tables()), tuple(k for k, v in cfg.items() if v is not None), isinstance(cfg["params"], Cards), jo is None, par is None, fails)
            if op == "plan" and not fails:
                want.append(("explain", cur.name, f"SELECT {cur.serial + 1};"))
            out, ev = d.call(f"{op}({q})", fn, Boom if fails else None)
            d.events(ev, want, key)
            if out is not None:
                check_output(d, mon, out, op == "plan", ev, cur, key)
                if op == "plan":
                    mon.eq(out.node_type, f"native{cur.serial}", "native-plan", d.ctx())


def cards_oracle(stage, q, jo):
    p = PlanParameterization()
    if jo is None:
        for s in stage.generate_intermediates(q):
            p.add_cardinality(s, stage.calculate_estimate(q, s))
        return p
    for n in jo.iternodes():
        p.add_cardinality(n.tables(), stage.calculate_estimate(q, n.tables()))
    return p


def integrated(mon, rng):
    w = World(rng)
    cur = rng.choice(w.dbs)
    pipe = pb.IntegratedOptimizationPipeline(cur)
    d = Driver(mon, w, pipe, "integrated")
    algo, emul, built = None, None, False
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(["use", "db", "build", "build", "opt", "opt", "plan", "describe"])
        if op == "use":
            if rng.random() < 0.5:
                algo, emul = w.make(Algo), None
                target = algo
            else:
                algo, emul = w.make(rng.choice([Order, Ops, Params, Cards])), cur
                target = as_complete_algorithm(algo, database=cur)
            ret, _ = d.call(f"use({type(algo).__name__}{algo.uid})", lambda: rng.choice([pipe.use, pipe.setup_optimization_algorithm])(target))
            mon.check(ret is pipe, "chaining", d.ctx)
            built = False
        elif op == "db":
            cur = rng.choice(w.dbs)

            def setdb():
                pipe.target_db = cur
            d.call(f"target_db={cur.name}", setdb)
            built = False
        elif op == "build":
            if algo is None:
                d.call("build", pipe.build, StateError)
                continue
            reasons = bad_db([algo.check], cur)
            d.call("build", pipe.build, UnsupportedSystemError if reasons else None, reasons)
            built = not reasons
        elif op == "describe":
            desc = pipe.describe()
            util.to_json(desc)
            if algo is not None:
                mon.eq(desc["optimization_algorithm"], algo.describe(), "describe", d.ctx())
            mon.eq(len(pipe.stages()), 0 if algo is None else 1, "stages", d.ctx())
            mon.check(pipe.target_database() is cur, "target-database", d.ctx)
        else:
            q = rng.choice(w.queries)
            stages = [algo] if algo else []
            pick_fail(rng, stages)
            fn = (lambda: pipe.optimize_query(q)) if op == "opt" else (lambda: pipe.query_execution_plan(q))
            reasons = bad_query([s.check for s in stages], q)
            if not built or reasons:
                _, ev = d.call(f"{op}({q})", fn, UnsupportedQueryError if built else StateError, reasons if built else ())
                d.events(ev, [], ("integrated", "rejected", built))
                continue
            qs = str(q)
            if emul is None:
                plan = w.out(algo, "plan", q)
                want = [("algo", algo.uid, qs)]
            else:
                mon.count("emulated")
                kind = type(algo)
                out = w.out(algo, {Order: "order", Ops: "ops", Params: "params", Cards: "params"}[kind], q) if kind is not Cards else cards_oracle(algo, q, None)
                want = {Order: [("order", algo.uid, qs)], Ops: [("ops", algo.uid, qs, None)], Params: [("params", algo.uid, qs, None, None)],
                        Cards: [("init", algo.uid, emul.name, qs), ("params", algo.uid, qs, None, None), ("cleanup", algo.uid)]}[kind]
                want.append(("hints", emul.name, qs, None, js(out) if kind is Order else None, js(out) if kind is Ops else None, js(out) if kind in (Params, Cards) else None))
                want.append(("explain", emul.name, f"SELECT {emul.serial + 1};"))
                plan = QueryPlan(f"native{emul.serial + 2}")
            if op == "opt":
                want.append(("hints", cur.name, qs, js(plan), None, None, None))
            want, fails = cut(want, stages)
            out, ev = d.call(f"{op}({q})", fn, Boom if fails else None)
            d.events(ev, want, ("integrated", type(algo).__name__, len(q.tables()), fails, op))
            if out is not None:
                check_output(d, mon, out, op == "plan", ev, cur, None)
                if op == "plan":
                    mon.eq(js(out), js(plan), "returned-plan", d.ctx())


def textbook(mon, rng):
    w = World(rng)
    cur = rng.choice(w.dbs)
    pipe = pb.TextBookOptimizationPipeline(cur)
    d = Driver(mon, w, pipe, "textbook")
    cfg = {"card": None, "cost": None, "enum": None}
    built = False
    for cls, k in ((Cards, "card"), (Costs, "cost"), (Enum, "enum")):  # the default stages require a real database
        cfg[k] = w.make(cls)
        pipe.use(cfg[k])
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(["card", "cost", "enum", "build", "build", "opt", "opt", "plan", "describe"])
        if op in cfg:
            s = w.make({"card": Cards, "cost": Costs, "enum": Enum}[op])
            fn = {"card": pipe.setup_cardinality_estimator, "cost": pipe.setup_cost_model, "enum": pipe.setup_plan_enumerator}[op]
            ret, _ = d.call(f"use({op}{s.uid})", lambda: rng.choice([pipe.use, fn])(s))
            mon.check(ret is pipe, "chaining", d.ctx)
            cfg[op], built = s, False
        elif op == "build":
            reasons = bad_db([s.check for s in cfg.values()], cur)
            d.call("build", pipe.build, UnsupportedSystemError if reasons else None, reasons)
            built = not reasons
        elif op == "describe":
            desc = pipe.describe()
            util.to_json(desc)
            mon.eq((desc["plan_enumerator"], desc["cost_model"], desc["cardinality_estimator"]), tuple(cfg[k].describe() for k in ("enum", "cost", "card")), "describe", d.ctx())
            mon.eq({s.uid for s in pipe.stages()}, {s.uid for s in cfg.values()}, "stages", d.ctx())
        else:
            q = rng.choice(w.queries)
            pick_fail(rng, [cfg["enum"]])
            fn = (lambda: pipe.optimize_query(q)) if op == "opt" else (lambda: pipe.query_execution_plan(q))
            reasons = bad_query([s.check for s in cfg.values()], q)
            if not built or reasons:
                _, ev = d.call(f"{op}({q})", fn, UnsupportedQueryError if built else StateError, reasons if built else ())
                d.events(ev, [], ("textbook", "rejected", built))
                continue
            plan = w.out(cfg["enum"], "plan", q)
            want = [("enumerate", cfg["enum"].uid, str(q), cfg["cost"].uid, cfg["card"].uid)]
            if op == "opt":
                want.append(("hints", cur.name, str(q), js(plan), None, None, None))
            want, fails = cut(want, [cfg["enum"]])
            out, ev = d.call(f"{op}({q})", fn, Boom if fails else None)
            d.events(ev, want, ("textbook", len(q.tables()), fails, op))
            if out is not None:
                check_output(d, mon, out, op == "plan", ev, cur, None)
                if op == "plan":
                    mon.eq(js(out), js(plan), "returned-plan", d.ctx())


def incremental(mon, rng):
    w = World(rng)
    cur = rng.choice(w.dbs)
    pipe = pb.IncrementalOptimizationPipeline(cur)
    d = Driver(mon, w, pipe, "incremental")
    init, steps = None, []
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(["init", "step", "step", "db", "opt", "opt", "plan", "describe"])
        checks = [s.check for s in [init, *steps] if s is not None]
        if op == "init":
            s = w.make(Algo)
            reasons = bad_db([s.check], cur)

            def setinit():
                if rng.random() < 0.5:
                    return pipe.use(s)
                pipe.initial_plan_generator = s
                return pipe
            d.call(f"init({s.uid})", setinit, UnsupportedSystemError if reasons else None, reasons, all_reasons=False)
            if not reasons:
                init = s
        elif op == "step":
            s = rng.choice(steps) if steps and rng.random() < 0.2 else w.make(Step)
            reasons = bad_db([s.check], cur)
            d.call(f"step({s.uid})", lambda: rng.choice([pipe.use, pipe.add_optimization_step])(s), UnsupportedSystemError if reasons else None, reasons, all_reasons=False)
            if not reasons:
                steps.append(s)
        elif op == "db":
            new = rng.choice(w.dbs)
            reasons = bad_db(checks, new)

            def setdb():
                pipe.target_db = new
            d.call(f"target_db={new.name}", setdb, UnsupportedSystemError if reasons else None, reasons, all_reasons=False)
            if not reasons:
                cur = new
        elif op == "describe":
            util.to_json(pipe.describe())
            mon.eq([s.uid for s in pipe.stages()], [s.uid for s in ([init] if init else []) + steps], "stages", d.ctx())
            mon.check(pipe.target_database() is cur, "target-database", d.ctx)
        else:
            q = rng.choice(w.queries)
            stages = ([init] if init else []) + steps
            pick_fail(rng, stages)
            fn = (lambda: pipe.optimize_query(q)) if op == "opt" else (lambda: pipe.query_execution_plan(q))
            reasons = bad_query(checks, q)
            if reasons:
                _, ev = d.call(f"{op}({q})", fn, UnsupportedQueryError, reasons, all_reasons=False)
                d.events(ev, [], ("incremental", "rejected"))
                continue
            qs = str(q)
            if init:
                want, plan = [("algo", init.uid, qs)], w.out(init, "plan", q)
            else:
                want, plan = [("explain", cur.name, qs)], QueryPlan(f"native{cur.serial + 1}")
            for s in steps:
                want.append(("step", s.uid, qs, js(plan)))
                plan = w.out(s, "plan", q)
            if op == "opt":
                want.append(("hints", cur.name, qs, js(plan), None, None, None))
            want, fails = cut(want, stages)
            out, ev = d.call(f"{op}({q})", fn, Boom if fails else None)
            d.events(ev, want, ("incremental", init is None, len(steps), len(q.tables()), fails, op))
            if out is not None:
                check_output(d, mon, out, op == "plan", ev, cur, None)
                if op == "plan":
                    mon.eq(js(out), js(plan), "returned-plan", d.ctx())


# --- training ----------------------------------------------------------------------------------------------------------
class TrainMixin:
    done = None

    def note(self, kind, *args):
        self.w.log.add(kind, self.uid, *args)
        self.done.add(kind)
        return {"uid": self.uid, "kind": kind}


def train_methods(kinds):
    ns = {}
    if "db" in kinds:
        ns["fit_database"] = lambda self, database: self.note("db", database.name)
        ns["database_fit_completed"] = lambda self: "db" in self.done
    if "wl" in kinds:
        ns["fit_workload"] = lambda self, queries, database: self.note("wl", queries.name, database.name)
        ns["workload_fit_completed"] = lambda self: "wl" in self.done
    if "smp" in kinds:
        ns["fit_samples"] = lambda self, samples: self.note("smp", sorted(map(str, samples.feature_names)) if hasattr(samples, "feature_names") else len(samples))
        ns["sample_fit_completed"] = lambda self: "smp" in self.done
        ns["sample_spec"] = lambda self: TrainingSpec(["query", "cardinality"])
    if "online" in kinds:
        ns["learn_from_feedback"] = lambda self, query, result_set, *, exec_time: self.note("online", str(query), result_set, exec_time)
    return ns


def training(mon, rng):
    w = World(rng)
    db0 = w.dbs[0]

    def make(cls):
        kinds = [k for k in ("db", "wl", "smp", "online") if rng.random() < 0.5]
        sub = type(f"T{cls.__name__}", (TrainMixin, cls), train_methods(kinds))
        w.n += 1
        s = sub().prepare(w, w.n, None)
        s.done, s.kinds = set(), kinds
        return s

    which = rng.choice(["multi", "textbook", "incremental", "integrated"])
    if which == "multi":
        stages = [make(c) for c in (Order, Ops, rng.choice([Params, Cards])) if rng.random() < 0.8]
        pipe = pb.MultiStageOptimizationPipeline(db0)
    elif which == "textbook":
        stages = [make(c) for c in (Cards, Costs, Enum)]
        pipe = pb.TextBookOptimizationPipeline(db0)
    elif which == "incremental":
        stages = [make(c) for c in [Algo] + [Step] * rng.randint(0, 3)]
        pipe = pb.IncrementalOptimizationPipeline(db0)
    else:
        stages = [make(Algo)]
        pipe = pb.IntegratedOptimizationPipeline(db0)
    for s in stages:
        pipe.use(s)
    import pandas as pd
    frame = pd.DataFrame({"query": ["SELECT * FROM t0"], "cardinality": [3]})
    has = {k: any(k in s.kinds for s in stages) for k in ("db", "wl", "smp", "online")}
    ctx = f"{which}: {[(type(s).__name__, s.uid, s.kinds) for s in stages]}"
    mon.eq((pipe.requires_data_training(), pipe.requires_workload_training(), pipe.requires_sample_training(), pipe.requires_online_training()),
           tuple(has[k] for k in ("db", "wl", "smp", "online")), "training-requirements", ctx, key=("train", which, tuple(has.values())))
    wl = pb.Workload({"a": parse_query("SELECT * FROM t0")}, "wl1")
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(["db", "wl", "smp", "online"])
        start = len(w.log)
        pending = [s for s in stages if k in s.kinds and (k == "online" or k not in s.done)]
        if k == "db":
            got = pipe.train_on_database(db0)
        elif k == "wl":
            got = pipe.train_on_workload(wl, db0)
        elif k == "smp":
            data = TrainingData.from_df(frame.copy())
            got = pipe.train_on_samples(data if rng.random() < 0.5 else TrainingDataRepository().register(data))
        else:
            got = pipe.learn_from_feedback(w.queries[0], [(1,)], exec_time=5)
        ev = w.log[start:]
        mon.count("training-calls", max(1, len(ev)))
        mon.eq(sorted((e[0], e[1]) for e in ev), sorted((k, s.uid) for s in pending), "training-calls", f"{ctx} {k}")
        mon.eq(dict(got), {s.name: {"uid": s.uid, "kind": k} for s in pending}, "training-metrics", f"{ctx} {k}")
    mon.eq(pipe.sample_fit_completed(), all("smp" in s.done for s in stages if "smp" in s.kinds), "sample-fit-completed", ctx)


# --- end to end --------------------------------------------------------------------------------------------------------
def nodes(plan):
    return [plan] + [n for c in plan.children for n in nodes(c)]


def live(mon, rng):
    mon.count("live-sessions")
    iface, _ = vdb.postbound_db(f"{mon.tmp}/p12_{rng.randrange(1 << 30)}.db", random.Random(rng.random()), constraints=False)
    try:
        for _ in range(8):
            sql, tabs, _, _ = spj(rng, n_tables=rng.choice([1, 2, 2, 3, 4]))
            query = parse_query(sql, bind_columns=False)
            want = vdb.norm_rows(iface.execute_query(query, raw=True))
            # EXPLAIN of DuckDB names no aliases (a documented limitation of parse_duckdb_plan) and folds empty
            # inputs to EMPTY_RESULT and plans some joins as NESTED_LOOP_JOIN / CROSS_PRODUCT nodes that are not modelled: there is no native plan to recover in these cases
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                shape = collections.Counter("scan" if n.is_scan() else "join" if n.is_join() else "aux" for n in nodes(iface.optimizer().query_plan(query)))
            if len({t.full_name for t in query.tables()}) < len(query.tables()) or (shape["scan"], shape["join"]) != (len(tabs), len(tabs) - 1):
                mon.count("no-native-plan")
                continue
            kind = rng.choice(["native", "native", "empty", "textbook", "incremental", "integrated"])
            if kind == "textbook" and len(tabs) > 3:
                kind = "native"
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if kind == "native":
                    pipe = pb.MultiStageOptimizationPipeline(iface).load_settings(presets.fetch("native", database=iface))
                elif kind == "empty":
                    from postbound.opt import noopt
                    pipe = pb.MultiStageOptimizationPipeline(iface)
                    for c in (noopt.EmptyJoinOrderOptimizer, noopt.EmptyPhysicalOperatorSelection, noopt.EmptyParameterization):
                        if rng.random() < 0.6:
                            pipe.use(c())
                elif kind == "textbook":
                    pipe = pb.TextBookOptimizationPipeline(iface)
                elif kind == "incremental":
                    pipe = pb.IncrementalOptimizationPipeline(iface)
                else:
                    from postbound.opt.native import NativeOptimizer
                    pipe = pb.IntegratedOptimizationPipeline(iface).use(NativeOptimizer(iface))
                if kind != "incremental":
                    pipe.build()
                try:
                    hinted = pipe.optimize_query(query)
                except (UnsupportedQueryError, UnsupportedDatabaseFeatureError):
                    mon.count("live-rejected")
                    continue
                if kind == "empty":
                    mon.check(str(hinted).split() == str(query).split(), "empty-pipeline", lambda: f"{query}\n{hinted}")
                got = vdb.norm_rows(iface.execute_query(hinted, raw=True))
            mon.count("executed")
            mon.eq(got, want, "live-result", f"{kind}: {query}\n{hinted}", key=("live", kind, len(tabs)))
    except Exception as e:
        if "Internal" in type(e).__name__ or "INTERNAL" in str(e):
            mon.count("engine-crash")
            return
        raise
    finally:
        iface.close()


SCENARIOS = [Scenario(multistage, quick=10000, thorough=72000), Scenario(integrated, quick=2000, thorough=40000), Scenario(textbook, quick=2000, thorough=32000),
             Scenario(incremental, quick=2000, thorough=40000), Scenario(training, quick=1000, thorough=24000), Scenario(live, quick=64, thorough=3200)]
