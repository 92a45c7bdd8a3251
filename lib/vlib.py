"""Shared machinery: three-valued verdicts, case scheduling, sharding, evidence, known findings.

A check module (checks/<id>.py) defines
    PROPERTY, TECHNIQUE, RULE            strings
    SCENARIOS = [Scenario(fn, quick=n, thorough=m), ...]
    REQUIRE   = {counter: minimum}       counters below their minimum make the run inconclusive (exit 2)
    KNOWN     = {key: fn}                deterministic probes for known findings
    optional  setup(mon)
Every case gets its own PRNG derived from (VERIF_SEED, scenario, index); a replay re-runs one case.
"""
from __future__ import annotations

import collections
import errno
import hashlib
import importlib
import json
import os
import pathlib
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
KNOWN_FILE = ROOT / "known_findings.json"


class Violation(Exception):
    def __init__(self, mechanism: str, message: str, payload=None):
        super().__init__(f"[{mechanism}] {message}")
        self.mechanism = mechanism
        self.message = message
        self.payload = payload


class HarnessError(Exception):
    pass


class CpuTimeout(BaseException):
    pass


class Scenario:
    def __init__(self, fn, quick: int, thorough: int | None = None, cpu: float = 60.0, name: str | None = None):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.cpu = cpu
        self.name = name or fn.__name__


class Monitor:
    """Collects what the oracles observed."""

    def __init__(self, prop: str, seed: int, tier: str):
        self.property = prop
        self.seed = seed
        self.tier = tier
        self.evaluations = 0
        self.distinct: set[str] = set()
        self.counters: collections.Counter = collections.Counter()
        self.samples: list = []
        self._sample_kinds: collections.Counter = collections.Counter()
        self.violations: list[dict] = []
        self.cases = 0
        self.tmp: str | None = None
        self.wall_left = lambda: 1e9

    # --- recording ---
    def ok(self, key=None, n: int = 1, nontrivial: bool = True, **counters):
        """An oracle compared an observation and found it right."""
        self.evaluations += n
        if key is not None and nontrivial:
            self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])
        for k, v in counters.items():
            self.counters[k] += v

    def count(self, name: str, n: int = 1):
        self.counters[name] += n

    def sample(self, kind: str, obj, limit: int = 2):
        if self._sample_kinds[kind] < limit:
            self._sample_kinds[kind] += 1
            txt = obj if isinstance(obj, (str, dict, list, int, float)) else repr(obj)
            if isinstance(txt, str):
                txt = txt[:600]
            self.samples.append({"kind": kind, "case": txt})

    def fail(self, mechanism: str, message: str, payload=None):
        raise Violation(mechanism, message, payload)

    def check(self, cond, mechanism: str, message, payload=None, key=None, **counters):
        if not cond:
            raise Violation(mechanism, message() if callable(message) else message, payload)
        self.ok(key, **counters)
        return True

    def eq(self, got, want, mechanism: str, message="", payload=None, key=None):
        if got != want:
            raise Violation(mechanism, f"{message}: got {short(got)} expected {short(want)}", payload)
        self.ok(key)
        return True

    def raises(self, fn, mechanism: str, message="", exc=Exception, key=None):
        try:
            res = fn()
        except exc:
            self.ok(key)
            return True
        raise Violation(mechanism, f"{message}: no error raised, got {short(res)}")


def short(x, n=1200):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def _from_repo(exc: BaseException) -> bool:
    tb = exc.__traceback__
    repo = str(REPO / "postbound")
    while tb is not None:
        fname = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fname).startswith(os.path.realpath(repo)):
            return True
        tb = tb.tb_next
    return False


class cpu_limit:
    """Raises CpuTimeout when a case burns too much CPU time, or is blocked (deadlocked) for a long time."""
    WALL = 45.0

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise CpuTimeout(f"case used more than {self.seconds}s of CPU time")

        def blocked(signum, frame):
            t = sum(os.times()[:4])
            if t - self.cpu < 1.0:
                raise CpuTimeout(f"case is blocked: {t - self.cpu:.2f}s of CPU time within {self.WALL}s")
            self.cpu = t
        self.cpu = sum(os.times()[:4])
        self.old = signal.signal(signal.SIGVTALRM, handler)
        self.old_alrm = signal.signal(signal.SIGALRM, blocked)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        signal.setitimer(signal.ITIMER_REAL, self.WALL, self.WALL)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        signal.signal(signal.SIGALRM, self.old_alrm)
        return False


def run_case(mon: Monitor, scen: Scenario, index: int, seed: int) -> dict | None:
    rng = random.Random(f"{seed}/{mon.property}/{scen.name}/{index}")
    random.seed(f"{seed}/{mon.property}/{scen.name}/{index}")
    try:
        import numpy as np
        np.random.seed(rng.getrandbits(31))
    except Exception:
        pass
    mon.cases += 1
    mon.counters[f"cases:{scen.name}"] += 1
    try:
        with cpu_limit(scen.cpu):
            scen.fn(mon, rng)
        return None
    except Violation as v:
        return {"mechanism": v.mechanism, "message": v.message, "payload": v.payload,
                "trace": traceback.format_exc(limit=-3)}
    except CpuTimeout as e:
        if _from_repo(e):
            return {"mechanism": f"nontermination:{scen.name}", "message": str(e), "payload": None,
                    "trace": traceback.format_exc(limit=-12)}
        raise
    except RecursionError as e:
        return {"mechanism": f"exception:{scen.name}:RecursionError", "message": str(e)[:300], "payload": None,
                "trace": traceback.format_exc(limit=-8)}
    except (HarnessError, ImportError, MemoryError):
        raise
    except Exception as e:
        if not _from_repo(e):
            # the monitor itself failed: on a healthy tree that never happens, so the code handed out something unusable;
            # a missing private attribute or a full disk says nothing about the behaviour, though
            if isinstance(e, AttributeError) and str(getattr(e, "name", "") or "").startswith("_"):
                raise
            if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
                raise
            return {"mechanism": f"unusable-result:{scen.name}:{type(e).__name__}", "message": short(str(e), 400),
                    "payload": None, "trace": traceback.format_exc(limit=-10)}
        return {"mechanism": f"exception:{scen.name}:{type(e).__name__}", "message": short(str(e), 400),
                "payload": None, "trace": traceback.format_exc(limit=-10)}


def load_known(prop: str) -> dict[str, str]:
    if not KNOWN_FILE.exists():
        return {}
    data = json.loads(KNOWN_FILE.read_text())
    return {e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == prop}


def worker(modname: str, shard: int, nshards: int, seed: int, tier: str, out: str, deadline: float,
           only: str | None = None):
    sys.path.insert(0, str(ROOT))
    sys.path.insert(0, str(REPO))
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"checks.{modname}")
    mon = Monitor(mod.PROPERTY, seed, tier)
    start = time.time()
    mon.wall_left = lambda: deadline - (time.time() - start)
    err = None
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        mon.tmp = tmp
        old_cwd = os.getcwd()
        os.chdir(tmp)
        try:
            if hasattr(mod, "setup"):
                mod.setup(mon)
            plan = []
            for s in mod.SCENARIOS:
                if only and s.name != only:
                    continue
                n = s.quick if tier == "quick" else s.thorough
                n = int(n * float(os.environ.get("VERIF_SCALE", "1"))) or 1
                # spread the cases of every scenario over the whole run, so that the deadline thins all alike
                for i in range(n):
                    if i % nshards == shard:
                        plan.append(((i + 0.5) / n, s, i))
            plan.sort(key=lambda t: (t[0], t[1].name))
            skipped = 0
            for _, s, i in plan:
                if time.time() - start > deadline:
                    skipped += 1
                    continue
                v = run_case(mon, s, i, seed)
                if v is not None:
                    v.update(scenario=s.name, index=i, seed=seed, hashseed=os.environ.get("PYTHONHASHSEED"),
                             property=mod.PROPERTY, shard=shard, nshards=nshards, tier=tier)
                    mon.violations.append(v)
                    if len(mon.violations) >= 25:
                        break
            mon.counters["cases_skipped_by_deadline"] += skipped
        except BaseException:
            err = traceback.format_exc()
        finally:
            os.chdir(old_cwd)
    pathlib.Path(out).write_text(json.dumps({
        "evaluations": mon.evaluations, "distinct": sorted(mon.distinct), "counters": dict(mon.counters),
        "samples": mon.samples, "violations": mon.violations, "cases": mon.cases, "error": err}, default=repr))


def run_known(mod, prop, mon) -> tuple[list[str], list[dict]]:
    """Run the deterministic probes of known findings; returns (lines, new violations)."""
    listed = load_known(prop)
    lines, viol = [], []
    probes = getattr(mod, "KNOWN", {})
    for key, fn in probes.items():
        v = run_case(mon, Scenario(lambda m, r, fn=fn: fn(m), 1, name=f"known:{key}"), 0, mon.seed)
        if v is None:
            continue
        if key in listed:
            lines.append(f"KNOWN-FINDING: property={prop} {listed[key]}")
        else:
            v.update(scenario=f"known:{key}", index=0, seed=mon.seed, property=prop)
            viol.append(v)
    return lines, viol


def main(argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    prop = argv[0]
    modname = prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--worker" in argv:
        i = argv.index("--worker")
        shard, nshards, out, deadline = int(argv[i + 1]), int(argv[i + 2]), argv[i + 3], float(argv[i + 4])
        only = argv[argv.index("--only") + 1] if "--only" in argv else None
        return worker(modname, shard, nshards, seed, tier, out, deadline, only)
    sys.path.insert(0, str(ROOT))
    sys.path.insert(0, str(REPO))
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1])

    t0 = time.time()
    nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    deadline = float(os.environ.get("VERIF_DEADLINE", "150" if tier == "quick" else "700"))
    hard = deadline + 90
    only = ["--only", argv[argv.index("--only") + 1]] if "--only" in argv else []
    evdir = ROOT / "evidence"
    evdir.mkdir(exist_ok=True)
    evfile = evdir / f"{prop}.json"
    if evfile.exists():
        evfile.unlink()
    with tempfile.TemporaryDirectory(prefix="verif-run-") as tmp:
        procs = []
        for k in range(nshards):
            env = dict(os.environ)
            # different set/dict orders per shard, reproducible per seed
            env["PYTHONHASHSEED"] = str((seed * 131 + k) % 4294967295) if k else "0"
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["MPLBACKEND"] = "Agg"
            env["VERIF_SEED"] = str(seed)
            env["VERIF_TIER"] = tier
            env["HOME"] = tmp
            env["PYTHONPATH"] = f"{REPO}:{ROOT}"
            out = os.path.join(tmp, f"out{k}.json")
            log = open(os.path.join(tmp, f"log{k}.txt"), "w")
            p = subprocess.Popen([sys.executable, str(ROOT / "lib" / "vlib.py"), prop, "--tier", tier, "--worker",
                                  str(k), str(nshards), out, str(deadline), *only],
                                 env=env, cwd=tmp, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((k, p, out, log))
        results, errors = [], []
        for k, p, out, log in procs:
            try:
                p.wait(timeout=max(1.0, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                errors.append(f"shard {k} exceeded the wall-clock watchdog ({hard:.0f}s)")
            log.close()
            if os.path.exists(out):
                r = json.loads(pathlib.Path(out).read_text())
                results.append(r)
                if r["error"]:
                    errors.append(f"shard {k}: {r['error']}")
            else:
                tail = pathlib.Path(log.name).read_text()[-3000:]
                errors.append(f"shard {k} produced no result (rc={p.returncode}): {tail}")

    warnings.simplefilter("ignore")
    counters: collections.Counter = collections.Counter()
    distinct: set = set()
    samples, violations = [], []
    evaluations = cases = 0
    for r in results:
        counters.update(r["counters"])
        distinct.update(r["distinct"])
        violations.extend(r["violations"])
        evaluations += r["evaluations"]
        cases += r["cases"]
    seen: collections.Counter = collections.Counter()
    for r in results:
        for s in r["samples"]:
            if seen[s["kind"]] < 2 and len(samples) < 40:
                seen[s["kind"]] += 1
                samples.append(s)

    known_lines: list[str] = []
    required: dict = {}
    rule = technique = ""
    assumptions: list = []
    try:
        os.environ["MPLBACKEND"] = "Agg"
        mod = importlib.import_module(f"checks.{modname}")
        required = dict(getattr(mod, "REQUIRE", {}))
        rule, assumptions = mod.RULE, list(getattr(mod, "ASSUMPTIONS", []))
        if getattr(mod, "KNOWN", None) and not only:
            with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
                cwd = os.getcwd()
                os.chdir(tmp)
                try:
                    kmon = Monitor(prop, seed, tier)
                    kmon.tmp = tmp
                    if hasattr(mod, "setup"):
                        mod.setup(kmon)
                    known_lines, kviol = run_known(mod, prop, kmon)
                finally:
                    os.chdir(cwd)
            violations.extend(kviol)
    except BaseException:
        errors.append("known-finding probes: " + traceback.format_exc())

    by_mech = collections.Counter(v["mechanism"] for v in violations)
    listed = load_known(prop)
    unlisted = [v for v in violations]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": rule,
            "samples": samples, "cases": cases,
            "observed": {k: v for k, v in sorted(counters.items())},
            "shards": nshards, "known_findings_reproduced": known_lines,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(unlisted),
    }
    evfile.write_text(json.dumps(evidence, indent=1, ensure_ascii=False, default=repr))

    for line in known_lines:
        print(line)
    if unlisted:
        rdir = evdir / "replays"
        rdir.mkdir(exist_ok=True)
        shown = set()
        for v in unlisted:
            if v["mechanism"] in shown:
                continue
            shown.add(v["mechanism"])
            tag = hashlib.md5(f"{v['mechanism']}".encode()).hexdigest()[:8]
            path = rdir / f"{prop}-{tag}.json"
            path.write_text(json.dumps(v, indent=1, default=repr))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  mechanism: {v['mechanism']}  ({by_mech[v['mechanism']]}x)  scenario={v['scenario']}#{v['index']}")
            print("  " + short(v["message"], 1500).replace("\n", "\n  "))
            if v.get("trace") and v["mechanism"].startswith(("exception", "unusable", "nonterm")):
                print("  " + v["trace"].replace("\n", "\n  "))
        if errors:
            print("note: harness errors as well: " + short(errors[0], 800))
        return 1
    missing = {k: (counters.get(k, 0), m) for k, m in required.items() if counters.get(k, 0) < m} if not only else {}
    if errors:
        print(f"INCONCLUSIVE property={prop}: harness error")
        for e in errors[:3]:
            print(short(e, 3000))
        return 2
    if missing:
        print(f"INCONCLUSIVE property={prop}: monitors not reached often enough: {missing}")
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed} cases={cases} evaluations={evaluations} "
          f"distinct={len(distinct)} wall={time.time() - t0:.1f}s skipped={counters.get('cases_skipped_by_deadline', 0)}")
    return 0


def replay(path):
    v = json.loads(pathlib.Path(path).read_text())
    prop = v["property"]
    hs = v.get("hashseed") or "0"
    if os.environ.get("PYTHONHASHSEED") != hs:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        return subprocess.call([sys.executable, __file__, prop, "--replay", path], env=env)
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"checks.{prop.lower()}")
    mon = Monitor(prop, v["seed"], v.get("tier", "quick"))
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        mon.tmp = tmp
        os.chdir(tmp)
        if hasattr(mod, "setup"):
            mod.setup(mon)
        if v["scenario"].startswith("known:"):
            fn = mod.KNOWN[v["scenario"][6:]]
            scen = Scenario(lambda m, r: fn(m), 1, name=v["scenario"])
        else:
            scen = next(s for s in mod.SCENARIOS if s.name == v["scenario"])
        res = run_case(mon, scen, v["index"], v["seed"])
    if res is None:
        print("replay: the property held")
        return 0
    print(f"VIOLATION property={prop} replay={path}")
    print(json.dumps(res, indent=1, default=repr).replace("\\n", "\n"))
    return 1


if __name__ == "__main__":
    # make "lib.vlib" and "__main__" the same module, so that Violation etc. are shared
    sys.modules["lib.vlib"] = sys.modules["__main__"]
    sys.path.insert(0, str(ROOT))
    sys.exit(main())
