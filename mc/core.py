"""Bounded-exhaustive explorer shared by all checks.

A *case* is a JSON value describing one behaviour (a history, an environment script, an input).  A
*family* enumerates every case within its bound, in a fixed order.  Running a case executes the
real code from /repo on fresh objects and raises Violation when the oracle disagrees.
"""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import pathlib
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
OUT = pathlib.Path(os.environ.get("MC_OUT", ROOT))      # where evidence and replays go
REPO = os.environ.get("ELGAS_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_CPU_S = 20.0      # a case takes milliseconds; this much CPU without an end is a hang
CASE_WALL_S = 120.0
CHUNK = 4


class Violation(Exception):
    """The oracle disagrees.  key identifies the failing input/history for the known-findings file."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Hang(BaseException):
    pass


class Family:
    def __init__(self, name, gen, run, bound=""):
        self.name, self.gen, self.run, self.bound = name, gen, run, bound


class Ctx:
    """Counters of one worker for one family."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial_flag = False

    def state(self, *key):
        self.states.add(hash8(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """Executions inside one case (a case may stand for a block of them)."""
        self.traces += n

    def outcome(self, *key):
        """A distinct observed outcome; reporting one marks the case as non-trivial."""
        self.nontrivial_flag = True
        self.outcomes.add(hash8(key))


def hash8(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def fail(message, key=None):
    raise Violation(message, key)


def hx(b):
    return bytes(b).hex()


def un(s):
    return bytes.fromhex(s)


def raises(kinds, fn, *a, **k):
    """Return (True, exc) if fn raised one of kinds, (False, value) otherwise."""
    try:
        v = fn(*a, **k)
    except kinds as e:
        return True, e
    return False, v


# ------------------------------------------------------------------ set up of the code under test

def load_target():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import elgas
    where = os.path.dirname(os.path.abspath(elgas.__path__[0] if not elgas.__file__ else elgas.__file__))
    assert where.startswith(os.path.abspath(REPO)), (where, REPO)
    silence_logs()


def silence_logs():
    import structlog

    def drop(logger, name, event_dict):
        raise structlog.DropEvent

    class Null:
        def __getattr__(self, name):
            return lambda *a, **k: None

    structlog.configure(
        processors=[drop],
        wrapper_class=structlog.make_filtering_bound_logger(50),
        logger_factory=lambda *a: Null(),
        cache_logger_on_first_use=False,
    )


# ------------------------------------------------------------------ running cases

def _on_timer(signum, frame):
    raise Hang("no end within the time limit")


def guarded(family, case, ctx, index=0):
    """Run one case.  Returns None or (message, key)."""
    random.seed(SEED * 1000003 + index)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        family.run(case, ctx)
        return None
    except Violation as e:
        return str(e), e.key
    except Hang:
        return "does not terminate (%.0f s of CPU for one case)" % CASE_CPU_S, None
    except MemoryError:
        return "memory exhausted", None
    except Exception as e:  # an exception the property does not allow escaped from the code
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:][::-1])
        return "unexpected %s: %s (at %s)" % (type(e).__name__, e, where), None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(k, n, families, known_keys, stop, q, deadline):
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.signal(signal.SIGALRM, _on_timer)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        for fi, fam in enumerate(families):
            ctx = Ctx()
            evals = nontrivial = cases = 0
            first = None
            known = {}
            violation = None
            capped = False
            for i, case in enumerate(fam.gen()):
                if (i // CHUNK) % n != k:
                    continue
                if i % CHUNK == 0 and (stop.is_set() or time.time() > deadline):
                    capped = True
                    break
                ctx.nontrivial_flag = False
                before = ctx.traces
                res = guarded(fam, case, ctx, i)
                evals += max(1, ctx.traces - before)
                if first is None:
                    first = case
                cases += 1
                if ctx.nontrivial_flag:
                    nontrivial += 1
                if res is not None:
                    if res[1] is not None and res[1] in known_keys:
                        known.setdefault(res[1], 0)
                        known[res[1]] += 1
                        continue
                    violation = {"family": fam.name, "index": i, "worker": k, "workers": n,
                                 "case": case, "message": res[0], "key": res[1]}
                    stop.set()
                    break
            q.put(("family", k, fi, dict(evals=evals, nontrivial=nontrivial, known=known,
                                         states=ctx.states, outcomes=ctx.outcomes,
                                         transitions=ctx.transitions, cases=cases,
                                         samples=[] if first is None else [first],
                                         capped=capped, violation=violation)))
            if stop.is_set():
                break
        q.put(("done", k, None, None))
    except BaseException:
        q.put(("crash", k, None, traceback.format_exc()))


# ------------------------------------------------------------------ known findings

def load_known(prop):
    data = json.loads((ROOT / "known_findings.json").read_text())
    return {e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == prop}


# ------------------------------------------------------------------ main

def run_check(mod, tier):
    prop = mod.PROP
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    known = load_known(prop)
    load_target()
    if hasattr(mod, "setup"):
        mod.setup(tier)
    fams = mod.families(tier)
    names = [f.name for f in fams]
    assert len(set(names)) == len(names), names
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    procs = [ctx.Process(target=_worker, args=(k, WORKERS, fams, set(known), stop, q, deadline), daemon=True)
             for k in range(WORKERS)]
    for p in procs:
        p.start()
    agg = {f.name: dict(evaluations=0, cases=0, nontrivial=0, states=set(), outcomes=set(), transitions=0, capped=False)
           for f in fams}
    samples, violations, crashes, found = [], [], [], {}
    live = set(range(WORKERS))
    while live:
        try:
            kind, k, fi, d = q.get(timeout=5)
        except Exception:
            for k in list(live):
                if not procs[k].is_alive() and q.empty():
                    live.discard(k)
                    crashes.append("worker %d died with exit code %s" % (k, procs[k].exitcode))
            continue
        if kind == "done":
            live.discard(k)
        elif kind == "crash":
            live.discard(k)
            crashes.append(d)
            stop.set()
        else:
            a = agg[fams[fi].name]
            a["evaluations"] += d["evals"]
            a["nontrivial"] += d["nontrivial"]
            a["cases"] += d["cases"]
            a["states"] |= d["states"]
            a["outcomes"] |= d["outcomes"]
            a["transitions"] += d["transitions"]
            a["capped"] |= d["capped"]
            for kk, c in d["known"].items():
                found[kk] = found.get(kk, 0) + c
            if d["samples"] and len([s for s in samples if s["family"] == fams[fi].name]) < 2:
                samples.append({"family": fams[fi].name, "case": d["samples"][0]})
            if d["violation"]:
                violations.append(d["violation"])
    for p in procs:
        p.join(5)
    wall = time.time() - t0
    total = lambda key: sum(a[key] for a in agg.values())
    states = set().union(*(a["states"] for a in agg.values()))
    outs = set().union(*({(n, o) for o in a["outcomes"]} for n, a in agg.items()))
    capped = [n for n, a in agg.items() if a["capped"]]
    cov = {
        "rule": mod.RULE,
        "samples": [clip(s) for s in samples[:12]],
        "families": {f.name: {"bound": f.bound, "cases": agg[f.name]["cases"], "evaluations": agg[f.name]["evaluations"],
                              "nontrivial_cases": agg[f.name]["nontrivial"],
                              "distinct_outcomes": len(agg[f.name]["outcomes"]),
                              "states": len(agg[f.name]["states"]),
                              "transitions": agg[f.name]["transitions"]} for f in fams},
        "distinct_outcomes": len(outs),
        "exhaustive": not capped and not violations,
    }
    if capped and not violations:
        cov["capped_families"] = capped
    if mod.LEVEL == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = total("transitions")
        cov["traces_validated_against_impl"] = total("evaluations")
    else:
        cov["evaluations"] = total("evaluations")
        cov["distinct_nontrivial"] = total("nontrivial")
        cov["oracle_comparisons"] = total("evaluations") + total("transitions")
        if states:
            cov["states"] = len(states)
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(violations)}
    (OUT / "evidence").mkdir(parents=True, exist_ok=True)
    (OUT / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    for kk in sorted(found):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[kk], kk))
    if violations:
        violations.sort(key=lambda v: (names.index(v["family"]), v["index"]))
        v = violations[0]
        path = write_replay(prop, tier, v)
        print("  family %s case %s" % (v["family"], json.dumps(clip(v["case"]))))
        print("  " + v["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if crashes:
        for c in crashes:
            print("ERROR in the checker: " + c, file=sys.stderr)
        return 2
    print("%s %s: held on %d executions, %d states, %d transitions, %d distinct outcomes in %.1f s%s" % (
        prop, tier, total("evaluations"), len(states), total("transitions"), len(outs), wall,
        " (CAPPED: %s)" % capped if capped else ""))
    if os.environ.get("MC_VERBOSE"):
        for n, a in agg.items():
            print("   %-28s evals %8d nontrivial %8d outcomes %7d states %6d trans %8d" % (
                n, a["evaluations"], a["nontrivial"], len(a["outcomes"]), len(a["states"]), a["transitions"]))
    return 0


def clip(x, n=600):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def write_replay(prop, tier, v):
    d = OUT / "replays"
    d.mkdir(exist_ok=True)
    path = d / ("%s-%s-%d.json" % (prop, v["family"], v["index"]))
    body = dict(property=prop, tier=tier, seed=SEED, mode="single", **v)
    path.write_text(json.dumps(body, indent=1) + "\n")
    # The same case must fail again on its own, in a fresh process; a failure which depends on what ran before
    # in the same process is replayed with everything the worker had run.
    try:
        r = subprocess.run([sys.executable, "-B", str(ROOT / "check.py"), prop, "--replay", str(path)],
                           capture_output=True, text=True, timeout=200,
                           env=dict(os.environ, VERIF_SEED=str(SEED)))
        if r.returncode != 1:
            body["mode"] = "sequence"
            path.write_text(json.dumps(body, indent=1) + "\n")
            print("  (fails only after the cases run before it in the same process)")
    except subprocess.TimeoutExpired:
        pass
    return path


def replay(mod, path):
    body = json.loads(pathlib.Path(path).read_text())
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.signal(signal.SIGALRM, _on_timer)
    global SEED
    SEED = body["seed"]
    load_target()
    if hasattr(mod, "setup"):
        mod.setup(body["tier"])
    fams = {f.name: f for f in mod.families(body["tier"])}
    fam = fams[body["family"]]
    if body["mode"] == "single":
        res = guarded(fam, body["case"], Ctx(), body["index"])
    else:
        res = None
        for f in fams.values():
            for i, case in enumerate(f.gen()):
                if (i // CHUNK) % body["workers"] != body["worker"]:
                    continue
                r = guarded(f, case, Ctx(), i)
                if f is fam and i == body["index"]:
                    res = r
                    break
            if f is fam:
                break
    if res is None:
        print("replay: the case holds")
        return 0
    print("replay: " + res[0])
    print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
    return 1
