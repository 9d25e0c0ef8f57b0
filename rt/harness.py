"""Runs the workloads of one property on the real code and collects the verdict of its monitors.

A property module (rt/props/cXX.py) defines
    SCENARIOS   list of (name, function(ctx, rng), weight)
    CASES       {"quick": n, "thorough": n}
    RULE        how cases are made and what makes one non-trivial
    REQUIRED    events that must have been observed, else the run is inconclusive
    ASSUMPTIONS list of strings
Every case is reproducible from (VERIF_SEED, property, index).

Verdicts are three-valued: Violation (exit 1), held (exit 0), inconclusive (exit 2: the harness itself
failed, or a monitor that decides the property was never reached).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("EFFECTOR_REPO", "/repo"))
PKG = os.path.join(REPO, "effector") + os.sep
CASE_CPU_S = 240      # CPU seconds of one case (they take well below 10)
WALL_S = {"quick": 800, "thorough": 6 * 3600}


class Violation(Exception):
    def __init__(self, key, msg, **data):
        super().__init__(key + ": " + msg)
        self.key, self.msg, self.data = key, msg, data


class Skip(Exception):
    """The generated case is outside the domain of the property."""


class CpuLimit(BaseException):
    pass


class Ctx:
    def __init__(self, prop, tier, index, scenario):
        self.prop, self.tier, self.index, self.scenario = prop, tier, index, scenario
        self.events = collections.Counter()
        self.desc = {}
        self.signature = None
        self.nontrivial = False
        self.findings = []

    thorough = property(lambda self: self.tier == "thorough")

    def ev(self, name, n=1):
        self.events[name] += int(n or 0)

    def case(self, nontrivial=True, **desc):
        """Describe the case; its description is what makes it distinct."""
        self.desc.update(desc)
        self.nontrivial = self.nontrivial or bool(nontrivial)

    def check(self, ok, key, msg="", **data):
        self.events["checks"] += 1
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg, **data)

    def finding(self, key):
        self.findings.append(key)


def _jsonable(o, depth=0):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ndarray):
        return {"shape": list(o.shape), "values": _jsonable(o.ravel()[:60].tolist(), depth + 1)}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


def load(prop):
    return importlib.import_module("rt.props." + prop.lower())


def rng_for(seed, prop, index, salt=0):
    import numpy as np
    h = hashlib.sha256(f"{seed}/{prop}/{index}/{salt}".encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


def schedule(mod):
    out = []
    for name, fn, weight in mod.SCENARIOS:
        out += [(name, fn)] * weight
    return out


def _from_effector(tb):
    return any(os.path.realpath(f.filename).startswith(PKG) for f in traceback.extract_tb(tb))


def run_case(mod, prop, tier, seed, index):
    """Returns a dict with the outcome of one case."""
    import numpy as np
    import matplotlib.pyplot as plt
    name, fn = schedule(mod)[index % len(schedule(mod))]
    ctx = Ctx(prop, tier, index, name)
    rng = rng_for(seed, prop, index)
    np.random.seed(int(rng.integers(2 ** 31)))
    out = {"index": index, "scenario": name, "status": "held"}

    def on_cpu(signum, frame):
        raise CpuLimit()

    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(ctx, rng)
    except Skip as e:
        out.update(status="skip", msg=str(e))
    except Violation as e:
        out.update(status="violation", key=e.key, msg=e.msg, data=_jsonable(e.data))
    except CpuLimit:
        out.update(status="violation", key="no-termination",
                   msg="a call did not return within %d s of CPU time" % CASE_CPU_S)
    except Exception as e:
        tb = sys.exc_info()[2]
        text = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _from_effector(tb):
            out.update(status="violation", key="unexpected-exception",
                       msg="%s: %s on a valid request" % (type(e).__name__, str(e)[:300]), data={"traceback": text})
        elif isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.split(".")[0] == "effector":
            out.update(status="violation", key="missing-attribute", msg="%s" % str(e)[:300], data={"traceback": text})
        else:
            out.update(status="error", msg=text)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        plt.close("all")
    out["wall"] = time.time() - t0
    out["events"] = dict(ctx.events)
    out["findings"] = ctx.findings
    out["desc"] = _jsonable(dict(ctx.desc, scenario=name))
    out["nontrivial"] = ctx.nontrivial
    blob = json.dumps(out["desc"], sort_keys=True).encode()
    out["sig"] = hashlib.sha1(blob).hexdigest()[:16]
    return out


def _worker(mod, prop, tier, seed, counter, ncases, deadline, conn):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= ncases or time.time() > deadline:
                break
            conn.send(run_case(mod, prop, tier, seed, i))
    except BaseException:
        conn.send({"status": "error", "index": -1, "scenario": "?", "msg": traceback.format_exc()})
    conn.send(None)
    conn.close()
    os._exit(0)


def run_all(mod, prop, tier, seed, ncases, jobs, deadline):
    counter = multiprocessing.Value("i", 0)
    ctxm = multiprocessing.get_context("fork")
    conns, procs, results, errors = [], [], [], []
    for _ in range(jobs):
        r, w = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=_worker, args=(mod, prop, tier, seed, counter, ncases, deadline, w), daemon=True)
        p.start()
        w.close()
        conns.append(r)
        procs.append(p)
    from multiprocessing.connection import wait
    live = list(conns)
    bad = 0
    while live:
        for c in wait(live, timeout=5):
            try:
                m = c.recv()
            except EOFError:
                errors.append("a worker process died")
                live.remove(c)
                continue
            if m is None:
                live.remove(c)
            else:
                results.append(m)
                bad += m["status"] == "violation"
        if bad >= 40:       # plenty of witnesses; stop early
            break
        if time.time() > deadline + 60:
            errors.append("wall-clock watchdog")
            break
    for p in procs:
        p.terminate()
    for p in procs:
        p.join()
    return results, errors


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--case", type=int)
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="effector-rt-")
    os.environ["MPLCONFIGDIR"] = tmp
    try:
        return _main(a, prop, seed, tier, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(a, prop, seed, tier, t0):
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.WARNING)
    import matplotlib
    matplotlib.use("Agg")
    import effector
    if not os.path.realpath(effector.__file__).startswith(PKG):
        print("INCONCLUSIVE: effector was imported from", effector.__file__)
        return 2
    mod = load(prop)
    if a.replay or a.case is not None:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            seed, tier, index = r["seed"], r["tier"], r["index"]
        else:
            index = a.case
        out = run_case(mod, prop, tier, seed, index)
        print(json.dumps(out, indent=1)[:6000])
        if out["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0 if out["status"] in ("held", "skip") else 2

    ncases = a.cases or mod.CASES[tier]
    warm = getattr(mod, "WARM", None)
    if warm is not None:
        try:
            warm()
        except Exception:
            pass        # the cases will report it
    results, errors = run_all(mod, prop, tier, seed, ncases, a.jobs, t0 + WALL_S[tier])
    results.sort(key=lambda r: r["index"])
    events = collections.Counter()
    per_scen = collections.Counter()
    sigs, samples, seen_scen = set(), [], set()
    skipped = 0
    findings = collections.Counter()
    for r in results:
        if r["status"] == "error":
            errors.append("case %d (%s): %s" % (r["index"], r["scenario"], r["msg"]))
            continue
        if r["status"] == "skip":
            skipped += 1
            continue
        events.update(r["events"])
        findings.update(r["findings"])
        per_scen[r["scenario"]] += 1
        if r["nontrivial"]:
            sigs.add(r["sig"])
        if r["scenario"] not in seen_scen and r["status"] == "held":
            seen_scen.add(r["scenario"])
            samples.append({"index": r["index"], "case": r["desc"], "events": r["events"]})
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    known_keys = {k["key"]: k for k in known}
    viol, hit_known = [], {}
    for r in results:
        if r["status"] == "violation":
            if r["key"] in known_keys:
                hit_known[r["key"]] = r
            else:
                viol.append(r)
    missing = [e for e in getattr(mod, "REQUIRED", []) if events[e] == 0]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(per_scen.values()),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "skipped_out_of_domain": skipped,
            "events_observed": dict(sorted(events.items())),
            "cases_per_scenario": dict(sorted(per_scen.items())),
            "samples": samples[:12] or [{"note": "no case completed"}],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for key in sorted(set(hit_known) | (set(findings) & set(known_keys))):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_keys[key]["what"]))
    unlisted = set(findings) - set(known_keys)
    if unlisted:
        errors.append("findings not listed: %s" % sorted(unlisted))
    printed = set()
    for r in viol:
        if r["key"] in printed or len(printed) >= 5:
            continue
        printed.add(r["key"])
        path = os.path.join("evidence", "replays", "%s-%s-%d-%d.json" % (prop, tier, seed, r["index"]))
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(dict(r, property=prop, tier=tier, seed=seed), f, indent=1)
        print("  [%s] %s: %s" % (r["scenario"], r["key"], r["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d skipped), %d checks, %d violations, %.1f s" % (
        prop, tier, seed, sum(per_scen.values()), len(sigs), skipped, events["checks"], len(viol), time.time() - t0))
    if a.verbose:
        print(json.dumps(evidence["coverage"]["events_observed"], indent=1))
        slow = sorted(results, key=lambda r: -r.get("wall", 0))[:3]
        print("slowest:", [(r["index"], r["scenario"], round(r.get("wall", 0), 2)) for r in slow])
    if viol:
        return 1
    for e in errors[:5]:
        print("INCONCLUSIVE:", e)
    if missing:
        print("INCONCLUSIVE: never observed:", ", ".join(missing))
    if len(results) < ncases and not errors:
        print("note: stopped by the time budget after %d of %d cases" % (len(results), ncases))
    if errors or missing:
        return 2
    return 0
