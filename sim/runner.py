"""Seeded search over simulated runs: workers, minimisation, replay, evidence."""
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GE_SIM_REPO", "/repo")
CHECK = os.path.join(VERIF, "check.py")
RUN_WALL = 150  # one run takes milliseconds to a few seconds
REPLAYS = os.path.join(VERIF, "replays")


class Hang(BaseException):
    pass


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def setup_paths():
    src = os.path.join(REPO, "src")
    sys.path[:0] = [src, VERIF]
    import graph_ensembles

    got = os.path.dirname(os.path.dirname(os.path.abspath(graph_ensembles.__file__)))
    if got != os.path.abspath(src):
        raise RuntimeError("graph_ensembles comes from %s, not %s" % (got, src))


def _alarm(signum, frame):
    raise Hang()


MALFORMED = (KeyError, IndexError, AttributeError, TypeError, ValueError)
JUDGES = {"check", "structure", "metadata", "usable", "networkx", "attributes", "judge", "record"}


def judging(e):
    """The exception came from an answer the oracle could not even read."""
    tb = e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_name in JUDGES and os.path.basename(os.path.dirname(c.co_filename)) == "sim":
            if os.path.basename(c.co_filename) != "runner.py":
                return True
        tb = tb.tb_next
    return False


def run_one(mod, seed=None, replay=None, variant=None):
    """Execute one simulated run. Returns (status, ctl, info)."""
    from . import core, rngseam

    ctl = core.Ctl(seed=seed, replay=replay, jit=rngseam.JIT)
    ctl.variant = variant
    status, info = "ok", None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_WALL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rngseam.seed(ctl.seed32())
            mod.run(ctl)
    except core.Violation as v:
        status, info = "violation", (v.kind, v.detail)
    except core.Discard as d:
        status, info = "discard", ("discard", str(d))
    except core.Unsupported as d:
        status, info = "unsupported", ("unsupported", str(d))
    except core.StepBudget as d:
        status, info = "violation", ("no-progress", str(d))
    except Hang:
        status, info = "violation", ("no-progress", "run exceeded %d s" % RUN_WALL)
    except BaseException as e:
        if isinstance(e, (SystemExit,)):
            raise
        if isinstance(e, MALFORMED) and judging(e):
            status, info = "violation", ("malformed-answer", "%s: %s" % (type(e).__name__, str(e)[:300]))
        else:
            status = "error"
            info = (type(e).__name__, "".join(traceback.format_exception(e))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.settrace(None)
    return status, ctl, info


def worker(pid, variant, start, count, stride, out, wall, prog=None):
    setup_paths()
    mod = load(pid)
    t0 = time.time()
    res = {
        "runs": 0,
        "discards": 0,
        "unsupported": {},
        "errors": [],
        "n_errors": 0,
        "faults": {},
        "stats": {},
        "labels": {},
        "fps": [],
        "nontrivial": 0,
        "sim_time": 0.0,
        "steps": 0,
        "violation": None,
        "digests": {},
        "samples": [],
        "truncated": False,
    }
    fps = set()
    for n in range(count):
        seed = start + n * stride
        if time.time() - t0 > wall:
            res["truncated"] = True
            break
        if prog:
            with open(prog, "w") as f:
                f.write(str(seed))
        t1 = time.time()
        status, ctl, info = run_one(mod, seed=seed, variant=variant)
        res["slowest"] = max(res.get("slowest", 0), round(time.time() - t1, 2))
        res["runs"] += 1
        for k, v in ctl.faults.items():
            res["faults"][k] = res["faults"].get(k, 0) + v
        for k, v in ctl.stats.items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        for k in ctl.labels:
            res["labels"][k] = res["labels"].get(k, 0) + 1
        res["sim_time"] += ctl.sim_time
        res["steps"] += ctl.sched_steps
        res["digests"][str(seed)] = ctl.digest()
        if status == "discard":
            res["discards"] += 1
        elif status == "unsupported":
            res["unsupported"][info[1]] = res["unsupported"].get(info[1], 0) + 1
        elif status == "error":
            res["n_errors"] += 1
            if len(res["errors"]) < 5:
                res["errors"].append({"seed": seed, "error": info})
        else:
            if ctl.nontrivial:
                res["nontrivial"] += 1
                fps.add(ctl.fingerprint())
            if len(res["samples"]) < 2 and ctl.nontrivial:
                res["samples"].append({"seed": seed, "events": ctl.trace[:14]})
        if status == "violation":
            res["violation"] = {
                "seed": seed,
                "kind": info[0],
                "detail": info[1],
                "choices": ctl.choices,
                "variant": variant,
            }
            break
    res["fps"] = sorted(fps)
    res["wall"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f)


def env_for(variant, hashseed="0"):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPYCACHEPREFIX"] = os.path.join(tempfile.gettempdir(), "ge-sim-nopyc-%d" % os.getpid())
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["NUMBA_NUM_THREADS"] = "1"
    e.pop("NUMBA_CACHE_DIR", None)
    if variant == "jit":
        e["NUMBA_DISABLE_JIT"] = "0"
    else:
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def spawn(args, variant, hashseed="0"):
    return subprocess.Popen(
        [sys.executable, "-B", CHECK] + [str(a) for a in args],
        env=env_for(variant, hashseed),
        cwd=VERIF,
        stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE,
    )


def check(pid, tier, base_seed):
    t0 = time.time()
    mod = load(pid)
    plan = mod.PLAN[tier]  # variant -> (runs, workers, wall)
    work = tempfile.mkdtemp(prefix="ge-sim-")
    procs = []
    seed0 = base_seed * 1000003
    for variant, (runs, nw, wall) in plan.items():
        per = -(-runs // nw)
        for w in range(nw):
            out = os.path.join(work, "%s-%d.json" % (variant, w))
            prog = os.path.join(work, "%s-%d.prog" % (variant, w))
            off = {"int": 0, "jit": 500000000}.get(variant, 700000000)
            p = spawn(
                ["--worker", pid, variant, seed0 + off + w, per, nw, out, wall, prog],
                variant,
            )
            procs.append((p, variant, w, out, prog, wall))
    # determinism: repeat the first seeds in one more process, other hash seed
    rep = None
    v0 = next(iter(plan))
    nw0 = plan[v0][1]
    rep_out = os.path.join(work, "rep.json")
    nrep = getattr(mod, "REPEAT", 12)
    if nrep:
        rep = spawn(["--worker", pid, v0, seed0, nrep, nw0, rep_out, 200], v0, "1")
    results, hard = [], []
    for p, variant, w, out, prog, wall in procs:
        limit = wall + RUN_WALL + 60
        try:
            _, err = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            seed = int(open(prog).read()) if os.path.exists(prog) else None
            hard.append({"kind": "no-progress", "seed": seed, "variant": variant,
                         "detail": "worker made no progress for more than %d s" % RUN_WALL})
            continue
        if os.path.exists(out):
            r = json.load(open(out))
            r["variant"] = variant
            results.append(r)
        else:
            msg = (err or b"").decode(errors="replace")[-3000:]
            seed = int(open(prog).read()) if os.path.exists(prog) else None
            if p.returncode is not None and p.returncode < 0 and seed is not None:
                # the process itself died (segmentation fault ...) in library code
                hard.append({"kind": "process-died", "seed": seed, "variant": variant,
                             "detail": "simulated process ended by signal %d" % -p.returncode})
            else:
                results.append({"variant": variant, "fatal": msg, "runs": 0})
    mism = 0
    if rep is not None:
        try:
            rep.communicate(timeout=300)
            r = json.load(open(rep_out))
            first = [x for x in results if x.get("variant") == v0 and x.get("digests")]
            alld = {}
            for x in first:
                alld.update(x["digests"])
            both = [k for k in r["digests"] if k in alld]
            mism = sum(alld[k] != r["digests"][k] for k in both)
            nrep = len(both)
        except Exception:
            rep.kill()
            nrep = 0
    ok = [r for r in results if r["runs"]]
    viol = sorted(
        [r["violation"] for r in ok if r.get("violation")], key=lambda v: v["seed"]
    ) + hard
    code = 0
    lines = []
    known = load_known(pid)
    fresh = [v for v in viol if not matches_known(known, v)]
    for k in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    vrec = None
    if fresh:
        v = fresh[0]
        vrec = report(pid, mod, v, work)
        lines.append("VIOLATION property=%s replay=%s" % (pid, vrec["path"]))
        lines.append("  %s: %s" % (v["kind"], v["detail"]))
        code = 1
    evidence(pid, mod, tier, base_seed, ok, results, fresh, mism, nrep, time.time() - t0)
    fatal = [r["fatal"] for r in results if r.get("fatal")]
    errors = [e for r in ok for e in r["errors"]]
    total = sum(r["runs"] for r in ok)
    uns = {}
    for r in ok:
        for k, n in r["unsupported"].items():
            uns[k] = uns.get(k, 0) + n
    print(
        "%s %s: %d simulated runs, %d distinct schedules, faults %s, %.0f s"
        % (
            pid,
            tier,
            total,
            len(set(f for r in ok for f in r["fps"])),
            json.dumps(merge(ok, "faults"), sort_keys=True),
            time.time() - t0,
        )
    )
    if mism:
        print("note: %d of %d repeated seeds gave a different event log" % (mism, nrep))
    for e in errors[:3]:
        print("harness-error seed=%s %s" % (e["seed"], e["error"]))
    for f in fatal[:2]:
        print("worker-failed: %s" % f)
    if uns:
        print("unsupported: %s" % json.dumps(uns))
    for ln in lines:
        print(ln)
    import shutil

    shutil.rmtree(work, ignore_errors=True)
    n_err = sum(r["n_errors"] for r in ok)
    if code == 0 and (not ok or n_err > total * 0.5):
        # the library cannot even be driven: every run fails outside the oracle
        if fatal and all("graph_ensembles" in f for f in fatal) and not ok:
            path = os.path.join(REPLAYS, "%s-import.json" % pid)
            os.makedirs(REPLAYS, exist_ok=True)
            json.dump({"property": pid, "fatal": fatal[0]}, open(path, "w"))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  the library cannot be imported or driven at all")
            return 1
        return 3
    return code


def merge(ok, key):
    d = {}
    for r in ok:
        for k, v in r[key].items():
            d[k] = d.get(k, 0) + v
    return d


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("known", []) if k["property"] == pid]


def matches_known(known, v):
    return any(
        k["kind"] == v["kind"] and k.get("match", "\0") in v["detail"] for k in known
    )


def report(pid, mod, v, work):
    """Minimise in a subprocess (right interpreter mode) and write the replay."""
    os.makedirs(REPLAYS, exist_ok=True)
    rec = {"property": pid, "variant": v.get("variant"), "seed": v.get("seed"),
           "kind": v["kind"], "detail": v["detail"], "choices": v.get("choices")}
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, v.get("seed")))
    rec["path"] = path
    json.dump(rec, open(path, "w"), indent=1)
    if v.get("choices") is not None:
        budget = 60
        p = spawn(["--minimise", path, budget], v["variant"])
        try:
            p.communicate(timeout=budget + RUN_WALL + 60)
        except subprocess.TimeoutExpired:
            p.kill()
    return rec


def minimise_file(path, budget):
    setup_paths()
    from . import core

    rec = json.load(open(path))
    mod = load(rec["property"])
    last = {}

    def go(choices):
        status, ctl, info = run_one(mod, replay=choices, variant=rec["variant"])
        if status == "violation":
            last[tuple(choices)] = (info, ctl)
            return info[0]
        return None

    n0 = len(rec["choices"])
    best, used = core.minimise(
        go, rec["choices"], budget=400, deadline=time.time() + float(budget)
    )
    kind = go(best)
    if kind is None:
        rec["note"] = "did not reproduce from its own record"
    else:
        info, ctl = last[tuple(best)]
        rec.update(
            choices=best,
            kind=info[0],
            detail=info[1],
            trace=ctl.trace,
            faults=ctl.faults,
            minimised={"from": n0, "to": len(best), "executions": used},
        )
    json.dump(rec, open(path, "w"), indent=1)


def replay_file(path):
    rec = json.load(open(path))
    if "choices" not in rec or rec["choices"] is None:
        if rec.get("seed") is None:
            print("nothing to replay")
            return 0
    e = env_for(rec.get("variant") or "int")
    if os.environ.get("GE_SIM_CHILD") != "1":
        e["GE_SIM_CHILD"] = "1"
        return subprocess.call([sys.executable, "-B", CHECK, "--replay", path], env=e, cwd=VERIF)
    setup_paths()
    mod = load(rec["property"])
    status, ctl, info = run_one(
        mod,
        seed=rec["seed"] if rec.get("choices") is None else None,
        replay=rec.get("choices"),
        variant=rec.get("variant"),
    )
    for t in ctl.trace:
        print("  " + t)
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print("  %s: %s" % info)
        return 1
    print("no violation (%s) %s" % (status, info or ""))
    return 0


def evidence(pid, mod, tier, seed, ok, results, fresh, mism, nrep, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    runs = sum(r["runs"] for r in ok)
    fps = set(f for r in ok for f in r["fps"])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(fps),
        "rule": mod.RULE,
        "samples": [s for r in ok for s in r["samples"]][:4] or ["none"],
        "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
        "seeds": "one per run, from VERIF_SEED=%d" % seed,
        "discarded_runs": sum(r["discards"] for r in ok),
        "unsupported_runs": sum(sum(r["unsupported"].values()) for r in ok),
        "harness_errors": sum(r["n_errors"] for r in ok),
        "simulated_seconds": round(sum(r["sim_time"] for r in ok), 1),
        "scheduling_decisions": sum(r["steps"] for r in ok),
        "nontrivial_runs": sum(r["nontrivial"] for r in ok),
        "faults_injected": merge(ok, "faults"),
        "reached": merge(ok, "labels"),
        "counters": merge(ok, "stats"),
        "runs_by_mode": {
            v: sum(r["runs"] for r in ok if r["variant"] == v)
            for v in sorted(set(r["variant"] for r in ok))
        },
        "determinism": {"seeds_repeated_in_another_process": nrep, "different_event_log": mism},
        "wall_limit_hit": any(r.get("truncated") for r in ok),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
    }
    rec = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1)


def setup():
    """Nothing to build: checks import /repo/src directly. Prove it imports."""
    p = subprocess.run(
        [sys.executable, "-B", "-c",
         "import sim.runner as r; r.setup_paths(); import graph_ensembles.sparse, graph_ensembles.spark, sim.spark"],
        env=env_for("int"), cwd=VERIF)
    return p.returncode


def main(argv):
    if argv[0] == "--setup":
        return setup()
    if argv[0] == "--worker":
        pid, variant, start, count, stride, out, wall = argv[1:8]
        prog = argv[8] if len(argv) > 8 else None
        worker(pid, variant, int(start), int(count), int(stride), out, float(wall), prog)
        return 0
    if argv[0] == "--minimise":
        minimise_file(argv[1], float(argv[2]))
        return 0
    if argv[0] == "--replay":
        return replay_file(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(pid, tier, seed)
