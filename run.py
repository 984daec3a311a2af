#!/opt/venv/bin/python
"""Decides one property by symbolic execution of the code in /repo.

    run.py C01 [--tier quick|thorough]   explore; exit 0, or 1 with a VIOLATION line
    run.py --replay FILE                 re-run a counterexample on the unmodified code
    run.py --validate FILE               re-run sampled paths on the unmodified code
    run.py --selftest                    checks of the engine itself
"""

import argparse
import concurrent.futures as cf
import importlib
import json
import logging
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
JOBS = int(os.environ.get("SYMX_JOBS", "8"))
PATH_LIMIT_S = 20  # one path that computes longer is stuck
_clock = time.perf_counter

clock = time.perf_counter


def load(pid, mode):
    """Imports the property's harnesses, and with them the code under test."""
    from symx import ctx, harness, loop, rewrite, values

    loop.install_time()
    ctx.install_random()
    values.install_math()
    rewrite.install(REPO, "aiok8s", mode)
    rewrite.install(HERE, "props", mode)
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
    _watch_functions()
    mod = importlib.import_module(f"props.{pid.lower()}")
    return mod, [h for h in harness.REGISTRY if h.fn.__module__ == mod.__name__]


FUNCS = set()


def _watch_functions():
    """Notes which functions of the code under test are executed."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "symx")
    prefix = os.path.join(REPO, "aiok8s") + os.sep

    def start(code, offset):
        if code.co_filename.startswith(prefix):
            FUNCS.add(f"{code.co_filename[len(prefix):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class Stuck(BaseException):
    pass


_PATH = [0, 0, 0]  # processor, solver and wall clock time at the start of the path


def _arm(eng):
    _PATH[:] = [time.process_time(), eng.stats.solver_s, _clock()]
    signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)


def _alarm(signum, frame):
    from symx import core

    e = core.ENGINE
    if e is not None:
        # On a busy machine a path may take long, as may the solver.
        solver = e.stats.solver_s - _PATH[1]
        if e.asked is not None:
            # A handler runs as soon as the solver returns, before its time is counted.
            solver += _clock() - e.asked
        used = time.process_time() - _PATH[0] - solver
        if used < 0.9 * PATH_LIMIT_S and _clock() - _PATH[2] < 8 * PATH_LIMIT_S:
            signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S / 4)
            return
    exc = Stuck("stuck")
    if e is not None and e.abort is None:
        e.abort = exc
    raise exc


def slice_(job):
    """Worker: explores the subtree under one prefix for a while."""
    import gc

    from symx import core, ctx

    hi, params, prefix, max_s, want, seed = job
    h = _REG[hi]
    tolerate = {msg for name, msg in known_findings(_PID) if name == h.name}
    gc.disable()
    run = ctx.run_symbolic(lambda sx: h.fn(sx, **params))
    count = 0

    def one(eng):
        nonlocal count
        count += 1
        if count % 64 == 0:
            # Finalizers of leftovers must not decide anything on this path.
            e, core.ENGINE = core.ENGINE, None
            gc.collect()
            core.ENGINE = e
        _arm(eng)
        try:
            run(eng)
        except Stuck:
            eng.abort = None
            m = eng.model if eng.model is not None else eng._query()
            eng.violations.append(
                {"msg": "does not terminate", "values": eng.assignment(m), "notes": []}
            )
            raise core.ViolationFound("does not terminate")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    signal.signal(signal.SIGALRM, _alarm)
    out = {"hi": hi, "params": params, "error": None}
    try:
        eng, opened = core.explore(one, prefix, max_s=max_s, want_samples=want, tolerate=tolerate)
        from symx.ctx import plain

        out.update(
            stats=eng.stats.as_dict(),
            opened=opened,
            violations=[
                {"msg": str(v["msg"]), "values": jsonable(v["values"])} for v in eng.violations
            ],
            covers=sorted(eng.covers),
            samples=[
                {"values": jsonable(s["values"]), "obs": plain(s["obs"])} for s in eng.samples
            ],
        )
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()
    out["funcs"] = sorted(FUNCS)
    gc.enable()
    gc.collect()
    return out


def jsonable(vals):
    from fractions import Fraction

    return {
        k: {"q": f"{v.numerator}/{v.denominator}"} if isinstance(v, Fraction) else v
        for k, v in vals.items()
    }


def unjson(vals):
    from fractions import Fraction

    return {k: Fraction(v["q"]) if isinstance(v, dict) else v for k, v in vals.items()}


_REG = _PID = None


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith(f"known: property={pid} "):
                    # known: property=C01 harness=h message=<exact message>
                    rest = line.rstrip("\n").split(" ", 3)
                    out.append((rest[2].split("=", 1)[1], rest[3].split("=", 1)[1]))
    except FileNotFoundError:
        pass
    return out


def check(pid, tier, budget):
    global _REG, _PID
    import gc

    t0 = clock()
    mod, reg = load(pid, "symbolic")
    _REG, _PID = reg, pid
    gc.collect()
    gc.freeze()
    jobs = []
    only = os.environ.get("SYMX_ONLY", "").split()  # for development
    for hi, h in enumerate(reg):
        if only and h.name not in only:
            continue
        for params in h.params(tier):
            jobs.append((hi, params, [], 0.4, 2, 0))
    from symx.core import Stats

    # Workers that die with the master.
    ex = cf.ProcessPoolExecutor(JOBS, mp_context=mp.get_context("fork"))
    live = {ex.submit(slice_, j): j for j in jobs}
    stats = {hi: Stats() for hi in range(len(reg))}
    covers = {hi: set() for hi in range(len(reg))}
    funcs, samples, violations, errors, slices = set(), [], [], [], 0
    known = known_findings(pid)
    known_hit = set()
    incomplete = False
    while live:
        done, _ = cf.wait(live, timeout=5, return_when=cf.FIRST_COMPLETED)
        for f in done:
            hi, params, prefix, *_ = live.pop(f)
            try:
                r = f.result()
            except BaseException as e:
                errors.append(f"worker: {e!r}")
                continue
            slices += 1
            funcs.update(r["funcs"])
            if r["error"]:
                errors.append(f"{reg[hi].name} {params}: {r['error']}\n{r['trace']}")
                continue
            stats[hi].add(r["stats"])
            covers[hi].update(r["covers"])
            for s in r["samples"]:
                samples.append((hi, params, s))
            for v in r["violations"]:
                key = (reg[hi].name, v["msg"])
                if key in known:
                    known_hit.add(key)
                else:
                    violations.append((hi, params, v))
            for p in r["opened"]:
                want = 1 if len(samples) < 60 else 0
                live[ex.submit(slice_, (hi, params, p, 2.0, want, 0))] = (hi, params, p)
        if violations or errors:
            break
        if clock() - t0 > budget:
            incomplete = True
            break
    procs = list((ex._processes or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        p.kill()

    status, lines = 0, []
    if violations:
        status, lines = report(pid, reg, violations)
    elif errors:
        status = 2
        lines = ["INCONCLUSIVE: " + e for e in errors[:3]]
    elif incomplete:
        status = 2
        lines = [f"INCONCLUSIVE: exploration not finished within {budget} s"]
    missing = []
    if status == 0:
        vacuous = False
        for hi, h in enumerate(reg):
            if only and h.name not in only:
                continue
            lacking = [c for c in h.covers if c not in covers[hi]]
            missing += [f"{h.name}: {c}" for c in lacking]
            # Some situations depend on how the code goes about it
            vacuous |= 2 * len(lacking) > len(h.covers)
        if missing:
            if vacuous or os.environ.get("SYMX_STRICT"):
                status = 2
            lines.append(("NOTE" if status == 0 else "INCONCLUSIVE") + ": never reached: " + "; ".join(missing))
    validated = 0
    if status == 0:
        validated, bad = validate(pid, reg, samples)
        if bad:
            status = 2
            lines.append("INCONCLUSIVE: engine and code disagree: " + bad)
    for name, msg in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {name}: {msg}")
    for line in lines:
        print(line)
    wall = clock() - t0
    total = Stats()
    for s in stats.values():
        total.add(s.as_dict())
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.forks + total.forced,
            "traces_validated_against_impl": validated,
            "samples": [
                {"harness": reg[hi].name, "params": p, **s} for hi, p, s in samples[:6]
            ],
            "exhaustive": status == 0,
            "explanation": "Symbolic execution of the functions listed, read from /repo on this run: "
            "states are complete symbolic paths, transitions the solver-decided branches on them; "
            "every assertion is discharged by z3 for all values of a path.",
            "functions_encoded": sorted(funcs),
            "harnesses": [
                {
                    "name": h.name,
                    "bounds": " ".join(h.bounds.split()),
                    "params": h.params(tier),
                    "reached": sorted(covers[hi]),
                    "not_reached": [c for c in h.covers if c not in covers[hi]],
                    **{
                        k: (round(v, 3) if isinstance(v, float) else v)
                        for k, v in stats[hi].as_dict().items()
                    },
                }
                for hi, h in enumerate(reg)
            ],
            "queries_discharged": total.queries,
            "assertions_checked": total.checks,
            "assertions_sent_to_solver": total.checks_solver,
            "solver_s": round(total.solver_s, 3),
            "execution_s": round(total.exec_s, 3),
            "slices": slices,
            "solver": "z3 " + __import__("z3").get_version_string(),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{pid} {tier}: paths={total.paths} branches={total.forks + total.forced} "
        f"queries={total.queries} assertions={total.checks} solver={total.solver_s:.1f}s "
        f"wall={wall:.1f}s validated={validated} status={status}"
    )
    return status


COMMON_ASSUMPTIONS = [
    "Bounded: histories, sizes and schedules up to the bounds stated per harness; nothing is claimed outside them.",
    "Times, delays and random draws are exact rationals: float rounding is outside the claim.",
    "One event loop, asyncio of CPython 3.12, first-in-first-out scheduling of ready callbacks; "
    "environment actions are placed at a symbolic number of loop turns.",
    "Logging is disabled.",
]


def _sub(arg, doc, timeout, hashseed="0"):
    import tempfile

    fd, path = tempfile.mkstemp(suffix=".json", prefix="symx")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(doc, f)
        return subprocess.run(
            [PY, os.path.abspath(__file__), arg, path],
            capture_output=True, text=True, timeout=timeout,
            env={**os.environ, "SYMX_HASHSEED": hashseed},
        )
    finally:
        os.unlink(path)


def report(pid, reg, violations):
    """Replays counterexamples on the unmodified code; reports the first that reproduces."""
    lines = []
    violations.sort(key=lambda v: len(v[2]["values"]))
    for n, (hi, params, v) in enumerate(violations[:6]):
        doc = {
            "property": pid, "harness": reg[hi].name, "params": params,
            "message": v["msg"], "values": v["values"],
        }
        path = os.path.join(HERE, "evidence", f"{pid}.replay.json")
        for hashseed in "0123":
            doc["hashseed"] = hashseed
            try:
                r = _sub("--replay", doc, 60, hashseed)
                rc, out = r.returncode, r.stdout + r.stderr[-2000:]
            except subprocess.TimeoutExpired:
                rc, out = 1, "the replay does not terminate"
            if rc == 1:
                break
        if rc == 1:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            return 1, [
                f"counterexample in {doc['harness']} {params}: {v['msg']}",
                f"values: {json.dumps(v['values'])}",
                "replay on the unmodified code: " + out.strip().splitlines()[-1][:600] if out.strip() else "",
                f"VIOLATION property={pid} replay={path}",
            ]
        lines.append(
            f"INCONCLUSIVE: counterexample does not reproduce ({doc['harness']} {params}: {v['msg']}; "
            f"{json.dumps(v['values'])}): {out[-1500:]}"
        )
    return 2, lines


def validate(pid, reg, samples):
    """Re-runs sampled paths on the unmodified code and compares what was observed."""
    if not samples:
        return 0, ""
    docs = [
        {"harness": reg[hi].name, "params": p, "values": s["values"]} for hi, p, s in samples
    ]

    def observed(docs, hashseed):
        r = _sub("--validate", {"property": pid, "runs": docs}, 300, hashseed)
        return json.loads(r.stdout.splitlines()[-1]) if r.returncode == 0 else r.stderr[-1500:]

    try:
        results = observed(docs, "0")
        if isinstance(results, str):
            return 0, results
        validated = 0
        for doc, (hi, p, s), res in zip(docs, samples, results):
            if res == {"status": None, "obs": s["obs"]}:
                validated += 1
                continue
            if res["status"] is None and any(observed([doc], h) != [res] for h in "123"):
                # The order of a set of strings shows, which the engine's strings have another of.
                continue
            return 0, (
                f"{reg[hi].name} {p} values={json.dumps(s['values'])}: engine saw {s['obs']}, "
                f"the code gave {res}"
            )
    except subprocess.TimeoutExpired:
        return 0, "validation timed out"
    return validated, ""


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    if doc.get("hashseed", "0") != os.environ["PYTHONHASHSEED"]:
        again(sys.argv[1:], {"SYMX_HASHSEED": doc["hashseed"]})
    _, reg = load(doc["property"], "plain")
    import gc

    from symx import ctx

    gc.disable()
    h = next(h for h in reg if h.name == doc["harness"])
    status, log, how = ctx.run_concrete(
        lambda sx: h.fn(sx, **doc["params"]), unjson(doc["values"])
    )
    for entry in log:
        print("  ", ctx.plain(entry))
    if status is None:
        print(f"not reproduced ({how})")
        return 0
    print(f"reproduced: {status}")
    return 1


def validate_child(path):
    with open(path) as f:
        doc = json.load(f)
    _, reg = load(doc["property"], "plain")
    import gc

    from symx import ctx

    out = []
    gc.disable()
    for n, d in enumerate(doc["runs"], 1):
        if n % 16 == 0:
            gc.collect()
        h = next(h for h in reg if h.name == d["harness"])
        status, log, how = ctx.run_concrete(
            lambda sx: h.fn(sx, **d["params"]), unjson(d["values"])
        )
        if how != "ok":
            status = how
        out.append({"status": status, "obs": ctx.plain(log)})
    print(json.dumps(out))
    return 0


def again(argv, env):
    """Replaces this process by a fresh one."""
    sys.stdout.flush()
    sys.stderr.flush()
    os.execve(PY, [PY, os.path.abspath(__file__), *argv], {**os.environ, **env})


def main():
    hashseed = os.environ.get("SYMX_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != hashseed:
        # Sets of strings are to look alike in every process.
        again(sys.argv[1:], {"PYTHONHASHSEED": hashseed})
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--validate")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.validate:
        return validate_child(a.validate)
    if a.selftest:
        from symx import selftest

        return selftest.main()
    budget = a.budget or (700 if a.tier == "quick" else 840)
    t0 = clock()
    rc = check(a.property, a.tier, budget)
    if rc == 2 and not a.budget and clock() - t0 < 200 and not os.environ.get("SYMX_SECOND"):
        # No answer, which a busy machine may be the cause of: once more.
        print("once more")
        again(sys.argv[1:], {"SYMX_SECOND": "1"})
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
