#!/usr/bin/env python3
"""Check of one property by deterministic simulation of /repo's working tree.

    python3 check.py C01 [--tier quick|thorough] [--seed N]
    python3 check.py --replay FILE

Exit 0: the property held in every simulated run.  Exit 1: it did not, and a line
"VIOLATION property=<id> replay=<file>" names a minimised replay file.  Exit 2: no answer.
"""
import argparse
import concurrent.futures as futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot, plans  # noqa

WORKERS = int(os.environ.get("GROCO_SIM_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
started = time.time()


class Pool:
    """Runs jobs in processes of their own."""

    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix="groco-check-")
        self.stopped = False
        self.running = set()
        self.lock = threading.Lock()
        self.n = 0

    def job(self, job, hashseed="0", timeout=600):
        with self.lock:
            if self.stopped:
                return {"stopped": True}
            self.n += 1
            own = os.path.join(self.scratch, f"job{self.n}")
            os.makedirs(own)
        out = os.path.join(own, "result.json")
        p = subprocess.Popen(
            [boot.PYTHON, "-m", "sim.bucket"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
            stderr=open(os.path.join(own, "stderr"), "w"), text=True, cwd=HERE,
            env=boot.environment(own, hashseed), start_new_session=True,
        )
        with self.lock:
            self.running.add(p)
        try:
            p.communicate(json.dumps({**job, "out": out}), timeout=timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            return {"harness_error": f"no answer within {timeout} s"}
        finally:
            with self.lock:
                self.running.discard(p)
        if self.stopped and not os.path.exists(out):
            return {"stopped": True}
        if not os.path.exists(out):
            text = open(os.path.join(own, "stderr")).read()[-1500:]
            return {"harness_error": f"process ended with {p.returncode}: {text}"}
        with open(out) as f:
            result = json.load(f)
        shutil.rmtree(own, ignore_errors=True)
        return result

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.running:
                kill(p)

    def resume(self):
        self.stopped = False

    def close(self):
        self.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)


def kill(p):
    import signal

    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


# --------------------------------------------------------------------------------------------
# minimisation


def reductions(runs):
    """Smaller versions of a failing sequence of runs, the most reducing first."""
    def replaced(i, **change):
        new = list(runs)
        new[i] = {**new[i], **change}
        return new

    n = len(runs)
    chunk = n - 1
    while chunk >= 1:  # earlier runs
        for at in range(0, n - 1, chunk):
            yield runs[:at] + runs[min(at + chunk, n - 1):]
        chunk //= 2
    for i in sorted(range(n), key=lambda i: -i):
        sc = runs[i]
        for key in ("switches", "faults"):
            items = sc.get(key, [])
            size = len(items)
            while size >= 1:
                for at in range(0, len(items), size):
                    yield replaced(i, **{key: items[:at] + items[at + size:]})
                size //= 2
        for key in ("after",):
            items = sc.get(key, [])
            size = len(items)
            while size >= 1:
                for at in range(0, len(items), size):
                    yield replaced(i, **{key: items[:at] + items[at + size:]})
                size //= 2
        threads = sc["threads"]
        for t, ops in enumerate(threads):
            size = len(ops)
            while size >= 1:
                for at in range(0, len(ops), size):
                    new = [list(o) for o in threads]
                    new[t] = ops[:at] + ops[at + size:]
                    if any(new):
                        yield replaced(i, threads=new)
                size //= 2
        for t, ops in enumerate(threads):
            for j, op in enumerate(ops):
                if op.get("hook"):
                    new = [list(o) for o in threads]
                    new[t][j] = {k: v for k, v in op.items() if k != "hook"}
                    yield replaced(i, threads=new)
                if op.get("mode") not in (None, "eager"):
                    new = [list(o) for o in threads]
                    new[t][j] = {**op, "mode": "eager"}
                    yield replaced(i, threads=new)


def minimise(pool, prop, runs, seconds):
    """Greedy reduction with trials in new processes; returns (runs, violation, trials)."""
    end = time.time() + seconds
    trials = 0

    def trial(candidate):
        r = pool.job({"do": "replay", "prop": prop, "runs": candidate}, timeout=300)
        return r.get("violation"), r.get("at")

    with futures.ThreadPoolExecutor(WORKERS) as ex:
        best = None
        for attempt in ([runs[-1:]] if len(runs) > 1 else []) + [runs, runs]:
            violation, at = trial(attempt)
            trials += 1
            if violation:
                best, text = attempt[: (at or 0) + 1], violation
                break
        if best is None:
            return None, None, trials
        seen = set()
        progress = True
        while progress and time.time() < end:
            progress = False
            pending = []
            for candidate in reductions(best):
                key = hashlib.sha1(json.dumps(candidate, sort_keys=True).encode()).hexdigest()
                if key not in seen:
                    seen.add(key)
                    pending.append(candidate)
            for at in range(0, len(pending), WORKERS):
                if time.time() > end:
                    break
                group = pending[at : at + WORKERS]
                results = list(ex.map(trial, group))
                trials += len(group)
                good = [(c, v, n) for c, (v, n) in zip(group, results) if v]
                if good:
                    candidate, text, n = good[0]
                    best = candidate[: (n or 0) + 1]
                    progress = True
                    break
    return best, text, trials


# --------------------------------------------------------------------------------------------


def report(pool, prop, seed, tier, result):
    """Minimise, confirm and write down a violation."""
    budget = 100 if tier == "quick" else 300
    runs, text, trials = minimise(pool, prop, result["history"], budget)
    if runs is None:
        print(f"violation seen but not reproduced in a new process: {result['violation']}")
        return None
    again = pool.job({"do": "replay", "prop": prop, "runs": runs}, timeout=300)
    again2 = pool.job({"do": "replay", "prop": prop, "runs": runs}, hashseed="7", timeout=300)
    exact = again.get("violation") == text and again2.get("violation") == text \
        and again.get("digest") == again2.get("digest")
    replay = {
        "property": prop, "seed": seed, "tier": tier, "bucket": result["bucket"], "violation": text,
        "first_seen_as": result["violation"], "replays_exactly": exact, "digest": again.get("digest"),
        "trials": trials, "runs": runs,
    }
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    name = hashlib.sha1(json.dumps(runs, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(folder, f"{prop}-{seed}-{name}.json")
    with open(path, "w") as f:
        json.dump(replay, f, indent=1)
    sc = runs[-1]
    print(f"{prop}: {text}")
    print(f"  after {len(runs)} run(s), last one with {sum(map(len, sc['threads']))} operations in "
          f"{len(sc['threads'])} thread(s), {len(sc['switches'])} switches, {len(sc['faults'])} faults; "
          f"{trials} trials, replays exactly: {exact}")
    return path


def merge(results):
    total = {}
    for key in ("runs", "steps", "preemptions", "faults", "lock_waits", "ops", "calls", "errors",
                "looks", "nontrivial", "skipped", "repeated", "crashes", "gradients",
                "restored in a new process"):
        total[key] = sum(r.get(key, 0) for r in results)
    for key in ("fault_counts", "op_counts"):
        total[key] = {}
        for r in results:
            for k, v in r[key].items():
                total[key][k] = total[key].get(k, 0) + v
        total[key] = dict(sorted(total[key].items()))
    for key in ("digests", "schedules", "sites"):
        total[key] = set().union(*[r[key] for r in results]) if results else set()
    total["pairs"] = set().union(*[{tuple(p) for p in r["pairs"]} for r in results]) if results else set()
    return total


def known_findings(pool, prop):
    """Print a line for each listed finding that is still there."""
    findings = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=" + prop + " "):
                head, what = line.strip().split(" -- ", 1)
                findings.append((json.loads(head.split("input=", 1)[1]), what))
    if not findings:
        return 0, None
    r = pool.job({"do": "known", "inputs": [f[0] for f in findings]})
    if "holds" not in r:
        return 0, f"known findings could not be looked at: {r}"
    count = 0
    for (_, what), holds in zip(findings, r["holds"]):
        if not holds:
            print(f"KNOWN-FINDING: property={prop} {what}")
            count += 1
    return count, None


def check(prop, tier, seed):
    plan = plans.PLANS[prop][tier]
    pool = Pool()
    print(f"{prop} tier={tier} seed={seed} buckets={plan['buckets']} workers={WORKERS}", flush=True)
    try:
        known, error = known_findings(pool, prop)
        if error:
            print(error)
            return 2
        jobs = [
            {"do": "explore", "prop": prop, "seed": seed, "bucket": b, "scenarios": plan["scenarios"],
             "variants": plan["variants"], "cap": plan["cap"], "tier": tier}
            for b in range(plan["buckets"])
        ]
        # one bucket twice, with other hashing, to see that a seed is one execution
        results, errors, twin = {}, [], None
        with futures.ThreadPoolExecutor(WORKERS) as ex:
            todo = {ex.submit(pool.job, j, "0", plan["cap"] * 2 + 300): j["bucket"] for j in jobs}
            twin_job = ex.submit(pool.job, jobs[0], "4242", plan["cap"] * 2 + 300)
            for done in futures.as_completed(todo):
                r = done.result()
                b = todo[done]
                if "harness_error" in r:
                    errors.append((b, r["harness_error"], r.get("trace", "")))
                elif not r.get("stopped"):
                    results[b] = r
                    if r["violation"]:
                        pool.stop()
            twin = twin_job.result()
        pool.resume()
        broken = [results[b] for b in sorted(results) if results[b]["violation"]]
        path = None
        for r in broken[:3]:
            path = report(pool, prop, seed, tier, r)
            if path:
                break
        same = None
        if 0 in results and "digest" in twin and not results[0]["capped"] and not twin["capped"]:
            same = twin["digest"] == results[0]["digest"]
        write_evidence(prop, tier, seed, plan, list(results.values()), len(broken), same, known)
        if path:
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return 1
        for b, e, trace in errors[:3]:
            print(f"bucket {b}: {e}\n{trace}")
        runs = sum(r["runs"] for r in results.values())
        capped = sum(r["capped"] for r in results.values())
        print(f"{prop}: {runs} runs in {len(results)} processes, {time.time() - started:.0f} s, "
              f"same execution twice: {same}" + (f", {capped} processes stopped early" if capped else ""))
        if broken or errors or not runs:
            return 2
        if capped > plan["buckets"] / 2 and runs < plan["buckets"] * plan["scenarios"] / 4:
            print("too slow to explore a meaningful number of runs")
            return 2
        return 0
    finally:
        pool.close()


def write_evidence(prop, tier, seed, plan, results, violations, same, known):
    t = merge(results)
    wall = time.time() - started
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": plans.LEVEL, "wall_s": round(wall, 1),
        "violations": violations,
        "coverage": {
            "evaluations": t["runs"],
            "distinct_nontrivial": len(t["digests"]) and min(t["nontrivial"], len(t["digests"])),
            "rule": plans.RULE + " " + plans.PLANS[prop]["rule"],
            "samples": [s for r in results for s in r.get("samples", [])][:3],
            "simulated runs per hour": round(t["runs"] / wall * 3600) if wall else 0,
            "seeds": {"top": seed, "buckets (one derived seed each)": len(results),
                      "buckets per hour": round(len(results) / wall * 3600) if wall else 0},
            "simulated time": {
                "scheduler steps": t["steps"],
                "note": "the code has no clocks or timers; time is the number of preemption points passed",
            },
            "faults fired": t["fault_counts"],
            "fault sites (function in which it struck)": len(t["sites"]),
            "context switches inside operations": t["preemptions"],
            "waits for simulated locks": t["lock_waits"],
            "distinct interleavings": {
                "schedules (sequence of thread and source line of each switch)": len(t["schedules"]),
                "pairs of functions suspended and resumed in": len(t["pairs"]),
                "executions (hash of all steps)": len(t["digests"]),
            },
            "operations": t["op_counts"], "operations judged": t["ops"], "operations that failed": t["errors"],
            "training steps repeated": t["repeated"], "crashes": t["crashes"],
            "gradients compared with the reference model": t["gradients"],
            "states restored in a new process": t["restored in a new process"],
            "same digest in a second process with other hashing": same,
            "known findings seen": known,
            "components": plans.COMPONENTS,
        },
        "assumptions": plans.ASSUMPTIONS,
    }
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        saved = json.load(f)
    pool = Pool()
    try:
        r = pool.job({"do": "replay", "prop": saved["property"], "runs": saved["runs"]})
    finally:
        pool.close()
    if "harness_error" in r:
        print(r["harness_error"], r.get("trace", ""))
        return 2
    if r["violation"]:
        print(r["violation"])
        print(f"digest {r['digest']}, recorded {saved.get('digest')}")
        print(f"VIOLATION property={saved['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    p.add_argument("--setup", action="store_true", help="only see that what the checks need is there")
    a = p.parse_args()
    if a.setup:
        with tempfile.TemporaryDirectory(prefix="groco-check-") as scratch:
            return subprocess.run([boot.PYTHON, "-c", "import keras, jax, numpy; print(keras.__version__, jax.__version__)"],
                                  env=boot.environment(scratch)).returncode
    if a.replay:
        return replay(a.replay)
    if a.property not in plans.PLANS:
        p.error(f"unknown property {a.property}")
    return check(a.property, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
