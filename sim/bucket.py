"""A simulation process: reads a job as JSON on stdin, writes its result as JSON to a file.

jobs: {"do": "explore", "prop", "seed", "bucket", "scenarios", "variants", "cap"}
      {"do": "replay", "prop", "runs": [scenario, ...]}
      {"do": "judge", "spec", "weights", "x"}      the output of a new object, alone
      {"do": "restore", "states": [...]}           objects recreated from what was saved
"""
import json
import os
import subprocess
import sys
import time
import traceback
import zlib

started = time.time()


def main():
    job = json.load(sys.stdin)
    out = job["out"]
    sys.stdout = sys.stderr
    try:
        from sim import boot

        boot.start()
        result = globals()["do_" + job["do"]](job)
    except BaseException as e:  # noqa: reported to the parent
        result = {"harness_error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()}
    result["wall"] = time.time() - started
    with open(out + ".tmp", "w") as f:
        json.dump(result, f, default=plain)
    os.replace(out + ".tmp", out)
    sys.stderr.flush()
    os._exit(0)  # threads of a run that was given up may still exist


def plain(value):
    import numpy as np

    if isinstance(value, np.ndarray):
        return value.tolist()
    if isinstance(value, np.generic):
        return value.item()
    if isinstance(value, (set, frozenset, tuple)):
        return sorted(value)
    raise TypeError(type(value))


STRICT = {"C08", "C10"}


def make_run(scenario, prop):
    from sim import engine

    return engine.Run(scenario, strict=prop in STRICT, judge=judge)


def execute(scenario, prop):
    """(run, violation text or None)"""
    from sim import world

    run = make_run(scenario, prop)
    try:
        run.run()
    except world.Violation as e:
        return run, str(e)
    except world.SkipRun:
        run.skipped = True
    return run, None


# --------------------------------------------------------------------------------------------


class Totals:
    def __init__(self):
        self.d = {
            "runs": 0, "steps": 0, "preemptions": 0, "faults": 0, "lock_waits": 0, "ops": 0,
            "calls": 0, "errors": 0, "looks": 0, "nontrivial": 0, "skipped": 0,
        }
        self.fault_counts, self.digests, self.schedules = {}, set(), set()
        self.pairs, self.sites, self.op_counts = set(), set(), {}
        self.digest = 0
        self.samples = []

    def add(self, run, scenario):
        d = self.d
        d["runs"] += 1
        for key, value in run.stats.items():
            d[key] = d.get(key, 0) + value
        d["skipped"] += getattr(run, "skipped", False)
        sim = getattr(run, "first_sim", None) or run.sim
        if sim is None:
            return
        for key in ("steps", "preemptions", "faults", "lock_waits"):
            d[key] += sim.counters[key]
        for k, v in sim.fault_counts.items():
            self.fault_counts[k] = self.fault_counts.get(k, 0) + v
        for rec in run.recs:
            name = rec.op["do"] + (":" + rec.op["mode"] if rec.op.get("mode") else "")
            if rec.op["do"] == "restart":
                name += ":" + rec.op["how"]
            if rec.info == "raised":
                self.fault_counts["user function"] = self.fault_counts.get("user function", 0) + 1
            if rec.info == "skipped":
                name = "skipped"
            if rec.op["do"] == "bad" or rec.op.get("bad") or rec.op.get("expect"):
                self.fault_counts["bad input"] = self.fault_counts.get("bad input", 0) + 1
            self.op_counts[name] = self.op_counts.get(name, 0) + 1
        full = zlib.crc32(json.dumps(scenario, sort_keys=True, default=list).encode(), sim.digest & 0xFFFFFFFF)
        nontrivial = bool(sim.counters["preemptions"] or sim.counters["faults"]
                          or any(r.info == "raised" or r.error is not None for r in run.recs)
                          or len(run.recs) > 3)
        if nontrivial and full not in self.digests:
            d["nontrivial"] += 1
        self.digests.add(full)
        if sim.counters["preemptions"]:
            self.schedules.add(sim.switch_digest)
        self.pairs |= sim.pairs
        self.sites |= sim.fault_sites
        self.digest = zlib.crc32(str(sim.digest).encode(), self.digest)
        self.digest = zlib.crc32(outcome(run).encode(), self.digest)

    def result(self):
        return {
            **self.d, "fault_counts": self.fault_counts, "digests": sorted(self.digests),
            "schedules": sorted(self.schedules), "pairs": sorted(map(list, self.pairs)),
            "sites": sorted(self.sites), "op_counts": self.op_counts, "digest": self.digest,
            "samples": self.samples,
        }


def outcome(run):
    """Text of what happened, to compare executions."""
    import numpy as np

    parts = []
    for rec in run.recs:
        out = rec.out
        if isinstance(out, np.ndarray):
            out = zlib.crc32(np.round(out.astype("float64"), 3).tobytes())
        elif isinstance(out, (dict,)) or callable(out):
            out = "..."
        elif isinstance(out, tuple) and out and not isinstance(out[0], (int, type(None))):
            out = "..."
        parts.append(f"{rec.op['id']}{rec.inv}-{rec.ret}{type(rec.error).__name__}{out}")
    return "|".join(parts)


def do_explore(job):
    from sim import gen as generators
    from sim import world

    prop = job["prop"]
    rng = world.sub_rng(job["seed"], prop, job["bucket"])
    gen = generators.Gen(prop, rng, job["seed"], job["bucket"])
    gen.setup(job["bucket"])
    totals, history, states = Totals(), [], []
    result = {"violation": None}
    capped = False

    def attempt(sc):
        history.append(sc)
        run, violation = execute(sc, prop)
        totals.add(run, sc)
        if len(totals.samples) < 1 and len(history) > 3 and (sc["switches"] or sc["faults"]):
            totals.samples.append(sample(sc, run, violation))
        if violation is not None:
            result.update(violation=violation, history=history)
        elif "fresh" in sc:
            states.extend(saved_states(run, sc))
        return run, violation

    for i in range(job["scenarios"]):
        if time.time() - started > job["cap"]:
            capped = True
            break
        sc = gen.scenario(i)
        sc.update(switches=[], faults=[])
        if rng.random() < 0.25:
            profile = generators.guess_profile(sc)
        else:
            run, violation = attempt(sc)
            if violation is not None:
                break
            profile = generators.profile_of(run)
        for _ in range(job["variants"]):
            if result["violation"] or (len(sc["threads"]) == 1 and not sc["fault_ops"]):
                break
            attempt(generators.vary(rng, sc, profile))
        if result["violation"]:
            break
    if result["violation"] is None and states:
        chosen = states if len(states) <= 40 else rng.sample(states, 40)
        text = check_fresh([s for s, _ in chosen])
        totals.d["restored in a new process"] = len(chosen)
        if text is not None:
            index, text = text
            result.update(violation=text, history=[chosen[index][1]])
    return {**result, **totals.result(), "bucket": job["bucket"], "capped": capped,
            "palette": len(gen.palette), "planned": job["scenarios"]}


def sample(sc, run, violation):
    return {
        "threads": [[brief_op(o) for o in ops] for ops in sc["threads"]],
        "objects": [o["spec"]["cfgs"] for o in sc["objs"]][:1],
        "switches": sc["switches"][:6], "faults": sc["faults"],
        "outcome": [f"{r.op['id']} {r.op['do']} [{r.inv},{r.ret}] "
                    f"{'failed: ' + type(r.error).__name__ if r.error is not None else 'ok'}" for r in run.recs][:12],
    }


def brief_op(op):
    return " ".join(str(op[k]) for k in ("id", "do", "mode", "kind", "how", "via") if k in op)


def do_replay(job):
    totals = Totals()
    for n, sc in enumerate(job["runs"]):
        run, violation = execute(sc, job["prop"])
        totals.add(run, sc)
        if violation is None and "fresh" in sc and n == len(job["runs"]) - 1:
            text = check_fresh(saved_states(run, sc, keep=True), limit=99)
            violation = text and text[1]
        if violation is not None:
            return {"violation": violation, "at": n, **totals.result()}
    return {"violation": None, **totals.result()}


# --------------------------------------------------------------------------------------------
# other processes


def child(job, timeout=240):
    """Run a job in a new process."""
    import tempfile

    from sim import boot

    scratch = os.environ.get("TMPDIR") or "/tmp"
    fd, out = tempfile.mkstemp(dir=scratch, suffix=".json")
    os.close(fd)
    job["out"] = out
    p = subprocess.run(
        [boot.PYTHON, "-m", "sim.bucket"], input=json.dumps(job, default=plain), text=True,
        cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        env=boot.environment(scratch), stderr=subprocess.PIPE, timeout=timeout,
    )
    text = open(out).read()
    os.unlink(out)
    if not text:
        raise RuntimeError(f"process failed: {p.stderr[-2000:]}")
    result = json.loads(text)
    if "harness_error" in result:
        raise RuntimeError(result["harness_error"] + "\n" + result.get("trace", ""))
    return result


JUDGED = {}


def judge(obj, weights, x):
    """Second opinion: what a new object says in a process in which there is nothing else."""
    import numpy as np

    key = json.dumps([obj.spec, x], sort_keys=True) + str([w.tobytes() for ws in weights for w in ws])
    if key not in JUDGED:
        result = child({"do": "judge", "spec": obj.spec, "weights": weights, "x": x})
        JUDGED[key] = RuntimeError(result["error"]) if "error" in result else np.array(result["y"])
    return JUDGED[key]


def do_judge(job):
    import numpy as np

    from sim import world

    weights = [[np.array(w, "float32") for w in ws] for ws in job["weights"]]
    try:
        obj = world.Obj(job["spec"], size=list(job["x"]["n"]))
        obj.assign(weights)
        return {"y": np.asarray(obj.keras(obj.input(job["x"]))).astype("float64")}
    except Exception as e:
        return {"error": f"{type(e).__name__}: {e}"}


def saved_states(run, sc, keep=False):
    """What was on disk when the processes of this run crashed."""
    states = []
    for rec in run.recs:
        if rec.op["do"] == "save" and rec.error is None and rec.out:
            if not keep and zlib.crc32(f"{sc['fresh']['seed']}{rec.inv}".encode()) % 4:
                continue  # a sample of them
            obj = run.objs[rec.op["o"]]
            states.append(({
                "spec": obj.spec, "configs": rec.out["configs"], "weights": rec.out["weights"],
                "x": sc["fresh"]["x"], "size": obj.size,
            }, sc))
    return states if not keep else [s for s, _ in states]


def check_fresh(states, limit=40):
    """Restore the states in a new process and compare; (index, text) of the first violation."""
    from sim import engine, world

    states = states[:limit]
    if not states:
        return None
    result = child({"do": "restore", "states": states}, timeout=600)
    import numpy as np

    for i, (state, got) in enumerate(zip(states, result["restored"])):
        obj = world.Obj.__new__(world.Obj)
        obj.spec, obj.cfgs, obj.is_model = state["spec"], state["spec"]["cfgs"], state["spec"]["type"] == "model"
        what = f"{state['spec']['cfgs'][0]['kind']} restored in a new process"
        if "error" in got:
            return i, f"{what} failed: {got['error']}"
        weights = [[np.asarray(w, "float32") for w in ws] for ws in state["weights"]]
        if got["configs"] != state["configs"]:
            bad = next((a, b) for a, b in zip(got["configs"], state["configs"]) if a != b)
            return i, f"{what} has another config: {first_difference(*bad)}"
        for x, y in zip(state["x"], got["y"]):
            want = world.expect(obj, x, weights)
            y = np.asarray(y)
            if not world.close(y, want) and not engine.agrees(y, judge(obj, weights, x)):
                return i, f"{what}: output {world.brief(y)}, expected {world.brief(want)}"
        for kind, accepted in got.get("bad", {}).items():
            if accepted:
                return i, f"{what} accepts an input with a wrong {kind}"
        for size, accepted in got.get("sizes", []):
            if accepted:
                return i, f"{what} accepts an input of size {size}"
    return None


def first_difference(a, b):
    a, b = json.loads(a), json.loads(b)
    for key in sorted(set(a) | set(b)):
        if a.get(key) != b.get(key):
            return f"{key}={a.get(key)!r}, saved {b.get(key)!r}"
    return "order of keys"


def do_restore(job):
    import numpy as np

    from sim import durable, engine, ref, world

    restored = []
    for state in job["states"]:
        try:
            obj = world.Obj.__new__(world.Obj)
            obj.spec, obj.cfgs = state["spec"], state["spec"]["cfgs"]
            obj.is_model, obj.size = state["spec"]["type"] == "model", state["size"]
            layers = [durable.revive_layer(c, t) for c, t in zip(obj.cfgs, state["configs"])]
            obj.keras = durable.assemble(obj, layers)
            obj.build(obj.size)
            obj.assign([[np.array(w, "float32") for w in ws] for ws in state["weights"]])
            got = {"configs": [json.dumps(world.json_config(l)) for l in obj.layers()], "y": [], "bad": {}, "sizes": []}
            for x in state["x"]:
                got["y"].append(np.asarray(obj.keras(obj.input(x))))
            if not obj.is_model:
                for kind in engine.bad_kinds(obj.cfgs[0]):
                    got["bad"][kind] = accepts(obj, engine.bad_input(obj, state["x"][0], kind))
                for size in obj.cfgs[0].get("bad_sizes", []):
                    got["sizes"].append([size, accepts(obj, obj.input({**state["x"][0], "n": size}))])
            restored.append(got)
        except Exception as e:
            restored.append({"error": f"{type(e).__name__}: {engine.first_line(e)}"})
    return {"restored": restored}


def do_known(job):
    """Whether the inputs of known findings are handled correctly by now."""
    from sim import engine, world

    holds = []
    for item in job["inputs"]:
        spec = {"type": "layer", "cfgs": [item["cfg"]], "sizes": [item["size"]]}
        obj = world.Obj(spec, seed=3)
        holds.append(engine.equivariance(obj, {"s": 1, "n": item["size"], "b": 2}) is None)
    return {"holds": holds}


def accepts(obj, a):
    try:
        obj.keras(a)
        return True
    except Exception:
        return False


if __name__ == "__main__":
    from sim import bucket

    bucket.main()
