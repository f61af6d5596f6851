"""Executes one scenario: builds its world, runs its threads under the scheduler, then judges the
recorded history.  A scenario is plain JSON and, with the code under test, determines everything.

scenario = {
  "prop": id,
  "objs": [{"spec": {...}, "seed": n, "built": bool, "size": [...]}],
  "threads": [[op, ...], ...],       each op has a unique label "id"
  "after": [op, ...],                by thread 0 once all threads have ended, without preemption
  "switches": [...], "faults": [...],
}
"""
import itertools
import json
import re

import jax
import jax.numpy as jnp
import keras
import numpy as np

from groco.groups import group_dict
from groco.utils import check_equivariance

from sim import core, ref, world
from sim.world import Obj, Violation, brief, close

SWALLOW_CHECKED = ("call", "act", "shape")


class Rec:
    """One operation in the history."""

    __slots__ = ("op", "inv", "ret", "out", "error", "fired", "thread", "info", "nested")

    def __init__(self, op, thread, inv):
        self.op, self.thread, self.inv = op, thread, inv
        self.ret = self.out = self.error = self.info = None
        self.fired, self.nested = [], False


class Run:
    def __init__(self, scenario, strict=False, judge=None, light=False):
        self.sc = scenario
        self.strict = strict  # only the reference model is right
        self.judge = judge  # second opinion: function(obj, weights, x) -> output or error
        self.light = light  # only count events
        self.recs = []
        self.sim = None
        self.stats = {"ops": 0, "calls": 0, "errors": 0, "looks": 0}

    # -- set up

    def prepare(self):
        self.objs = []
        for o in self.sc["objs"]:
            self.objs.append(None if o.get("lazy") else self.create(o))
        self.trainers = {}
        if self.sc.get("train"):
            from sim import train

            for o, plan in self.sc["train"].items():
                self.trainers[int(o)] = train.Trainer(self.objs[int(o)], plan)

    def create(self, o):
        built = o.get("built", True)
        try:
            obj = Obj(o["spec"], seed=o.get("seed", 0), build=built, size=o.get("size"))
        except (core.Abandoned, Violation):
            raise
        except Exception as e:
            raise Violation(f"a layer could not be made: {describe_spec(o['spec'])}: "
                            f"{type(e).__name__}: {first_line(e)}")
        obj.built0 = built
        # history of each weight: list of (invoked, returned or None, value)
        obj.writes = [[[(-1, -1, w)] for w in layer] for layer in obj.weights]
        obj.identity = world.identities(obj) if built else None
        obj.discarded = obj.spoiled = False
        obj.only_builds = True
        return obj

    def execute(self):
        core_sim = core.Sim(self.sc.get("switches", ()), self.sc.get("faults", ()))
        self.sim = core_sim
        for tid, ops in enumerate(self.sc["threads"]):
            core_sim.spawn(lambda ops=ops, tid=tid: self.body(tid, ops))
        core_sim.run()
        self.first_sim = core_sim
        after = self.sc.get("after")
        if after:
            sim = core.Sim((), self.sc.get("faults", ()))
            sim.clock = core_sim.clock
            sim.op_log = core_sim.op_log
            self.sim = sim
            sim.spawn(lambda: self.body(0, after))
            sim.run()
            core_sim.counters["steps"] += sim.counters["steps"]
            core_sim.counters["faults"] += sim.counters["faults"]
            for k, v in sim.fault_counts.items():
                core_sim.fault_counts[k] = core_sim.fault_counts.get(k, 0) + v
            core_sim.fault_sites |= sim.fault_sites
            core_sim.digest = core_sim.digest * 31 + sim.digest
            self.sim = core_sim

    def run(self):
        try:
            self.prepare()
            try:
                self.execute()
            except core.Deadlock as e:
                raise Violation(f"no progress: {e}")
            self.verify()
        finally:
            for rec in self.recs:
                self.stats["ops"] += 1
                self.stats["errors"] += rec.error is not None
        return self

    # -- threads

    def body(self, tid, ops):
        for op in ops:
            self.perform(tid, op)

    def perform(self, tid, op, nested=False):
        sim = self.sim
        rec = Rec(op, tid, sim.tick())
        rec.nested = nested
        self.recs.append(rec)
        me = sim.me()
        previous = getattr(me, "hook", None)
        me.hook = self.make_hook(tid, op)
        try:
            if nested:
                self.do(rec, op)
            else:
                with sim.op(op["id"]) as scope:
                    try:
                        self.do(rec, op)
                    finally:
                        rec.fired = list(scope.fired)
        except (core.Abandoned, Violation, core.Deadlock):
            raise
        except BaseException as e:  # noqa: whatever the operation raised is its result
            rec.error = e
            if nested:
                raise
        finally:
            me.hook = previous
            rec.ret = sim.tick()

    def make_hook(self, tid, op):
        plan = op.get("hook")
        if not plan:
            return None
        state = {"n": 0}

        def hook(place):
            state["n"] += 1
            if plan.get("place", place) != place or state["n"] != plan.get("nth", 1):
                return
            kind = plan["do"]
            if kind == "raise":
                self.hook_fired(tid, op)
                raise core.EXCEPTIONS[plan["exc"]]()
            self.perform(tid, plan["op"], nested=True)

        return hook

    def hook_fired(self, tid, op):
        for rec in reversed(self.recs):
            if rec.op is op:
                rec.info = "raised"
                break

    def do(self, rec, op):
        obj = self.objs[op["o"]] if "o" in op else None
        if op["do"] != "create" and "o" in op and (obj is None or obj.spoiled or obj.discarded):
            rec.info = "skipped"
            return
        getattr(self, "do_" + op["do"])(rec, op)

    # -- operations

    def do_call(self, rec, op):
        obj = self.objs[op["o"]]
        rec.info = None
        rec.out = world.call(obj, op["x"], op.get("mode", "eager"))

    def do_bad(self, rec, op):
        """A call that must be refused."""
        obj = self.objs[op["o"]]
        a = bad_input(obj, op["x"], op["kind"])
        rec.out = np.asarray(obj.keras(a))

    def do_shape(self, rec, op):
        obj = self.objs[op["o"]]
        rec.out = world.declared_shape(obj, op["x"])

    def do_look(self, rec, op):
        self.stats["looks"] += 1
        obj = self.objs[op["o"]]
        with core.inhibit_faults():
            rec.out = look(obj, op.get("what", "all"))

    def do_assign(self, rec, op):
        obj = self.objs[op["o"]]
        layer = obj.layers()[op["layer"]]
        shapes = world.weight_shapes(obj.cfgs[op["layer"]])
        values = world.weight_values(shapes, op["seed"], small=obj.is_model)
        how = op.get("how", "assign")
        everything = {op["layer"]: values}
        if how in ("model_set_weights", "file"):  # replaces all weights of the model
            for j, cfg in enumerate(obj.cfgs):
                if j != op["layer"]:
                    everything[j] = world.weight_values(world.weight_shapes(cfg), op["seed"] + 7 * j + 1, small=True)
        for j, new in everything.items():
            for w in [op["w"]] if how in ("assign", "optimizer") else range(len(new)):
                obj.writes[j][w].append([rec.inv, None, new[w], rec])
        if how == "assign":
            layer.weights[op["w"]].assign(values[op["w"]])
        elif how == "set_weights":
            layer.set_weights(values)
        elif how == "load":
            layer.load_own_variables({str(i): v for i, v in enumerate(values)})
        elif how == "optimizer":  # a step of gradient descent from what the weight is now
            variable = layer.weights[op["w"]]
            with core.inhibit_faults():
                opt = keras.optimizers.SGD(1.0)
                opt.build([variable])
                now = np.array(variable.value)
                opt.apply([jnp.asarray(now - values[op["w"]])], [variable])
        elif how == "file":
            import os, shutil, tempfile

            other = Obj(obj.spec, size=obj.size)
            scratch = tempfile.mkdtemp(prefix="weights-")
            try:
                with core.inhibit_faults():
                    other.assign([everything[j] for j in range(len(obj.cfgs))])
                    other.keras.save_weights(os.path.join(scratch, "w.weights.h5"))
                obj.keras.load_weights(os.path.join(scratch, "w.weights.h5"))
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        elif how == "model_set_weights":
            obj.keras.set_weights([v for j in range(len(obj.cfgs)) for v in everything[j]])

    def do_act(self, rec, op):
        g = group_dict[op["group"]]
        dim = ref.GROUPS[op["group"]].dim
        a, kw = action_args(op)
        before, mode = a.copy(), op.get("mode", "eager")
        if mode == "tensor":
            rec.out = np.asarray(g.action(jnp.asarray(a), **kw))
        elif mode == "int":
            rec.out = np.asarray(g.action(a.astype("int32"), **kw))
        elif mode == "jit":
            rec.out = np.asarray(jax.jit(lambda z: g.action(z, **kw))(a))
        elif mode == "vmap":  # over the first axis
            inner = {**kw, "spatial_axes": tuple(i - 1 for i in kw["spatial_axes"])}
            if op.get("on"):
                inner["group_axis"] -= 1
            rec.out = np.asarray(jax.vmap(lambda z: g.action(z, **inner), out_axes=1)(a))
        elif mode == "symbolic":
            rec.out = tuple(g.action(keras.KerasTensor(a.shape, dtype="float32"), **kw).shape)
        else:
            rec.out = np.asarray(g.action(a, **kw))
        if not np.array_equal(a, before):
            raise Violation("acting with a group changed its argument")

    def do_build(self, rec, op):
        obj = self.objs[op["o"]]
        layer = obj.keras
        if obj.spoiled or layer.built:
            rec.info = "skipped"
            return
        cfg = obj.cfgs[0]
        if op.get("flip"):
            cfg = {**cfg, "lift": not cfg["lift"]}
        shape = ref.input_shape(cfg, op["x"]["n"], op["x"].get("b", 2))
        via = op.get("via", "build")
        if op.get("bad"):
            shape = bad_input(obj, op["x"], op["bad"]).shape
        try:
            if via == "build":
                layer.build(shape)
            elif via == "call":
                rec.out = np.asarray(layer(np.zeros(shape, "float32")))
            elif via == "symbolic":
                layer(keras.KerasTensor((None,) + tuple(shape[1:]), dtype="float32"))
            else:
                raise ValueError(via)
        except BaseException:
            # with weights it is beyond what is promised
            obj.spoiled = bool(layer.weights) or (op.get("flip") and layer.built)
            obj.only_builds &= via == "build" or bool(op.get("bad") or op.get("expect"))
            raise
        obj.spoiled = bool(op.get("flip"))
        if not obj.spoiled:
            obj.identity = world.identities(obj)

    def do_unbuilt(self, rec, op):
        obj = self.objs[op["o"]]
        built = [r for r in self.recs if r.op["do"] == "build" and r.error is None
                 and r.op.get("o") == op["o"] and r is not rec and r.info != "skipped"]
        if not built and not obj.spoiled and (ref.is_conv(obj.cfgs[0]) or obj.only_builds):
            rec.out = bool(obj.keras.built)

    def judge_unbuilt(self, rec, op, reads):
        if rec.out:
            raise Violation(f"{self.name(rec)}: a layer of which every build failed counts as built")

    def do_first(self, rec, op):
        """The first use of an object, which builds it."""
        obj = self.objs[op["o"]]
        k, via = obj.keras, op["via"]
        shape = ref.input_shape(obj.cfgs[0], op["x"]["n"], 2)
        a = world.make_input(obj.cfgs[0], {**op["x"], "b": 2})
        target = world.integers(op["s"], obj.out_shape({**op["x"], "b": 2}), -1, 1)
        if k.built and not obj.is_model:
            rec.info = "skipped"
            return
        if via == "build":
            k.build(shape)
        elif via == "call":
            k(a)
        elif via == "symbolic":
            k(keras.KerasTensor((None,) + tuple(shape[1:]), dtype="float32"))
        elif via == "predict":
            y = k.predict(a, verbose=0, batch_size=2)
            rec.out = (y, [l.get_weights() for l in obj.layers()])
        else:
            k.compile(optimizer=keras.optimizers.SGD(0.01), loss="mse")
            if via == "fit":
                k.fit(a, target, batch_size=2, epochs=1, verbose=0)
            elif via == "train_on_batch":
                k.train_on_batch(a, target)
            elif via == "evaluate":
                k.evaluate(a, target, verbose=0)
            else:
                raise ValueError(via)

    def judge_first(self, rec, op, reads):
        obj = self.objs[op["o"]]
        if rec.out is not None:
            y, weights = rec.out
            want = world.expect(obj, {**op["x"], "b": 2}, weights)
            if not close(y, want):
                raise Violation(f"{self.name(rec)}: prediction {brief(y)}, expected {brief(want)}")

    def do_arguments(self, rec, op):
        """Make a layer from mutable arguments, and one from a config, which stay as they are."""
        import copy

        cfg = self.objs[op["o"]].cfgs[0]
        kw = world.layer_kwargs(cfg)
        kw = {k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()}
        before = copy.copy({k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
        with core.inhibit_faults():
            layer = world.layer_class(cfg)(**kw)
            if kw != before:
                raise Violation(f"making a {cfg['kind']} changed its arguments from {before} to {kw}")
            config = layer.get_config()
            text = json.dumps(keras.saving.serialize_keras_object(layer)["config"], sort_keys=True)
            first = {k: list(v) if isinstance(v, list) else v for k, v in config.items()}
            world.layer_class(cfg).from_config(config)
            again = json.dumps(keras.saving.serialize_keras_object(layer)["config"], sort_keys=True)
            if again != text:
                raise Violation(f"making a {cfg['kind']} from the config of another changed that")
            if {k: v for k, v in config.items() if isinstance(v, (list, str, int))} != \
                    {k: v for k, v in first.items() if isinstance(v, (list, str, int))}:
                raise Violation(f"making a {cfg['kind']} from a config changed the config")

    def do_set(self, rec, op):
        """Give a freshly built object the weights it should have (not an operation under test)."""
        obj = self.objs[op["o"]]
        with core.inhibit_faults():
            obj.assign(obj.weights)
            obj.identity = world.identities(obj)

    def do_equiv(self, rec, op):
        obj = self.objs[op["o"]]
        rec.out = equivariance(obj, op["x"], op.get("elements"))

    def do_checker(self, rec, op):
        """The library's own check, as a user runs it."""
        obj = self.objs[op["o"]]
        cfg = obj.cfgs[0]
        dim = ref.dimension(cfg)
        last = cfg.get("data_format", "channels_last") == "channels_last"
        start = 1 if last else 2
        domain, target = ref.groups_of(cfg)
        rec.out = float(check_equivariance(
            obj.keras, obj.input(op["x"]), group=group_dict[cfg["group"]],
            spatial_axes=tuple(range(start, start + dim)), group_axis=dim + start,
            acting_group=ref.acting(cfg), domain_group=domain, target_group=target,
        ))

    def do_restart(self, rec, op):
        from sim import durable

        durable.restart(self.objs[op["o"]], op)

    def do_save(self, rec, op):
        """Write config and weights as they would be left on disk by a crash right after."""
        obj = self.objs[op["o"]]
        how = op.get("how", "get")
        with core.inhibit_faults():
            configs = [json.dumps(world.json_config(l)) for l in obj.layers()]
            if how == "own":  # as writing a file does
                weights = []
                for layer in obj.layers():
                    store = {}
                    layer.save_own_variables(store)
                    weights.append([np.array(store[str(i)]) for i in range(len(store))])
            else:
                weights = [[np.array(v) for v in l.get_weights()] for l in obj.layers()]
            rec.out = {"configs": configs, "weights": weights}
            if how == "summary" and obj.is_model:
                lines = []
                obj.keras.summary(print_fn=lambda text, **kw: lines.append(str(text)))
                rec.out["summary"] = "\n".join(lines)
                rec.out["count"] = obj.keras.count_params()

    def do_discard(self, rec, op):
        import gc

        obj = self.objs[op["o"]]
        obj.keras = None
        obj.discarded = True
        gc.collect(0)

    def do_create(self, rec, op):
        """Make one of the lazy objects."""
        with core.inhibit_faults():
            self.objs[op["o"]] = self.create({**self.sc["objs"][op["o"]]})

    def do_step(self, rec, op):
        """One step of the training, repeated when it was made to fail."""
        trainer = self.trainers[op["o"]]
        try:
            trainer.step(op["b"])
        except (core.Abandoned, Violation):
            raise
        except BaseException as e:
            if not str(e).count("simulated"):
                raise
            rec.out = "repeated"
            self.stats["repeated"] = self.stats.get("repeated", 0) + 1
            with core.inhibit_faults():
                trainer.step(op["b"])

    def do_crash(self, rec, op):
        self.trainers[op["o"]].crash(op["how"])
        self.stats["crashes"] = self.stats.get("crashes", 0) + 1

    def do_eval(self, rec, op):
        """Evaluation between steps."""
        obj = self.objs[op["o"]]
        weights = [l.get_weights() for l in obj.layers()]
        y = world.call(obj, op["x"], op.get("mode", "eager"))
        if op.get("judge", True) and op.get("mode") != "symbolic":
            rec.out = (y, weights)

    def judge_eval(self, rec, op, reads):
        obj = self.objs[op["o"]]
        if rec.out is not None and obj.supported():
            y, weights = rec.out
            want = ref_chain(obj, weights, op["x"])
            if not close(y, want):
                raise Violation(f"{self.name(rec)}: output {brief(y)}, expected {brief(want)}")

    def verify_training(self):
        from sim import train

        for o, plan in self.sc.get("train", {}).items():
            o = int(o)
            trainer, spec = self.trainers[o], self.sc["objs"][o]["spec"]
            what = f"training {describe_spec(spec)} ({plan['how']})"
            steps = [rec.op["b"] for rec in self.recs if rec.op["do"] == "step" and rec.op["o"] == o
                     and rec.error is None]
            got = trainer.weights()
            seen = [w for _, a, b in trainer.log for ws in a + b for w in ws] + [w for ws in got for w in ws]
            if not all(np.all(np.abs(w) < 1e3) for w in seen):  # the training diverges by itself
                self.stats["diverged"] = self.stats.get("diverged", 0) + 1
                return
            self.stats["gradients"] = self.stats.get("gradients", 0) + train.check_gradients(trainer, what)
            want = train.uninterrupted(spec, plan, steps)
            for l, (gg, ww) in enumerate(zip(got, want)):
                for w, (a, b) in enumerate(zip(gg, ww)):
                    if not close(a, b):
                        raise Violation(f"{what}: weight {w} of layer {l} ends as {brief(a)}, without "
                                        f"interruptions as {brief(b)}")
            n = sum(len(world.weight_shapes(c)) for c in trainer.obj.cfgs)
            if len(trainer.obj.keras.trainable_variables) != n:
                raise Violation(f"{what}: {len(trainer.obj.keras.trainable_variables)} trainable weights, expected {n}")
            if trainer.obj.keras.non_trainable_variables and not trainer.obj.is_model:
                raise Violation(f"{what}: has weights that are not trained")

    def do_concrete(self, rec, op):
        """Nothing of a trace may be left in the object or the groups."""
        with core.inhibit_faults():
            rec.out = tracers([self.objs[op["o"]].keras, dict(group_dict)])

    def judge_concrete(self, rec, op, reads):
        if rec.out:
            raise Violation(f"{self.name(rec)}: traced values are left in {rec.out[0]}")

    def do_refuse(self, rec, op):
        """A configuration and size that must be refused, by a new layer."""
        cfg, via = op["cfg"], op["via"]
        shape = ref.input_shape(cfg, op["n"], 2)
        try:
            layer = world.make_layer(cfg)
            if via == "build":
                layer.build(shape)
            elif via == "call":
                layer(np.zeros(shape, "float32"))
            else:
                layer(keras.KerasTensor((None,) + tuple(shape[1:]), dtype="float32"))
        except ValueError:
            rec.out = "refused"
        else:
            raise Violation(f"a new {cfg['kind']} that cannot keep the equivariance accepted size {op['n']}")

    def do_registry(self, rec, op):
        world.check_registry("registry")

    # -- judging

    def verify(self):
        for obj in self.objs:
            for layer in obj.writes if obj else ():
                for register in layer:
                    for i, w in enumerate(register):
                        if isinstance(w, list):
                            rec = w[3]
                            done = rec.ret if rec.error is None else None
                            register[i] = (w[0], done, w[2])
        reads = {}  # (object, layer, weight) -> [(inv, ret, allowed indices of writes)]
        for rec in self.recs:
            self.judge_rec(rec, reads)
        self.verify_training()
        for key, history in reads.items():
            o, l, w = key
            if not linearizable(self.objs[o].writes[l][w], history):
                raise Violation(
                    f"object {o}: reads and writes of weight {w} of layer {l} happened in no "
                    f"possible order: {describe_history(self.objs[o].writes[l][w], history)}"
                )
        if self.sc.get("registry"):
            world.check_registry("after the run")

    def name(self, rec):
        op = rec.op
        cfg = ""
        if "o" in op:
            spec = self.sc["objs"][op["o"]]["spec"]
            cfg = spec["cfgs"][0]["kind"] if spec["type"] == "layer" else "model"
        mode = f" {op['mode']}" if op.get("mode") else ""
        return f"{op['do']}{mode} of {cfg} (op {op['id']}, thread {rec.thread})"

    def judge_rec(self, rec, reads):
        op, do = rec.op, rec.op["do"]
        if rec.info == "skipped":
            return
        raised = [f["exc"] for f in rec.fired] + ([op["hook"]["exc"]] if rec.info == "raised" else [])
        if rec.error is not None and raised:
            for exc in raised[-1:]:
                wanted = type(core.EXCEPTIONS[exc]())
                if not issubclass(wanted, Exception) and not isinstance(rec.error, wanted):
                    raise Violation(f"{self.name(rec)}: an {exc} reached the caller as {type(rec.error).__name__}")
            return
        if op.get("wrong") and rec.error is not None:
            return
        if do == "bad" or op.get("bad"):
            if rec.error is None:
                raise Violation(f"{self.name(rec)}: an input with a wrong {op.get('kind') or op.get('bad')} was accepted")
            return
        if rec.error is not None:
            inner = [r for r in self.recs if r is not rec and r.thread == rec.thread
                     and r.inv > rec.inv and (r.ret or 0) < rec.ret and r.error is not None]
            if inner or op.get("expect") == "error":
                return
            raise Violation(f"{self.name(rec)} failed: {type(rec.error).__name__}: {first_line(rec.error)}")
        if raised and do in SWALLOW_CHECKED and op.get("mode", "eager") == "eager":
            raise Violation(f"{self.name(rec)}: {raised[0]} was swallowed")
        if op.get("expect") == "error":
            raise Violation(f"{self.name(rec)}: an input of size {op['x']['n']} was accepted")
        getattr(self, "judge_" + do, lambda *a: None)(rec, op, reads)

    def candidates(self, o, rec):
        """Per layer and weight the indices of the writes that could be current during rec."""
        out = []
        for layer in self.objs[o].writes:
            out.append([])
            for register in layer:
                allowed = []
                for i, (inv, ret, _) in enumerate(register):
                    if inv > rec.ret:
                        continue
                    overwritten = ret is not None and any(
                        j != i and w[1] is not None and w[0] > ret and w[1] < rec.inv
                        for j, w in enumerate(register)
                    )
                    if not overwritten:
                        allowed.append(i)
                out[-1].append(allowed)
        return out

    def judge_call(self, rec, op, reads):
        obj, x, mode = self.objs[op["o"]], op["x"], op.get("mode", "eager")
        self.stats["calls"] += 1
        if mode == "symbolic":
            world.check_output(obj, x, mode, rec.out, None, self.name(rec))
            return
        if mode in ("functional", "jitfunctional"):
            weights = world.given_weights(obj, x)
            if obj.supported():
                good = close(rec.out, ref_chain(obj, weights, x))
            else:
                good = agrees(rec.out, fresh_output(obj, weights, x))
            if not good and not (self.strict and obj.supported()) and self.judge:
                good = agrees(rec.out, self.judge(obj, weights, x))
            if not good:
                raise Violation(f"{self.name(rec)}: output {brief(rec.out)}, expected {brief(world.expect(obj, x, weights))} "
                                "for the weights it was given")
            return
        cand = self.candidates(op["o"], rec)
        flat = [c for layer in cand for c in layer]
        sizes = [len(layer) for layer in cand]
        combos = list(itertools.islice(itertools.product(*flat), 2049))
        undecided = len(combos) > 2048

        def values(combo):
            it = iter(combo)
            return [[obj.writes[l][w][next(it)][2] for w in range(n)] for l, n in enumerate(sizes)]

        matches = []
        if obj.supported():
            matches = [c for c in combos if close(rec.out, ref_chain(obj, values(c), x))]
        else:
            matches = [c for c in combos if agrees(rec.out, fresh_output(obj, values(c), x))]
        if not matches and not (self.strict and obj.supported()) and self.judge:
            matches = [c for c in combos[:8] if agrees(rec.out, self.judge(obj, values(c), x))]
        if undecided and not matches:
            self.stats["undecided"] = self.stats.get("undecided", 0) + 1
            return
        if not matches:
            want = world.expect(obj, x, values(combos[-1]))
            extra = f" nor for any of {len(combos)} possible weights" if len(combos) > 1 else ""
            raise Violation(f"{self.name(rec)}: output {brief(rec.out)}, expected {brief(want)}{extra}")
        dtype = "float16" if "16" in (obj.cfgs[-1].get("dtype") or "") else "float32"
        if str(rec.out.dtype) != dtype and mode not in ("predict", "stateless"):
            lone = self.judge and self.judge(obj, values(matches[0]), x)
            if not (isinstance(lone, np.ndarray) and lone.dtype == rec.out.dtype):
                raise Violation(f"{self.name(rec)}: output of type {rec.out.dtype}, expected {dtype}")
        if not undecided and (len(combos) > 1 or any(len(r) > 1 for layer in obj.writes for r in layer)):
            keys = [(op["o"], l, w) for l, n in enumerate(sizes) for w in range(n)]
            for i, key in enumerate(keys):
                reads.setdefault(key, []).append((rec.inv, rec.ret, {m[i] for m in matches}))

    def judge_look(self, rec, op, reads):
        obj = self.objs[op["o"]]
        many = self.candidates(op["o"], rec)
        seen = rec.out
        check_look(obj, seen, self.name(rec))
        for l, layer in enumerate(seen["layers"]):
            if "losses" in layer:
                check_losses(obj.cfgs[l], layer["losses"], [[r[i][2] for i in c] for r, c in zip(obj.writes[l], many[l])],
                             f"{self.name(rec)}: layer {l}")
            for w, value in enumerate(layer.get("values", [])):
                register = obj.writes[l][w]
                for view in value:
                    match = {i for i in many[l][w] if close(view, register[i][2])}
                    if not match:
                        raise Violation(
                            f"{self.name(rec)}: layer {l} shows weight {w} as {brief(view)}, "
                            f"expected {brief(register[many[l][w][-1]][2])}")
                    if len(register) > 1:
                        reads.setdefault((op["o"], l, w), []).append((rec.inv, rec.ret, match))

    def judge_save(self, rec, op, reads):
        obj = self.objs[op["o"]]
        many = self.candidates(op["o"], rec)
        for l, values in enumerate(rec.out["weights"]):
            if len(values) != len(obj.writes[l]):
                raise Violation(f"{self.name(rec)}: layer {l} saves {len(values)} weights")
            for w, value in enumerate(values):
                match = {i for i in many[l][w] if close(value, obj.writes[l][w][i][2])}
                if not match:
                    raise Violation(f"{self.name(rec)}: layer {l} saves weight {w} as {brief(value)}")

        if "count" in rec.out:
            total = sum(int(np.prod(s)) for c in obj.cfgs for s in world.weight_shapes(c))
            if rec.out["count"] != total:
                raise Violation(f"{self.name(rec)}: the model has {rec.out['count']} parameters, expected {total}")
            shown = [int(n.replace(",", "")) for n in re.findall(r"(?:Total|Trainable) params: ([\d,]+)", rec.out["summary"])]
            if shown != [total, total]:
                raise Violation(f"{self.name(rec)}: the summary shows {shown} parameters, expected {total}")

    def judge_shape(self, rec, op, reads):
        obj = self.objs[op["o"]]
        if rec.out is not None and rec.out != tuple(obj.out_shape(op["x"])):
            raise Violation(f"{self.name(rec)}: declared output shape {rec.out}, expected {tuple(obj.out_shape(op['x']))}")

    def judge_build(self, rec, op, reads):
        obj = self.objs[op["o"]]
        if op.get("flip"):
            return
        for layer, cfg in zip(obj.layers(), obj.cfgs):
            shapes = [tuple(v.shape) for v in layer.weights]
            if shapes != world.weight_shapes(cfg):
                raise Violation(f"{self.name(rec)}: built with weights of shapes {shapes}, expected {world.weight_shapes(cfg)}")

    def judge_act(self, rec, op, reads):
        if op.get("wrong"):
            raise Violation(f"action of {op['group']} with a wrong {op['wrong']} was accepted: { {k: v for k, v in op.items() if k != 'id'} }")
        want = action_expected(op)
        if op.get("mode") == "symbolic":
            if rec.out != want.shape:
                raise Violation(f"action of {op['group']} gives symbolically {rec.out}, expected {want.shape}")
            return
        if want.shape != rec.out.shape or not np.array_equal(want, rec.out):
            raise Violation(f"action of {op['group']} gave {brief(rec.out)}, expected {brief(want)} ({ {k: v for k, v in op.items() if k != 'id'} })")

    def judge_equiv(self, rec, op, reads):
        if rec.out is not None:
            raise Violation(f"{self.name(rec)}: {rec.out}")

    def judge_checker(self, rec, op, reads):
        if not rec.out <= 1e-3:
            raise Violation(f"{self.name(rec)}: check_equivariance reports {rec.out}")


# --------------------------------------------------------------------------------------------


def describe_spec(spec):
    return ", ".join(
        " ".join(f"{k}={v}" for k, v in c.items() if k not in ("sizes", "bad_sizes")) for c in spec["cfgs"])


def tracers(roots, limit=4000):
    """Paths to traced values that are reachable from objects of the code under test."""
    seen, found = set(), []
    stack = [(r, type(r).__name__) for r in roots]
    while stack and len(seen) < limit:
        obj, path = stack.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if isinstance(obj, jax.core.Tracer):
            found.append(path)
            continue
        if isinstance(obj, (str, bytes, int, float, np.ndarray, jax.Array, type)):
            continue
        if isinstance(obj, dict):
            stack += [(v, f"{path}[{k!r}]") for k, v in obj.items()]
        elif isinstance(obj, (list, tuple, set, frozenset)):
            stack += [(v, f"{path}[{i}]") for i, v in enumerate(obj)]
        elif type(obj).__module__.split(".")[0] in ("groco", "keras", "sim"):
            try:
                stack += [(v, f"{path}.{k}") for k, v in vars(obj).items()]
            except TypeError:
                pass
    return found


def first_line(e):
    text = str(e).strip().split("\n")
    return " / ".join(t.strip() for t in text if t.strip())[:300]


def ref_chain(obj, weights, x):
    return world.expected_chain(obj.cfgs, weights, obj.input(x))


FRESH = {}


def fresh_output(obj, weights, x):
    """What a new object of the code under test says, in this process."""
    key = json.dumps([obj.spec, x], sort_keys=True) + str([w.tobytes() for ws in weights for w in ws])
    if key not in FRESH:
        try:
            fresh = Obj(obj.spec, size=list(x["n"]))
            fresh.assign(weights)
            FRESH[key] = np.asarray(fresh.keras(fresh.input(x)))
        except Exception as e:
            FRESH[key] = e
    return FRESH[key]


def agrees(out, opinion):
    return not isinstance(opinion, Exception) and close(out, opinion)


def bad_input(obj, x, kind):
    cfg = obj.cfgs[0]
    a = obj.input({k: v for k, v in x.items()})
    dim = ref.dimension(cfg)
    last = cfg.get("data_format", "channels_last") == "channels_last"
    group_axis = dim + (1 if last else 2)
    channel_axis = -1 if last else 1
    if kind == "group+":
        return np.concatenate([a, a], axis=group_axis)
    if kind == "group-":
        return np.take(a, range(a.shape[group_axis] // 2), axis=group_axis)
    if kind == "channels+":
        return np.concatenate([a, a[:, :1] if not last else a[..., :1]], axis=channel_axis)
    if kind == "swap":  # same number of values per pixel, split differently
        n, c = a.shape[group_axis], a.shape[channel_axis]
        if last:
            return a.reshape(a.shape[: dim + 1] + (c, n))
        return np.swapaxes(a, 1, group_axis).copy()
    if kind == "rank+":
        return a[..., None]
    if kind == "rank-":
        return a[0]
    if kind == "size":
        return a
    raise ValueError(kind)


def bad_kinds(cfg):
    """Inputs the layer must refuse."""
    domain = ref.groups_of(cfg)[0]
    fam = ref.family(cfg)
    kinds = []
    if fam in ("conv", "tconv"):
        kinds += ["channels+"]
    if fam in ("conv", "tconv", "pool"):
        kinds += ["rank+", "rank-"]
        if domain:
            order = len(ref.SUBGROUPS[cfg["group"]][domain])
            kinds += ["group+"] + (["group-"] if order > 1 else [])
            if order != cfg["channels"]:
                kinds += ["swap"]
    return kinds


def look(obj, what="all"):
    out = {"layers": []}
    for l, (layer, cfg) in enumerate(zip(obj.layers(), obj.cfgs)):
        seen = {"built": layer.built, "identity": obj.identity and obj.identity[l]}
        if ref.is_conv(cfg):
            seen["filters"] = layer.filters
            variables = list(layer.weights)
            seen["ids"] = [id(v) for v in variables]
            seen["shapes"] = [tuple(v.shape) for v in variables]
            seen["trainable"] = len(layer.trainable_variables)
            seen["count"] = layer.count_params()
            attrs = [layer.kernel] + ([layer.bias] if cfg.get("use_bias", True) else [])
            seen["attr_shapes"] = [tuple(v.shape) for v in attrs]
            views = [[np.array(v)] for v in attrs]
            for view, v in zip(views, layer.get_weights()):
                view.append(np.array(v))
            seen["values"] = views
            if what == "all" and cfg.get("trainable", True) and not cfg.get("activity_regularizer"):
                losses = list(layer.losses)
                if not any(isinstance(loss, jax.core.Tracer) for loss in losses):
                    seen["losses"] = [float(loss) for loss in losses]
            if not obj.is_model and what == "all":
                x = {"s": 1, "n": obj.size, "b": 2}
                seen["declared"] = world.declared_shape(obj, x)
        if what == "all":
            try:
                seen["config"] = world.json_config(layer)
            except core.Abandoned:
                raise
            except Exception as e:
                seen["config_error"] = f"{type(e).__name__}: {first_line(e)}"
        out["layers"].append(seen)
    return out


def check_losses(cfg, losses, values, where):
    """The penalties for weights, of which `values` are the possible ones."""
    names = [n for n in ("kernel_regularizer", "bias_regularizer")[: len(values)] if cfg.get(n)]
    if len(losses) != len(names):
        raise Violation(f"{where} has {len(losses)} losses, expected {len(names)}")
    for name, loss in zip(names, losses):
        power = {"l1": 1, "l2": 2}[cfg[name]]
        options = [0.01 * float(np.sum(np.abs(v) ** power)) for v in values[0 if name[0] == "k" else 1]]
        rough = 3e-2 if "16" in (cfg.get("dtype") or "") else 1e-3
        if not any(abs(loss - option) <= rough * (1 + option) for option in options):
            raise Violation(f"{where} has a penalty {loss} for its {name.split('_')[0]}, expected {options[-1]}")


def check_look(obj, seen, name):
    for l, (layer, cfg) in enumerate(zip(seen["layers"], obj.cfgs)):
        where = f"{name}: layer {l}"
        if not layer["built"]:
            raise Violation(f"{where} is not built")
        if "config_error" in layer:
            raise Violation(f"{where}: config cannot be written as JSON: {layer['config_error']}")
        if "config" in layer:
            text = world.config_differs(layer["config"], cfg)
            if text:
                raise Violation(f"{where}: {text}")
        if not ref.is_conv(cfg):
            continue
        shapes = world.weight_shapes(cfg)
        if layer["filters"] != cfg["filters"]:
            raise Violation(f"{where} shows filters={layer['filters']}, expected {cfg['filters']}")
        if layer["shapes"] != shapes or layer["attr_shapes"] != shapes:
            raise Violation(f"{where} shows weights of shapes {layer['attr_shapes']} and {layer['shapes']}, expected {shapes}")
        if layer["trainable"] != len(shapes) * cfg.get("trainable", True):
            raise Violation(f"{where} shows {layer['trainable']} trainable weights")
        if layer["count"] != sum(int(np.prod(s)) for s in shapes):
            raise Violation(f"{where} counts {layer['count']} parameters")
        if layer.get("identity") is not None and layer["ids"] != layer["identity"]:
            raise Violation(f"{where}: its weights are other objects than before")
        if layer.get("declared") is not None:
            want = tuple(obj.out_shape({"n": obj.size, "b": 2}))
            if layer["declared"] != want:
                raise Violation(f"{where} declares output shape {layer['declared']}, expected {want}")


def linearizable(writes, reads):
    """Wing & Gong over one register. writes: (inv, ret or None, value); reads: (inv, ret, set of
    indices of writes whose value was seen). Index 0 is the initial value."""
    ops = [("w", inv, ret, i) for i, (inv, ret, _) in enumerate(writes) if i > 0]
    ops += [("r", inv, ret, frozenset(s)) for inv, ret, s in reads]
    n = len(ops)
    if not any(o[0] == "w" for o in ops):
        return all(0 in o[3] for o in ops)
    seen = set()
    optional = sum(1 << i for i, o in enumerate(ops) if o[2] is None)
    full = (1 << n) - 1
    stack = [(0, 0)]
    while stack:
        mask, current = stack.pop()
        if mask | optional == full:
            return True
        if (mask, current) in seen:
            continue
        seen.add((mask, current))
        # an operation can go next if no unplaced operation returned before it was invoked
        limit = min((ops[i][2] for i in range(n) if not mask >> i & 1 and ops[i][2] is not None),
                    default=float("inf"))
        for i, (kind, inv, ret, arg) in enumerate(ops):
            if mask >> i & 1 or inv > limit:
                continue
            if kind == "w":
                stack.append((mask | 1 << i, arg))
            elif current in arg:
                stack.append((mask | 1 << i, current))
    return False


def describe_history(writes, reads):
    parts = [f"write#{i}[{inv},{'?' if ret is None else ret}]" for i, (inv, ret, _) in enumerate(writes)]
    parts += [f"read[{inv},{ret}] of write#{sorted(s)}" for inv, ret, s in reads]
    return ", ".join(parts)


# --------------------------------------------------------------------------------------------
# group actions


def action_args(op):
    dim = ref.GROUPS[op["group"]].dim
    n, lead, tail = op["n"], op.get("lead", 1), op.get("tail", 1)
    shape = (2,) * lead + tuple(n if isinstance(n, (list, tuple)) else [n] * dim)
    kw = {"spatial_axes": tuple(range(lead, lead + dim)), "new_group_axis": op.get("axis", 0)}
    if op.get("on"):
        shape += (len(ref.SUBGROUPS[op["group"]][op["on"]]),)
        kw["group_axis"] = lead + dim
    kw["domain_group"] = op.get("on")
    shape += (2,) * tail
    kw["acting_group"] = op.get("acting", "")
    return world.integers(op["s"], shape, -5, 4), kw


def action_expected(op):
    big = ref.GROUPS[op["group"]]
    dim, lead = big.dim, op.get("lead", 1)
    a, _ = action_args(op)
    out = []
    for g in ref.SUBGROUPS[op["group"]][op.get("acting") or op["group"]]:
        y = np.moveaxis(a, list(range(lead)), list(range(a.ndim - lead, a.ndim)))
        y = big.elements[g].act(y)
        y = np.moveaxis(y, list(range(a.ndim - lead, a.ndim)), list(range(lead)))
        if op.get("on"):
            elements = ref.SUBGROUPS[op["group"]][op["on"]]
            gi = big.inverse[g]
            wanted = [int(big.compose[gi][h]) for h in elements]
            parts = []
            for h in wanted:
                take = np.take(y, [elements.index(h)], axis=lead + dim) if h in elements else \
                    np.zeros_like(np.take(y, [0], axis=lead + dim))
                parts.append(take)
            y = np.concatenate(parts, axis=lead + dim)
        out.append(y)
    return np.moveaxis(np.stack(out), 0, op.get("axis", 0))


def equivariance(obj, x, elements=None):
    """None if the object commutes with all elements of its group, otherwise a description."""
    first, last = obj.cfgs[0], obj.cfgs[-1]
    # the group that acts on the whole chain is the smallest one along it
    big, act = chain_group(obj.cfgs)
    cf = first.get("data_format", "channels_last") == "channels_first"
    a = obj.input(x)
    y = np.asarray(obj.keras(a))
    invariant = ref.family(last) == "global"
    domain = ref.groups_of(first)[0]
    for g in ref.SUBGROUPS[first["group"]][act]:
        ta = ref.transform(a, first["group"], g, domain, cf)
        got = np.asarray(obj.keras(np.ascontiguousarray(ta)))
        if invariant:
            want = y
        else:
            # the element as one of the group of the last layer
            key = ref.GROUPS[first["group"]].elements[g].pullback.tobytes()
            lg = [e.pullback.tobytes() for e in ref.GROUPS[last["group"]].elements].index(key)
            want = ref.transform(y, last["group"], lg, ref.groups_of(last)[1], cf)
        if not close(got, want):
            return (f"not equivariant under element {g} of {first['group']}: layer of transformed "
                    f"input {brief(got)}, transformed output {brief(want)}")
    return None


def chain_group(cfgs):
    """(group of the first layer, name of the subgroup whose action commutes with all)."""
    big = cfgs[0]["group"]
    act = None
    for c in cfgs:
        name = c["group"] if ref.family(c) == "global" else ref.acting(c)
        if act is None or ref.GROUPS[name].order <= ref.GROUPS[act].order:
            act = name
    return big, act
