"""Training of models of group layers, with steps that fail, crashes and resumption."""
import json

import jax
import jax.numpy as jnp
import keras
import numpy as np

from sim import core, durable, ref, world
from sim.world import Violation


def make_optimizer(plan):
    if plan["opt"] == "adam":
        return keras.optimizers.Adam(plan["lr"])
    return keras.optimizers.SGD(plan["lr"], momentum=plan["momentum"])


def start_weights(obj, plan):
    rng = np.random.RandomState(plan["seed"])
    return [[(rng.normal(size=s) * 0.4).astype("float32") for s in world.weight_shapes(c)] for c in obj.cfgs]


def batch(obj, plan, b):
    rng = np.random.RandomState(plan["seed"] * 1000 + b)
    x = {"n": plan["size"], "b": plan["batch"]}
    inputs = (0.5 * rng.normal(size=ref.input_shape(obj.cfgs[0], x["n"], x["b"]))).astype("float32")
    targets = rng.normal(size=obj.out_shape(x)).astype("float32")
    return inputs, targets


class Trainer:
    """The training of one object: its optimizer and what was recorded."""

    def __init__(self, obj, plan):
        self.obj, self.plan = obj, plan
        self.log = []  # (batch, weights before, weights after)
        obj.assign(start_weights(obj, plan))
        self.ready()

    def ready(self):
        self.opt = make_optimizer(self.plan)
        if self.obj.is_model and self.plan["how"] == "train_on_batch":
            self.obj.keras.compile(optimizer=self.opt, loss="mse")
        self.opt.build(self.obj.keras.trainable_variables)

    def weights(self):
        return [[np.array(w) for w in l.get_weights()] for l in self.obj.layers()]

    def step(self, b):
        before = self.weights()
        inputs, targets = batch(self.obj, self.plan, b)
        k, how = self.obj.keras, self.plan["how"]
        if how == "train_on_batch" and self.obj.is_model:
            k.train_on_batch(inputs, targets)
        else:
            variables = k.trainable_variables
            fixed = [v.value for v in k.non_trainable_variables]

            def loss(values):
                out, _ = k.stateless_call(values, fixed, inputs)
                return jnp.mean((out - targets) ** 2)

            grad = jax.grad(loss)
            grads = (jax.jit(grad) if how == "jit" else grad)([v.value for v in variables])
            with core.inhibit_faults():
                self.opt.apply(grads, variables)
        self.log.append((b, before, self.weights()))

    def crash(self, how):
        """Only the saved weights, optimizer state and configurations survive."""
        with core.inhibit_faults():
            state = [np.array(v) for v in self.opt.variables]
            durable.restart(self.obj, {"how": how})
            self.ready()
            for v, value in zip(self.opt.variables, state):
                v.assign(value)


def uninterrupted(spec, plan, batches):
    """The weights at the end of an undisturbed training in a new object."""
    obj = world.Obj(spec, size=plan["size"])
    trainer = Trainer(obj, plan)
    for b in batches:
        trainer.step(b)
    return trainer.weights()


def reference_loss(obj, weights, inputs, targets):
    x = np.asarray(inputs, np.float64)
    for c, w in zip(obj.cfgs, weights):
        x = ref.forward(c, w, x)
    return float(np.mean((x - targets) ** 2))


def check_gradients(trainer, what):
    """The steps of a plain gradient descent follow the gradient of the reference model."""
    plan, obj = trainer.plan, trainer.obj
    if plan["opt"] != "sgd" or not obj.supported():
        return 0
    velocity, checked = None, 0
    for n, (b, before, after) in enumerate(trainer.log):
        now = [[a.astype("float64") - w for a, w in zip(aa, ww)] for aa, ww in zip(after, before)]
        if velocity is None:
            velocity = [[np.zeros_like(v) for v in vv] for vv in now]
        grads = [[(plan["momentum"] * m - v) / plan["lr"] for m, v in zip(mm, vv)]
                 for mm, vv in zip(velocity, now)]
        velocity = now
        inputs, targets = batch(obj, plan, b)
        total = sum(float(np.abs(g).sum()) for gg in grads for g in gg)
        where = [(l, w) for l, gg in enumerate(grads) for w in range(len(gg))]
        rng = np.random.RandomState(n)
        for only in [None] + where:
            v = [[(rng.choice([-1.0, 1.0], g.shape) if only in (None, (l, w)) else np.zeros(g.shape))
                  for w, g in enumerate(gg)] for l, gg in enumerate(grads)]
            got = sum(float((g * d).sum()) for gg, dd in zip(grads, v) for g, d in zip(gg, dd))
            eps = 1e-5

            def at(e):
                moved = [[w.astype("float64") + e * d for w, d in zip(ww, dd)] for ww, dd in zip(before, v)]
                return reference_loss(obj, moved, inputs, targets)

            want = (at(eps) - at(-eps)) / (2 * eps)
            checked += 1
            if abs(got - want) > 2e-3 * total + 2e-3 * abs(want) + 1e-3:
                # a kink of relu or max within eps is not an error: look with another step
                eps = 1e-7
                want2 = (at(eps) - at(-eps)) / (2 * eps)
                if abs(got - want2) > 4e-3 * total + 2e-3 * abs(want2) + 2e-3 and abs(want - want2) < 1e-3 * (1 + total):
                    part = "all weights" if only is None else f"weight {only[1]} of layer {only[0]}"
                    raise Violation(
                        f"{what}: step {n} moved {part} by a slope of {got:.5g}, the loss has {want:.5g}")
    return checked
