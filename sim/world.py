"""Objects of a simulated world (layers and models of the code under test), the operations that
threads perform on them, and what the reference model expects of each operation."""
import itertools
import json
import random

import jax
import jax.numpy as jnp
import keras
import numpy as np

import groco.groups
import groco.layers as GL
from groco.groups import group_dict

from sim import core, ref


class SkipRun(Exception):
    """The run left what the property speaks about."""


class Violation(Exception):
    """The property is broken. `what` must not depend on the schedule in detail."""


# --------------------------------------------------------------------------------------------
# user supplied functions


class _Hooks:
    active = None  # called as active(place) inside user supplied functions


def _hook(place):
    sim = core.current()
    if sim is not None:
        sim.pause(f"user:{place}")
        me = sim.me()
        hook = getattr(me, "hook", None)
        if hook is not None:
            hook(place)


@keras.saving.register_keras_serializable(package="sim")
def sim_activation(x):
    """Identity, from which the simulator can look at the world, fail, or use the layer again."""
    _hook("activation")
    return x


@keras.saving.register_keras_serializable(package="sim")
class SimInitializer(keras.initializers.Initializer):
    def __init__(self, value=1):
        self.value = value

    def __call__(self, shape, dtype=None, **kwargs):
        _hook("initializer")
        return keras.ops.full(shape, self.value, dtype=dtype)

    def get_config(self):
        return {"value": self.value}


@keras.saving.register_keras_serializable(package="sim")
class SubclassModel(keras.Model):
    """A model written by subclassing, from a list of layer configurations."""

    def __init__(self, cfgs=(), **kwargs):
        super().__init__(**kwargs)
        self.cfgs = [dict(c) for c in cfgs]
        self.parts = [make_layer(c) for c in self.cfgs]

    def call(self, x):
        for part in self.parts:
            x = part(x)
        return x

    def get_config(self):
        return {**super().get_config(), "cfgs": self.cfgs}


ref.ACTIVATIONS["sim"] = lambda x: x

ACTIVATION = {None: None, "linear": "linear", "relu": "relu", "sim": sim_activation}


# --------------------------------------------------------------------------------------------
# making layers


POOLS = {
    ("pool", "max", 1): "GroupMaxPooling1D", ("pool", "avg", 1): "GroupAveragePooling1D",
    ("global", "max", 1): "GlobalGroupMaxPooling1D", ("global", "avg", 1): "GlobalGroupAveragePooling1D",
    ("pool", "max", 2): "GroupMaxPooling2D", ("pool", "avg", 2): "GroupAveragePooling2D",
    ("pool", "max", 3): "GroupMaxPooling3D", ("pool", "avg", 3): "GroupAveragePooling3D",
    ("global", "max", 2): "GlobalGroupMaxPooling2D", ("global", "avg", 2): "GlobalGroupAveragePooling2D",
    ("global", "max", 3): "GlobalGroupMaxPooling3D", ("global", "avg", 3): "GlobalGroupAveragePooling3D",
}


def layer_class(cfg):
    fam, dim = ref.family(cfg), ref.dimension(cfg)
    if fam in ("pool", "global"):
        return getattr(GL, POOLS[(fam, cfg["pool"], dim)])
    if fam == "pad":
        return GL.EquivariantPadding
    return getattr(GL, f"GroupConv{dim}D{'Transpose' if fam == 'tconv' else ''}")


def layer_kwargs(cfg):
    kw = _layer_kwargs(cfg)
    for key in ("kernel_size", "pool_size", "strides", "dilation_rate"):
        value = kw.get(key)
        if isinstance(value, list):
            kw[key] = tuple(value)
        if cfg.get("as_lists") and value is not None:
            kw[key] = list(ref.tup(value, ref.dimension(cfg)))
    return kw


def _layer_kwargs(cfg):
    fam = ref.family(cfg)
    kw = {}
    if cfg.get("name"):
        kw["name"] = cfg["name"]
    if cfg.get("dtype"):
        kw["dtype"] = cfg["dtype"]
    if "trainable" in cfg:
        kw["trainable"] = cfg["trainable"]
    if fam == "global":
        kw["keepdims"] = bool(cfg.get("keepdims"))
        if cfg.get("data_format"):
            kw["data_format"] = cfg["data_format"]
        return kw
    if not cfg.get("default_padding"):  # which is valid_equiv
        kw["padding"] = cfg.get("padding", "valid_equiv")
    if not cfg.get("default_strides"):  # 1, for pooling the pool size
        kw["strides"] = (cfg.get("strides", 1))
    if cfg.get("allow"):
        kw["allow_non_equivariance"] = True
    if cfg.get("data_format"):
        kw["data_format"] = cfg["data_format"]
    if fam == "pad":
        kw.update(kernel_size=(cfg["kernel"]), dimensions=ref.dimension(cfg))
        if cfg.get("transpose"):
            kw["transpose"] = True
        if cfg.get("dilation", 1) != 1:
            kw["dilation_rate"] = cfg["dilation"]
        kw.pop("trainable", None)
        return kw
    kw["group"] = group_dict[cfg["group"]] if cfg.get("as_object") else cfg["group"]
    if cfg.get("subgroup"):
        kw["subgroup"] = cfg["subgroup"]
    if fam == "pool":
        kw["pool_size"] = (cfg["kernel"])
        return kw
    kw.update(kernel_size=(cfg["kernel"]), filters=cfg["filters"])
    if ref.tup(cfg.get("dilation", 1), ref.dimension(cfg)) != (1,) * ref.dimension(cfg):
        kw["dilation_rate"] = (cfg["dilation"])
    if cfg.get("groups", 1) != 1:
        kw["groups"] = cfg["groups"]
    if not cfg.get("use_bias", True):
        kw["use_bias"] = False
    if cfg.get("activation"):
        kw["activation"] = ACTIVATION[cfg["activation"]]
    for key in ("kernel_initializer", "bias_initializer"):
        if cfg.get(key) is not None:
            value = cfg[key]
            kw[key] = SimInitializer(value) if isinstance(value, int) else value
    for key in ("kernel_regularizer", "bias_regularizer", "activity_regularizer",
                "kernel_constraint", "bias_constraint"):
        if cfg.get(key) is not None:
            kw[key] = cfg[key]
    return kw


PARTIALS = {2: "Conv2D", 3: "Conv3D"}


def make_layer(cfg):
    kw = layer_kwargs(cfg)
    cls = layer_class(cfg)
    if cfg.get("partial") and ref.family(cfg) == "conv":
        maker = getattr(GL, f"{cfg['group']}Conv{ref.dimension(cfg)}D", None)
        if maker is not None:
            kw.pop("group")
            return maker(**kw)
    return cls(**kw)


def integers(seed, shape, low, high):
    return np.random.RandomState(seed % (2**32)).randint(low, high + 1, shape).astype("float32")


def make_input(cfg, x):
    """x: {"s": seed, "n": spatial, "b": batch, "c": channels or None, "g": group or None}"""
    if x.get("g"):  # global pooling takes signals on any group
        cfg = {**cfg, "group": x["g"]}
    shape = ref.input_shape(cfg, x["n"], x.get("b", 2), x.get("c"))
    return integers(x["s"], shape, -5, 4).astype(x.get("d", "float32"))


def weight_values(shapes, seed, small=False):
    low, high = (-1, 1) if small else (-3, 3)
    return [integers(seed + 7919 * i, s, low, high) for i, s in enumerate(shapes)]


def close(a, b):
    tolerance = 1e-2 if getattr(a, "dtype", None) == np.float16 else 1e-4
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        return False
    fin = np.isfinite(b)
    if not np.array_equal(a[~fin], b[~fin]):
        return False
    scale = 1 + (np.max(np.abs(b[fin])) if fin.any() else 0)
    return bool(np.all(np.abs(a[fin] - b[fin]) <= tolerance * scale))


def brief(a):
    a = np.asarray(a)
    flat = a.ravel()[:6]
    return f"shape {tuple(a.shape)} [{', '.join('%g' % v for v in flat)}...]"


# --------------------------------------------------------------------------------------------
# configurations


ROTATING = {"P4", "P4M", "O", "Oh"}  # swap axes, so kernel sizes and strides must be equal


def gen_cfg(rng, kinds=("conv2", "tconv2", "pool2", "global2"), count=4, wish=None, **fixed):
    """A random configuration together with input sizes it accepts (cfg['sizes']).  What is in
    `wish` is fulfilled as far as possible."""
    wish = dict(wish or {})
    tries = 0
    while True:
        tries += 1
        if tries % 40 == 0:
            if not wish:
                raise RuntimeError("no configuration found")
            wish.pop(rng.choice(sorted(wish)))
        cfg = _draw(rng, kinds, {**wish, **fixed})
        if not well_formed(cfg):
            continue
        sizes = sizes_for(rng, cfg, count, 14 + 3 * count)
        if len(sizes) >= 2:
            cfg["sizes"] = [list(s) for s in sizes]
            cfg["bad_sizes"] = [list(s) for s in sizes_for(rng, cfg, 3, 12, bad=True)]
            return cfg


EXTRAS = {
    "kernel_initializer": ["he_normal", "zeros", 1], "bias_initializer": ["ones", "zeros"],
    "kernel_regularizer": ["l2", "l1"], "bias_regularizer": ["l2"], "activity_regularizer": ["l2"],
    "kernel_constraint": ["max_norm", "non_neg"], "bias_constraint": ["non_neg"],
}


MIXED = {"kernel": [[2, 3], [3, 1], [3, 2], [1, 4]], "strides": [[2, 1], [1, 3], [3, 2], [1, 2]],
         "dilation": [[2, 1], [1, 2], [3, 1]]}


def _draw(rng, kinds, fixed):
    kind = fixed.get("kind") or rng.choice(kinds)
    fam, dim = kind[:-1], int(kind[-1])
    names = [g for g, r in ref.GROUPS.items() if r.dim == max(dim, 2)]
    weights = {"Oh": 1, "O": 2, "D4h": 3, "D4": 4, "P1": 1}
    cfg = {"kind": kind}
    group = fixed.get("group") or rng.choices(names, [weights.get(n, 4) for n in names])[0]
    cfg["group"] = group
    cfg["subgroup"] = rng.choice([""] * 3 + list(ref.SUBGROUPS[group]))
    if fixed.get("smaller"):  # a subgroup that is not the group itself
        cfg["subgroup"] = rng.choice([n for n in ref.SUBGROUPS[group] if n != group] or [""])
    cfg["lift"] = rng.random() < 0.35 and fam in ("conv", "tconv")
    cfg["data_format"] = rng.choice(["channels_last"] * 2 + ["channels_first"])
    cfg["channels"] = rng.choice([1, 2, 2, 3, 4])
    if fam == "global":
        cfg.update(pool=rng.choice(["max", "avg"]), keepdims=rng.random() < 0.4)
    else:
        mixed = group not in ROTATING and dim == 2
        cfg["kernel"] = rng.choice([1, 2, 3, 3] + ([4, 5] if dim <= 2 else [])
                                   + ([[2, 3], [3, 1], [3, 2], [1, 4]] if mixed else []))
        cfg["strides"] = rng.choice([1, 1, 1, 2, 2, 3] + ([[2, 1], [1, 3]] if mixed else []))
        for key, values in MIXED.items():  # a wish for sizes that differ between the axes
            if fixed.get(key) == "mixed":
                fixed = {**fixed, key: rng.choice(values if mixed else [2, 3])}
        cfg["dilation"] = 1
        if fam in ("conv", "tconv", "pad") and cfg["strides"] == 1 and rng.random() < 0.2:
            cfg["dilation"] = rng.choice([2, 2, 3] + ([[2, 1]] if mixed else []))
        cfg["padding"] = rng.choice(["valid_equiv"] * 2 + ["same_equiv"] * 3 + ["same", "valid"])
        cfg["allow"] = rng.random() < 0.15
        if fam == "pool":
            cfg["pool"] = rng.choice(["max", "avg"])
        if fam in ("conv", "tconv"):
            cfg["filters"] = rng.choice([1, 2, 2, 3, 4])
            cfg["use_bias"] = rng.random() < 0.75
            cfg["activation"] = rng.choice([None, "relu", "sim", "sim"])
            cfg["partial"] = rng.random() < 0.2 and fam == "conv"
        if fam == "pad":
            cfg["transpose"] = rng.random() < 0.4
        cfg["as_object"] = rng.random() < 0.2
        cfg["as_lists"] = rng.random() < 0.15
    wide = rng.random() < 0.07 and dim <= 2
    half = rng.random() < 0.15 and not wide
    channel_groups = rng.random() < 0.06
    cfg.update(fixed)
    if wide and not cfg.get("plain"):
        cfg["channels"] = rng.choice([5, 6, 8])
        if fam in ("conv", "tconv"):
            cfg["filters"] = rng.choice([5, 6])
        cfg["wide"] = True
    if channel_groups and fam == "conv" and not cfg.get("plain"):
        cfg.update(groups=2, channels=2 * cfg["channels"], filters=2 * rng.choice([1, 1, 2]))
    if half and not cfg.get("plain") and dim <= 2 and cfg["channels"] <= 2 and max(ref.extents(cfg) if fam != "global" else (1,)) <= 3:
        cfg["dtype"] = rng.choice(["mixed_float16", "float16"])
    if cfg.get("extras") and fam in ("conv", "tconv"):
        for key, values in EXTRAS.items():
            if rng.random() < 0.25:
                cfg[key] = rng.choice(values)
    if cfg.get("extras") and fam != "pad" and rng.random() < 0.15:
        cfg["trainable"] = False
    for key in ("plain", "extras", "smaller"):
        cfg.pop(key, None)
    if cfg["kind"].startswith("pad"):
        cfg["lift"] = True
    if fam != "global":
        if rng.random() < 0.3 and cfg["padding"] == "valid_equiv":
            cfg["default_padding"] = True
        if rng.random() < 0.4 and fam != "pad" and cfg["strides"] == (cfg["kernel"] if fam == "pool" else 1):
            cfg["default_strides"] = True
    return cfg


def well_formed(cfg):
    """Kernels and strides differ between axes only for groups that do not swap these."""
    dim = ref.dimension(cfg)
    if ref.GROUPS[cfg["group"]].dim != max(dim, 2):
        return False
    if ref.family(cfg) == "global":
        return True
    if cfg["group"] in ROTATING or dim == 3:
        for key in ("kernel", "strides", "dilation"):
            if len(set(ref.tup(cfg.get(key, 1), dim))) > 1:
                return False
    if cfg.get("default_padding") and cfg["padding"] != "valid_equiv":
        return False
    if cfg.get("default_strides") and cfg["strides"] != (cfg["kernel"] if ref.family(cfg) == "pool" else 1):
        return False
    if cfg.get("dilation", 1) != 1 and ref.tup(cfg["strides"], dim) != (1,) * dim:
        return False
    return True


def sizes_for(rng, cfg, count=4, tries=14, bad=False):
    """Spatial sizes the layer accepts (or, with bad, refuses because of the padding)."""
    dim = ref.dimension(cfg)
    found = []
    for _ in range(tries):
        low, high = {1: (3, 14), 2: (8, 16) if cfg.get("wide") else (3, 9), 3: (2, 5)}[dim]
        if rng.random() < 0.6:
            size = (rng.randint(low, high),) * dim
        else:
            size = tuple(rng.randint(low, high) for _ in range(dim))
        if size in found:
            continue
        if accepts(cfg, size, bad):
            found.append(size)
        if len(found) == count:
            break
    return found


def accepts(cfg, size, bad=False):
    """Whether the layer takes inputs of this size (or, with bad, refuses them because of the padding)."""
    if ref.family(cfg) == "global":
        return not bad
    if any(n < k for n, k in zip(size, ref.extents(cfg))):
        return False
    return isinstance(ref.extra_padding(cfg, tuple(size)), str) == bad


def gen_model(rng, dim=2, api=None, **wish):
    """A chain of layers on which signals stay small integers."""
    for _ in range(200):
        cfgs = _draw_model(rng, dim, **wish)
        sizes = model_sizes(rng, cfgs)
        if len(sizes) >= 2:
            api = api or rng.choice(["sequential", "functional", "subclass", "subclass"])
            if api != "subclass":  # these are for one size
                sizes = sizes[:1]
            return {"type": "model", "api": api, "cfgs": cfgs, "sizes": [list(s) for s in sizes]}
    raise RuntimeError("no model found")


PARTS = ["LPG", "LCG", "LCP", "LG", "LC", "LT"]


def _draw_model(rng, dim, parts=None, data_format=None):
    names = [g for g, r in ref.GROUPS.items() if r.dim == dim and g not in ("Oh", "P1")]
    if dim == 3:
        names = ["D4", "D4", "D4h", "O"]
    group = rng.choice(names)
    fmt = data_format or rng.choice(["channels_last"] * 3 + ["channels_first"])
    common = dict(data_format=fmt)
    cfgs, channels = [], rng.choice([1, 2])
    plan = parts or rng.choice(PARTS)
    for step in plan:
        if step == "G":
            c = dict(kind=f"global{dim}", pool=rng.choice(["max", "avg"]), keepdims=False, group=group)
        else:
            sub = rng.choice([""] * 3 + list(ref.SUBGROUPS[group])) if step != "T" else ""
            c = dict(kind=f"{dict(P='pool', T='tconv').get(step, 'conv')}{dim}", group=group, subgroup=sub,
                     lift=step == "L", kernel=rng.choice([2, 3] if step != "P" else [2]),
                     strides=1 if step != "P" else rng.choice([1, 2]), dilation=1,
                     padding=rng.choice(["same_equiv", "valid_equiv"]), allow=False)
            if step == "P":
                c["pool"] = rng.choice(["max", "avg"])
            else:
                c.update(filters=rng.choice([1, 2]), use_bias=rng.random() < 0.8,
                         activation=rng.choice([None, "relu", "sim"]))
            group = sub or group
        c.update(common)
        c["channels"] = channels
        channels = c.get("filters", channels)
        cfgs.append(c)
    return cfgs


def _chain_spatial(cfgs, size):
    for c in cfgs:
        if ref.family(c) == "global":
            return ()
        if any(n < k for n, k in zip(size, ref.extents(c))):
            return None
        if isinstance(ref.extra_padding(c, size), str):
            return None
        size = ref._out_spatial(c, size)
    return size


def model_sizes(rng, cfgs, count=3):
    dim = ref.dimension(cfgs[0])
    found = []
    for _ in range(12):
        low, high = (4, 8) if dim == 2 else (3, 5)
        size = (rng.randint(low, high),) * dim
        if size not in found and _chain_spatial(cfgs, size) is not None:
            found.append(size)
        if len(found) == count:
            break
    return found


def spec_of(cfg):
    return {"type": "layer", "cfgs": [cfg], "sizes": cfg["sizes"]}


# --------------------------------------------------------------------------------------------
# objects


def expected_chain(cfgs, weights, x):
    """weights: list per layer of its weight arrays."""
    for c, w in zip(cfgs, weights):
        x = ref.forward(c, w, x)
    return x


def weight_shapes(cfg):
    """Shapes of the weights a layer must have."""
    if not ref.is_conv(cfg):
        return []
    dim = ref.dimension(cfg)
    domain = ref.groups_of(cfg)[0]
    order = len(ref.SUBGROUPS[cfg["group"]][domain]) if domain else 1
    k = ref.tup(cfg["kernel"], dim)
    inner = cfg["channels"] * order
    if ref.family(cfg) == "conv":
        shapes = [k + (inner // cfg.get("groups", 1), cfg["filters"])]
    else:
        shapes = [k + (cfg["filters"], inner)]
    return shapes + ([(cfg["filters"],)] if cfg.get("use_bias", True) else [])


class Obj:
    """A layer or model of the code under test with the weights it should have."""

    def __init__(self, spec, seed=0, build=True, size=None):
        self.spec, self.cfgs = spec, spec["cfgs"]
        self.is_model = spec["type"] == "model"
        self.weights = [
            weight_values(weight_shapes(c), seed + 131 * i, small=self.is_model)
            for i, c in enumerate(self.cfgs)
        ]
        self.size = size or spec["sizes"][0]
        self.keras = self.make()
        if build:
            self.build(self.size)
            self.assign(self.weights)

    def make(self):
        if not self.is_model:
            return make_layer(self.cfgs[0])
        api = self.spec["api"]
        if api == "subclass":
            return SubclassModel(self.cfgs)
        layers = [make_layer(c) for c in self.cfgs]
        if api == "sequential":
            return keras.Sequential(layers)
        inp = keras.Input(ref.input_shape(self.cfgs[0], self.size)[1:])
        out = inp
        for layer in layers:
            out = layer(out)
        return keras.Model(inp, out)

    def layers(self):
        if not self.is_model:
            return [self.keras]
        if self.spec["api"] == "subclass":
            return list(self.keras.parts)
        return [l for l in self.keras.layers if not isinstance(l, keras.layers.InputLayer)]

    def build(self, size):
        shape = ref.input_shape(self.cfgs[0], size)
        if self.is_model and self.spec["api"] != "functional":
            self.keras(np.zeros(shape, "float32"))
        elif not self.is_model and not self.keras.built:
            self.keras.build(shape)

    def assign(self, weights):
        for layer, values in zip(self.layers(), weights):
            if values:
                layer.set_weights(values)

    def input(self, x):
        return make_input(self.cfgs[0], x)

    def supported(self):
        return all(ref.supported(c) for c in self.cfgs)

    def expect(self, x, weights=None):
        return expected_chain(self.cfgs, weights or self.weights, self.input(x))

    def out_shape(self, x):
        size, batch = tuple(x["n"]), x.get("b", 2)
        for c in self.cfgs[:-1]:
            size = ref._out_spatial(c, size)
        return ref.output_shape(self.cfgs[-1], size, batch,
                                x.get("c") if len(self.cfgs) == 1 else None)


def call(obj, x, mode="eager"):
    """Call the object and return the output as numpy array (for 'symbolic': the output shape)."""
    k = obj.keras
    a = obj.input(x) if isinstance(x, dict) else x
    if mode == "eager":
        before = a.copy()
        y = k(a)
        if not np.array_equal(a, before):
            raise Violation("a call changed its input array")
        return np.asarray(y)
    if mode == "tensor":
        return np.asarray(k(jnp.asarray(a)))
    if mode == "training":
        return np.asarray(k(a, training=True) if obj.is_model else k(a))
    if mode == "jit":
        return np.asarray(jax.jit(lambda z: k(z))(a))
    if mode == "stateless":
        tv = [v.value for v in k.trainable_variables]
        nv = [v.value for v in k.non_trainable_variables]
        return np.asarray(k.stateless_call(tv, nv, a)[0])
    if mode in ("functional", "jitfunctional"):  # with weights that are not the layer's own
        f = lambda tv, nv, z: k.stateless_call(tv, nv, z)[0]
        f = jax.jit(f) if mode == "jitfunctional" else f
        return np.asarray(f(*given_variables(obj, x), a))
    if mode == "vmap":
        return np.asarray(jax.vmap(lambda z: k(z[None])[0])(a))
    if mode == "grad":
        # gradient with respect to the input and the value; the value is returned
        def f(z):
            y = k(z)
            return keras.ops.sum(y), y

        _, y = jax.grad(f, has_aux=True)(jnp.asarray(a))
        return np.asarray(y)
    if mode == "jitgrad":  # what a training step is made of
        f = jax.jit(jax.value_and_grad(lambda z: keras.ops.sum(k(z)), argnums=0))
        total, gradient = f(jnp.asarray(a))
        if tuple(gradient.shape) != tuple(a.shape):
            raise Violation(f"a gradient has shape {gradient.shape} for an input of {a.shape}")
        return np.asarray(jax.jit(lambda z: k(z))(a))
    if mode == "jitvmap":
        return np.asarray(jax.jit(jax.vmap(lambda z: k(z[None])[0]))(a))
    if mode == "jvp":
        return np.asarray(jax.jvp(lambda z: k(z), (jnp.asarray(a),), (jnp.ones_like(a),))[0])
    if mode == "checkpoint":  # rematerialisation traces twice
        _, y = jax.grad(lambda z: (lambda y: (keras.ops.sum(y), y))(jax.checkpoint(lambda u: k(u))(z)), has_aux=True)(jnp.asarray(a))
        return np.asarray(y)
    if mode == "predict":
        return np.asarray(k.predict(a, verbose=0, batch_size=len(a))) if obj.is_model else np.asarray(k(a))
    if mode == "symbolic":
        y = k(keras.KerasTensor((None,) + a.shape[1:], dtype="float32"))
        if isinstance(y, list) and len(y) == 1:  # what this Keras does for functional models it loaded
            y = y[0]
        return tuple(y.shape)
    raise ValueError(mode)


def given_weights(obj, x):
    """Weights that are given to a call, instead of those of the layer."""
    return [weight_values(weight_shapes(c), x.get("v", 0) + 31 * i, small=obj.is_model)
            for i, c in enumerate(obj.cfgs)]


def given_variables(obj, x):
    given = {}
    for layer, values in zip(obj.layers(), given_weights(obj, x)):
        for variable, value in zip(layer.weights, values):
            given[id(variable)] = jnp.asarray(value, dtype=variable.dtype)
    pick = lambda variables: [given[id(v)] if id(v) in given else v.value for v in variables]
    return pick(obj.keras.trainable_variables), pick(obj.keras.non_trainable_variables)


def check_output(obj, x, mode, got, expect, what):
    if mode == "symbolic":
        want = (None,) + tuple(obj.out_shape(x))[1:]
        if got != want:
            raise Violation(f"{what}: symbolic output shape {got}, expected {want}")
    elif not close(got, expect):
        raise Violation(f"{what}: output {brief(got)}, expected {brief(expect)}")


SOLO_CACHE = {}


def solo(spec, weights, x, size=None):
    """Output of a new object with these weights, alone, for configurations the reference model
    does not cover."""
    key = json.dumps([spec, x], sort_keys=True, default=list) + str([w.tobytes() for ws in weights for w in ws])
    if key not in SOLO_CACHE:
        fresh = Obj(spec, size=list(x["n"]))
        fresh.assign(weights)
        SOLO_CACHE[key] = np.asarray(fresh.keras(fresh.input(x)))
    return SOLO_CACHE[key]


def expect(obj, x, weights=None):
    weights = weights or obj.weights
    if obj.supported():
        return expected_chain(obj.cfgs, weights, obj.input(x))
    return solo(obj.spec, weights, x)


# --------------------------------------------------------------------------------------------
# looking at a layer


def expected_config(cfg):
    """The options a layer was given, as its config must show them."""
    fam, dim = ref.family(cfg), ref.dimension(cfg)
    out = {}
    if cfg.get("name"):
        out["name"] = cfg["name"]
    if fam != "pad":
        out["trainable"] = cfg.get("trainable", True)
    if fam == "global":
        out["keepdims"] = bool(cfg.get("keepdims"))
        out["data_format"] = cfg.get("data_format", "channels_last")
        return out
    out["strides"] = list(ref.tup(cfg.get("strides", 1), dim))
    out["padding"] = cfg.get("padding", "valid_equiv")
    out["data_format"] = cfg.get("data_format", "channels_last")
    out["allow_non_equivariance"] = bool(cfg.get("allow"))
    if fam == "pad":
        out["kernel_size"] = list(ref.tup(cfg["kernel"], dim))
        out["dilation_rate"] = list(ref.tup(cfg.get("dilation", 1), dim))
        out["transpose"] = bool(cfg.get("transpose"))
        return out
    out["group"] = cfg["group"]
    out["subgroup"] = cfg.get("subgroup") or cfg["group"]
    if fam == "pool":
        out["pool_size"] = list(ref.tup(cfg["kernel"], dim))
        return out
    out["kernel_size"] = list(ref.tup(cfg["kernel"], dim))
    out["filters"] = cfg["filters"]
    out["use_bias"] = bool(cfg.get("use_bias", True))
    out["dilation_rate"] = list(ref.tup(cfg.get("dilation", 1), dim))
    out["activation"] = {None: "linear", "sim": "sim>sim_activation"}.get(cfg.get("activation"), cfg.get("activation"))
    out["groups"] = cfg.get("groups", 1)
    for key in EXTRAS:
        out[key] = NAMES.get(cfg.get(key))
        if key.endswith("initializer") and out[key] is None:
            out[key] = "GlorotUniform" if key.startswith("kernel") else "Zeros"
    return out


NAMES = {"l1": "L1", "l2": "L2", "max_norm": "MaxNorm", "non_neg": "NonNeg", "he_normal": "HeNormal",
         "zeros": "Zeros", "ones": "Ones", 1: "SimInitializer"}


def config_differs(config, cfg):
    """Text saying where a config does not show an option, or None."""
    for key, value in expected_config(cfg).items():
        got = config.get(key, "missing")
        if isinstance(got, dict) and not isinstance(value, dict):
            got = got.get("config") if got.get("class_name") == "function" else got.get("class_name")
        if isinstance(got, str) and isinstance(value, str):
            same = got.lower() == value.lower()
        elif isinstance(value, list) and isinstance(got, int):
            same = [got] * len(value) == value
        else:
            same = got == value
        if not same and not (key == "groups" and got == "missing" and ref.family(cfg) == "tconv"):
            return f"config has {key}={got!r}, expected {value!r}"
    return None


def json_config(layer):
    """The config as it survives on disk."""
    config = keras.saving.serialize_keras_object(layer)["config"]
    return json.loads(json.dumps(config))


def check_config(layer, cfg, what):
    try:
        config = json_config(layer)
    except (core.Abandoned, Violation):
        raise
    except Exception as e:
        raise Violation(f"{what}: config cannot be written as JSON: {type(e).__name__}: {e}")
    text = config_differs(config, cfg)
    if text:
        raise Violation(f"{what}: {text}")
    return config


def check_state(obj, what, weights=None, identity=None, config=True):
    """What anybody can see of the layers of `obj` outside of calls, and must see during them."""
    weights = weights or obj.weights
    for i, (layer, cfg, values) in enumerate(zip(obj.layers(), obj.cfgs, weights)):
        name = f"{what}: layer {i} ({cfg['kind']})"
        if not layer.built:
            raise Violation(f"{name} is not built")
        if ref.is_conv(cfg):
            if layer.filters != cfg["filters"]:
                raise Violation(f"{name} shows filters={layer.filters}, expected {cfg['filters']}")
            variables = list(layer.weights)
            if identity is not None and [id(v) for v in variables] != identity[i]:
                raise Violation(f"{name}: its weights are other objects than before")
            shapes = weight_shapes(cfg)
            if [tuple(v.shape) for v in variables] != shapes:
                raise Violation(f"{name}: weights of shapes {[tuple(v.shape) for v in variables]}, expected {shapes}")
            if len(layer.trainable_variables) != len(shapes) * cfg.get("trainable", True):
                raise Violation(f"{name}: {len(layer.trainable_variables)} trainable weights, expected {len(shapes)}")
            seen = [layer.kernel] + ([layer.bias] if cfg.get("use_bias", True) else [])
            for attr, v, w in zip(("kernel", "bias"), seen, values):
                if tuple(v.shape) != w.shape or not close(np.asarray(v), w):
                    raise Violation(f"{name} shows {attr} {brief(np.asarray(v))}, expected {brief(w)}")
            for v, w in zip(layer.get_weights(), values):
                if not close(v, w):
                    raise Violation(f"{name}: get_weights gives {brief(v)}, expected {brief(w)}")
            if layer.count_params() != sum(int(np.prod(s)) for s in shapes):
                raise Violation(f"{name}: count_params is {layer.count_params()}")
        if config:
            check_config(layer, cfg, name)


def identities(obj):
    return [[id(v) for v in layer.weights] for layer in obj.layers()]


def declared_shape(obj, x):
    """compute_output_shape of a layer for the input's shape, or None where it has none."""
    if obj.is_model or not ref.is_conv(obj.cfgs[0]):
        return None
    return tuple(obj.keras.compute_output_shape(ref.input_shape(obj.cfgs[0], x["n"], x.get("b", 2))))


def check_declared(obj, x, what):
    got = declared_shape(obj, x)
    if got is not None and got != tuple(obj.out_shape(x)):
        raise Violation(f"{what}: declared output shape {got}, expected {obj.out_shape(x)}")


# --------------------------------------------------------------------------------------------
# groups


def registry_snapshot():
    out = {}
    for name, g in group_dict.items():
        out[name] = (
            id(g), g.name, g.order,
            np.asarray(g.composition).tolist(), [int(i) for i in g.inverses],
            {k: [int(i) for i in v] for k, v in g.subgroup.items()},
            {k: [int(i) for i in v] for k, v in g.cosets.items()},
            None if g.parent is None else g.parent.name,
        )
    return out


REGISTRY = None


def check_registry(what):
    """The groups are what the reference model says, and the same objects as at import."""
    global REGISTRY
    now = registry_snapshot()
    if set(now) != set(ref.GROUPS):
        raise Violation(f"{what}: the registered groups are {sorted(now)}")
    if REGISTRY is None:
        REGISTRY = {k: v[0] for k, v in now.items()}
    for name, (ident, gname, order, comp, inv, sub, cos, parent) in now.items():
        r = ref.GROUPS[name]
        if REGISTRY[name] != ident:
            raise Violation(f"{what}: group {name} is another object than at import")
        if gname != name or order != r.order:
            raise Violation(f"{what}: group {name} is called {gname} and has order {order}")
        if comp != r.compose.tolist():
            raise Violation(f"{what}: the composition table of {name} changed")
        if inv != r.inverse:
            raise Violation(f"{what}: the inverses of {name} changed: {inv}")
        if sub != ref.SUBGROUPS[name]:
            raise Violation(f"{what}: the subgroups of {name} changed: {sub}")
        want = {s: ref.coset_representatives(name, s) for s in ref.SUBGROUPS[name]}
        if cos != want:
            raise Violation(f"{what}: the cosets of {name} changed: {cos}")


def sub_rng(*parts):
    return random.Random("|".join(map(str, parts)))


# --------------------------------------------------------------------------------------------
# where equivariance is promised


def pooling_gap(cfg, size):
    """Known finding: padding of a pooling where both the built in and the extra part are odd."""
    if ref.family(cfg) != "pool" or cfg.get("padding") != "same_equiv":
        return False
    dim = ref.dimension(cfg)
    pads = ref.extra_padding(cfg, size)
    for n, k, s, (a, b) in zip(size, ref.extents(cfg), ref.tup(cfg["strides"], dim), pads):
        builtin = max((-(-n // s) - 1) * s + k - n, 0)
        if builtin % 2 and (a + b) % 2:
            return True
    return False


def promised(cfgs, size):
    """Whether this chain is promised to be equivariant for inputs of this size."""
    size = tuple(size)
    for c in cfgs:
        fam, dim = ref.family(c), ref.dimension(c)
        if fam == "pad" or dim == 1:
            return False
        if fam == "global":
            continue
        if c.get("allow") and not c["padding"].endswith("_equiv"):
            return False
        if c.get("groups", 1) != 1:
            return False
        if isinstance(ref.extra_padding(c, size), str) or pooling_gap(c, size):
            return False
        strides = ref.tup(c.get("strides", 1), dim)
        if fam == "tconv" and set(strides) != {1}:
            if c["padding"].startswith("same") or strides != ref.tup(c["kernel"], dim):
                return False
        if fam == "tconv" and len(cfgs) > 1:
            return False
        size = ref._out_spatial(c, size)
    return True
