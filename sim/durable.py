"""Crash and restart: what survives is the text of the configuration and the saved weights."""
import copy
import json
import os
import shutil
import tempfile

import jax.numpy as jnp  # noqa: the backend has to be there
import keras
import numpy as np

import groco.layers as GL

from sim import core, ref, world

CUSTOM = {
    name: cls for name, cls in vars(GL).items()
    if isinstance(cls, type) and issubclass(cls, keras.layers.Layer)
}


def text_of(obj):
    """Everything of an object that survives."""
    layers = obj.layers()
    return {
        "layers": [json.dumps(keras.saving.serialize_keras_object(l)) for l in layers],
        "configs": [json.dumps(keras.saving.serialize_keras_object(l)["config"]) for l in layers],
        "weights": [[np.array(v) for v in l.get_weights()] for l in layers],
    }


def revive_layer(cfg, text, how="config"):
    """A new layer from the text."""
    if how == "keras":
        return keras.saving.deserialize_keras_object(json.loads(text), custom_objects=CUSTOM)
    config = keras.saving.deserialize_keras_object(json.loads(text), custom_objects=CUSTOM)
    return world.layer_class(cfg).from_config(config)


def assemble(obj, layers):
    """Put layers together as in the original model."""
    if not obj.is_model:
        return layers[0]
    api = obj.spec["api"]
    if api == "subclass":
        model = world.SubclassModel([])
        model.cfgs = [dict(c) for c in obj.cfgs]
        model.parts = layers
        return model
    if api == "sequential":
        return keras.Sequential(layers)
    inp = keras.Input(ref.input_shape(obj.cfgs[0], obj.size)[1:])
    out = inp
    for layer in layers:
        out = layer(out)
    return keras.Model(inp, out)


def restart(obj, op):
    """Replace the object by one made from what survives of it."""
    new = copy.copy(obj)  # nobody sees it before it is complete
    revive(new, op)
    new.identity = world.identities(new)
    obj.keras, obj.identity = new.keras, new.identity


def revive(obj, op):
    how = op["how"]
    if not obj.is_model and how in ("clone", "save"):
        how = "same" if how == "clone" else "keras"
    if obj.is_model and how == "keras" and obj.spec["api"] == "subclass":
        how = "config"
    if how in ("config", "keras", "same"):
        with core.inhibit_faults():
            if how == "same":
                new = [l.__class__.from_config(l.get_config()) for l in obj.layers()]
                weights = [l.get_weights() for l in obj.layers()]
            else:
                text = text_of(obj)
                new = [
                    revive_layer(c, t, how)
                    for c, t in zip(obj.cfgs, text["layers" if how == "keras" else "configs"])
                ]
                weights = text["weights"]
            obj.keras = None
            obj.keras = assemble(obj, new)
            obj.build(obj.size)
            obj.assign(weights)
    elif how == "clone":
        old = obj.keras
        if obj.spec["api"] == "subclass":
            weights = [l.get_weights() for l in obj.layers()]
            obj.keras = world.SubclassModel.from_config(json.loads(json.dumps(old.get_config())))
            obj.build(obj.size)
            obj.assign(weights)
        else:
            with keras.saving.custom_object_scope(CUSTOM):
                new = keras.models.clone_model(old)
            obj.keras = new
            obj.build(obj.size)
            new.set_weights(old.get_weights())
    elif how in ("save", "weights"):
        scratch = tempfile.mkdtemp(prefix="restart-")
        try:
            if how == "save":
                path = os.path.join(scratch, "model.keras")
                obj.keras.save(path)
                obj.keras = None
                obj.keras = keras.saving.load_model(path, custom_objects=CUSTOM)
            elif obj.is_model:
                path = os.path.join(scratch, "model.weights.h5")
                obj.keras.save_weights(path)
                obj.keras = None
                obj.keras = obj.make()
                obj.build(obj.size)
                obj.keras.load_weights(path)
            else:
                store = {}
                obj.keras.save_own_variables(store)
                store = {k: np.array(v) for k, v in store.items()}
                obj.keras = None
                obj.keras = obj.make()
                obj.build(obj.size)
                obj.keras.load_own_variables(store)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    else:
        raise ValueError(how)
