"""Scenario generators, one per property.

A bucket (one process) has a palette of layer and model specifications; scenarios draw from it, so
that after the first few runs nothing has to be compiled any more.  Everything comes from one
pseudo random generator.
"""
import itertools
import random

from sim import ref, world

EAGER = ["eager", "tensor", "training"]
TRACED = ["jit", "stateless", "grad", "vmap", "symbolic"]
RARE = ["jitgrad", "jitvmap", "jvp", "checkpoint", "predict", "functional", "functional", "jitfunctional"]


class Gen:
    def __init__(self, prop, rng, seed=0, bucket=0):
        self.prop, self.rng, self.n = prop, rng, 0
        self.seed, self.bucket = seed, bucket
        self.palette = []

    # -- small helpers

    def id(self):
        self.n += 1
        return f"op{self.n}"

    def op(self, do, o=None, **kw):
        d = {"id": self.id(), "do": do}
        if o is not None:
            d["o"] = o
        d.update(kw)
        return d

    def chance(self, p):
        return self.rng.random() < p

    def x(self, spec, size=None, batch=None):
        rng = self.rng
        return {"s": rng.randint(0, 3), "n": size or rng.choice(spec["sizes"]),
                "b": batch or rng.choice([2, 2, 2, 2, 1, 3] if rng.random() < 0.97 else [4, 5, 8])}

    def mode(self, eager=0.6):
        if self.chance(eager):
            return self.rng.choice(EAGER[:1] * 4 + EAGER)
        return self.rng.choice(TRACED if self.chance(0.8) else RARE)

    def call(self, o, spec, mode=None, **kw):
        op = self.op("call", o, x=self.x(spec, kw.pop("size", None)), mode=mode or self.mode(), **kw)
        if op["mode"] == "predict" and spec["type"] != "model":
            op["mode"] = "eager"
        if op["mode"].endswith("functional"):
            op["x"]["v"] = self.rng.randint(20, 90)
        if op["mode"] == "eager" and self.chance(0.06):
            # inputs of another type
            op["x"]["d"] = self.rng.choice(["float64", "float16"] + ["int32"] * (
                ref.is_conv(spec["cfgs"][0]) and not spec["cfgs"][0].get("dtype")))
        fam = ref.family(spec["cfgs"][0])
        if spec["type"] == "layer" and fam in ("pool", "global", "pad") and "expect" not in op:
            # these have no weights, so nothing ties them to a number of channels
            if self.chance(0.2):
                op["x"]["c"] = spec["cfgs"][0]["channels"] + 1
            if fam == "global" and self.chance(0.4):
                dim = max(ref.dimension(spec["cfgs"][0]), 2)
                op["x"]["g"] = self.rng.choice(["P1", "PMw", "P4"] if dim == 2 else ["D4", "O"])
        return op

    def look(self, o, what="all"):
        return self.op("look", o, what=what)

    def save(self, o, **kw):
        return self.op("save", o, how=self.rng.choice(["get", "get", "own", "summary"]), **kw)

    def obj(self, spec, **kw):
        size = self.rng.choice(spec["sizes"])
        return {"spec": spec, "seed": self.rng.randint(0, 9), "size": size, **kw}

    def can_declare(self, spec):
        return spec["type"] == "layer" and ref.is_conv(spec["cfgs"][0])

    def act(self, group=None):
        rng = self.rng
        related = group is not None
        group = group or rng.choices(list(ref.GROUPS), [1 if g == "Oh" else 3 for g in ref.GROUPS])[0]
        dim = ref.GROUPS[group].dim
        op = dict(group=group, s=rng.randint(0, 3), n=rng.choice([2, 3]) if dim == 3 else rng.choice([2, 3, 4]),
                  lead=rng.choice([0, 1, 1]), tail=rng.choice([0, 1, 1]),
                  acting=rng.choice([""] + list(ref.SUBGROUPS[group])),
                  on=rng.choice([None, group] + list(ref.SUBGROUPS[group])))
        if related and rng.random() < 0.6:  # on a subgroup, that has to be extended
            op["on"] = rng.choice([n for n in ref.SUBGROUPS[group] if n != group] or [group])
        op["axis"] = rng.choice([0, op["lead"], op["lead"] + dim])
        if op["on"] and op["axis"] > op["lead"] + dim:
            op["axis"] = 0
        op["mode"] = rng.choice(["eager"] * 6 + ["tensor", "jit", "jit", "vmap", "int"])
        if op["mode"] == "vmap":
            op["lead"] = max(op["lead"], 1)
            op["axis"] = 0
        if dim == 2 and self.chance(0.3):
            # groups that do not rotate act on any rectangle
            if group not in world.ROTATING:
                op["n"] = [rng.choice([2, 3]), rng.choice([2, 3, 4])]
        return self.op("act", **op)

    def bad_act(self):
        """An action that is not defined."""
        op = self.act()
        big = op["group"]
        other = [g for g in ref.GROUPS if g not in ref.SUBGROUPS[big]] + ["nonsense"]
        op["mode"] = "eager"
        op["wrong"] = "acting"
        op["acting"] = self.rng.choice(other)
        return op

    # -- palettes

    # Kinds of layers, and per kind their main features, are dealt out over the processes of a check
    # like cards, so that each check sees all of them whatever its seed.

    KINDS = ["conv2"] * 9 + ["tconv2"] * 6 + ["conv3"] * 5 + ["tconv3"] * 4 + ["pool2"] * 5 + ["pool3"] * 3 + \
        ["global2"] * 2 + ["global3", "pad2", "pad3", "pool1", "global1"] + ["model2"] * 8 + ["model3"] * 2
    CONVS = ["conv2"] * 5 + ["tconv2"] * 3 + ["conv3"] * 3 + ["tconv3"] * 2
    WISHES = {
        "data_format": ["channels_last", "channels_first"],
        "padding": ["valid_equiv", "same_equiv", "same_equiv", "valid_equiv", "same", "valid"],
        "smaller": [True, False], "strides": [1, 2, 1, 3, 2, "mixed"], "dilation": [1, 1, 2, 1, 3, "mixed", 1],
        "lift": [False, True, False], "kernel": [3, 2, 1, 3, 4, 5, "mixed"], "use_bias": [True, True, False],
        "pool": ["max", "avg"], "keepdims": [True, False], "allow": [False] * 5 + [True],
    }

    def dealt(self, name, cards, n):
        """The n-th card of a deck that is shuffled anew each time it has been dealt out."""
        cards = list(cards)
        world.sub_rng(self.seed, self.prop, name, n // len(cards)).shuffle(cards)
        return cards[n % len(cards)]

    def next_spec(self, deck, slot, **fixed):
        """The spec for this slot of the whole check."""
        name = "kinds of " + "".join(deck)
        kind = self.dealt(name, deck, slot)
        occurrence = sum(self.dealt(name, deck, n) == kind for n in range(slot))
        fam, dim = kind[:-1], int(kind[-1])
        group = self.dealt(kind + " group", sorted(g for g, r in ref.GROUPS.items() if r.dim == max(dim, 2)
                                                   and g not in ("P1", "Oh") or g == "O"
                                                   and dim == 3), occurrence)
        if fam == "model":
            return world.gen_model(
                self.rng, dim, api=self.dealt(kind + " api", ["sequential", "functional", "subclass", "subclass"], occurrence),
                parts=self.dealt(kind + " parts", world.PARTS, occurrence),
                data_format=self.dealt(kind + " format", ["channels_last", "channels_first"], occurrence))
        wish = {"group": group}
        for feature, cards in self.WISHES.items():
            if feature == "lift" and fam not in ("conv", "tconv") or feature == "keepdims" and fam != "global" \
                    or feature == "pool" and fam not in ("pool", "global") or feature == "smaller" and fam == "global" \
                    or feature == "use_bias" and fam not in ("conv", "tconv"):
                continue
            if feature == "dilation" and (fam not in ("conv", "tconv", "pad") or wish.get("strides", 1) != 1):
                continue
            if fam in ("global",) and feature in ("padding", "strides", "kernel", "allow"):
                continue
            if feature == "kernel" and dim == 3:
                cards = [1, 2, 3, 2]
            if feature == "kernel" and self.chance(0.25):
                continue  # also not square ones
            if (self.prop, feature) == ("C10", "strides"):
                cards = cards + ["mixed"]
            wish[feature] = self.dealt(f"{kind} {feature}", cards, occurrence)
        if dim == 2 and "mixed" in wish.values() and group in world.ROTATING and self.chance(0.6):
            wish["group"] = self.rng.choice(["P2", "PMh", "PMw", "P2MM"])
        return world.spec_of(world.gen_cfg(self.rng, [kind], self.SIZES.get(self.prop, 4), wish, kind=kind, **fixed))

    SIZES = {"C06": 7}

    def fill(self, count, deck=None, **fixed):
        for j in range(count):
            self.palette.append(self.next_spec(deck or self.KINDS, self.bucket * count + j, **fixed))

    def draw(self, kinds, **fixed):
        return world.spec_of(world.gen_cfg(self.rng, kinds, **fixed))

    def setup(self, bucket):
        getattr(self, "setup_" + self.prop, self.setup_default)(bucket)

    def setup_default(self, bucket):
        self.fill(3)

    def scenario(self, i):
        sc = getattr(self, "scenario_" + self.prop)(i)
        sc["prop"] = self.prop
        sc.setdefault("after", [])
        sc.setdefault("fault_ops", [])
        return sc

    # groups by how often they are acted with in several threads at once
    BUSY = ["P4M"] * 3 + ["P2MM"] * 3 + ["P4", "P2", "PMh", "PMw", "P1", "D4h", "D4h", "D4", "O", "Oh"]

    # -- C01: concurrent calls

    def some_call(self, o, spec):
        r = self.rng.random()
        if r < 0.08 and self.can_declare(spec):
            return self.op("shape", o, x=self.x(spec))
        if r < 0.14:
            return self.act()
        return self.call(o, spec)

    def scenario_C01(self, i):
        rng = self.rng
        specs = [rng.choice(self.palette)]
        if self.chance(0.35):
            specs.append(rng.choice(self.palette))
        objs = [self.obj(s) for s in specs]
        threads = []
        focus = self.dealt("focus", self.BUSY, 22 * self.bucket + i) if self.chance(0.2) else None
        for _ in range(rng.choice([2, 2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                o = rng.randrange(len(objs))
                acts = focus and self.chance(0.8)
                ops.append(self.act(focus) if acts else self.some_call(o, specs[o]))
            threads.append(ops)
        after = []
        for o, s in enumerate(specs):
            after += [self.look(o), self.call(o, s, "eager")]
        return {"objs": objs, "threads": threads, "after": after, "registry": self.chance(0.1)}

    # -- C02: failed calls

    def failing(self, o, spec):
        """A call that is made to fail."""
        rng = self.rng
        cfgs = spec["cfgs"]
        r = rng.random()
        with_sim = any(c.get("activation") == "sim" for c in cfgs)
        if r < 0.25 and with_sim:
            mode = rng.choice(["eager", "eager", "jit", "grad", "stateless", "symbolic"])
            exc = rng.choice(["value", "memory", "interrupt", "os"])
            return self.call(o, spec, mode, hook={"place": "activation", "do": "raise", "exc": exc}), False
        if r < 0.45 and spec["type"] == "layer":
            kinds = world_bad_kinds(cfgs[0])
            if kinds:
                return self.op("bad", o, x=self.x(spec), kind=rng.choice(kinds)), False
        if r < 0.55 and spec["type"] == "layer" and cfgs[0].get("bad_sizes"):
            return self.op("call", o, x=self.x(spec, rng.choice(cfgs[0]["bad_sizes"])), mode="eager", expect="error"), False
        if r < 0.62 and self.can_declare(spec):
            return self.op("shape", o, x=self.x(spec)), True
        return self.call(o, spec), True

    def scenario_C02(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        objs, fault_ops = [self.obj(spec)], []
        threads = []
        for t in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                if t == 0 or self.chance(0.3):
                    op, fault = self.failing(0, spec)
                    if fault:
                        fault_ops.append(op["id"])
                    ops.append(op)
                if t == 1 or self.chance(0.3):
                    ops.append(self.call(0, spec))
            threads.append(ops)
        after = [self.look(0), self.call(0, spec, "eager"), self.call(0, spec)]
        if self.can_declare(spec):
            after.append(self.op("shape", 0, x=self.x(spec)))
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops,
                "always_fault": True, "registry": self.chance(0.1)}

    # -- C03: observers

    def setup_C03(self, bucket):
        self.fill(1, self.CONVS, activation="sim", extras=True)
        self.fill(2)

    def scenario_C03(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        objs = [self.obj(spec)]
        with_sim = any(c.get("activation") == "sim" for c in spec["cfgs"])
        calls = []
        for _ in range(rng.choice([1, 2])):
            op = self.call(0, spec)
            if with_sim and self.chance(0.7):
                # inside a stateless call weights are what was given to it
                op["mode"] = {"jitfunctional": "jit", "functional": "stateless", "predict": "jit"}.get(op["mode"], op["mode"])
                traced = op["mode"] not in EAGER
                kind = rng.choice(["look", "look", "save", "shape"] + ([] if traced else ["call", "call"]))
                if kind == "look":
                    inner = self.look(0)
                elif kind == "save":
                    inner = self.save(0)
                elif kind == "shape" and self.can_declare(spec):
                    inner = self.op("shape", 0, x=self.x(spec))
                else:
                    inner = self.call(0, spec, "eager") if not traced else self.look(0)
                op["hook"] = {"place": "activation", "do": "op", "op": inner,
                              "nth": rng.choice([1, 1, 2]) if spec["type"] == "model" else 1}
            calls.append(op)
        threads = [calls]
        fault_ops = []
        if self.chance(0.85):
            watch = []
            for _ in range(rng.choice([1, 2, 3])):
                kind = rng.random()
                if kind < 0.6:
                    watch.append(self.look(0))
                elif kind < 0.8:
                    watch.append(self.save(0))
                elif self.can_declare(spec):
                    watch.append(self.op("shape", 0, x=self.x(spec)))
                else:
                    watch.append(self.look(0, "brief"))
            threads.append(watch)
        if self.chance(0.2):
            extra, fault = self.failing(0, spec)
            threads.append([extra])
            if fault:
                fault_ops.append(extra["id"])
        return {"objs": objs, "threads": threads, "after": [self.look(0)], "fault_ops": fault_ops}

    # -- C04: weights change while calls run

    def setup_C04(self, bucket):
        self.fill(2, self.CONVS)
        self.fill(1, ["model2"] * 4 + ["model3"])

    def scenario_C04(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        objs = [self.obj(spec)]
        convs = [l for l, c in enumerate(spec["cfgs"]) if ref.is_conv(c)]

        def update():
            l = rng.choice(convs)
            shapes = world.weight_shapes(spec["cfgs"][l])
            how = rng.choice(["assign", "assign", "set_weights", "load", "optimizer"]
                             + (["model_set_weights", "file"] if spec["type"] == "model" else []))
            return self.op("assign", 0, layer=l, w=rng.randrange(len(shapes)), how=how, seed=rng.randint(10, 10**6))

        threads, fault_ops = [], []
        for t in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                if t == 0 and self.chance(0.8) or t > 0 and self.chance(0.15):
                    ops.append(update())
                else:
                    op = self.call(0, spec) if self.chance(0.85) else self.look(0, "brief")
                    if op["do"] == "call" and self.chance(0.2):
                        fault_ops.append(op["id"])
                    ops.append(op)
            threads.append(ops)
        if sum(any(op["do"] == "assign" for op in ops) for ops in threads) > 1:
            # a step of an optimizer reads before it writes, so it must be the only one to write
            for op in sum(threads, []):
                if op.get("how") == "optimizer":
                    op["how"] = "assign"
        after = [self.look(0), self.call(0, spec, "eager"), update(), self.call(0, spec), self.look(0, "brief")]
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops}

    # -- C05: builds that fail

    def setup_C05(self, bucket):
        self.fill(3, self.CONVS + ["pool2", "pool2", "pool3", "pool1"], kernel_initializer=1)

    def scenario_C05(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        cfg = spec["cfgs"][0]
        objs = [self.obj(spec, built=False)]
        ops, fault_ops = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            via = rng.choice(["build", "call", "call", "symbolic"])
            if r < 0.2 and ref.is_conv(cfg):
                ops.append(self.op("build", 0, x=self.x(spec), via=via, flip=self.chance(0.4),
                                   hook={"place": "initializer", "do": "raise",
                                         "exc": rng.choice(["value", "memory", "interrupt"])}))
            elif r < 0.35 and cfg.get("bad_sizes"):
                ops.append(self.op("build", 0, x=self.x(spec, rng.choice(cfg["bad_sizes"])), via=via, expect="error"))
            elif r < 0.5 and [k for k in world_bad_kinds(cfg) if k in ("group+", "group-")]:
                kind = rng.choice([k for k in world_bad_kinds(cfg) if k in ("group+", "group-")])
                ops.append(self.op("build", 0, x=self.x(spec), via=via, bad=kind))
            else:
                op = self.op("build", 0, x=self.x(spec), via=via,
                             flip=self.chance(0.4) and ref.is_conv(cfg), must_fail=True)
                fault_ops.append(op["id"])
                ops.append(op)
        ops.append(self.op("unbuilt", 0))
        ops.append(self.op("build", 0, x=self.x(spec), via=rng.choice(["build", "call", "symbolic"]), final=True))
        after = [self.op("set", 0), self.look(0), self.call(0, spec, "eager"), self.call(0, spec)]
        if self.can_declare(spec):
            after.append(self.op("shape", 0, x=self.x(spec)))
        bad = world_bad_kinds(cfg)
        if bad:
            after.append(self.op("bad", 0, x=self.x(spec), kind=rng.choice(bad)))
        if cfg.get("bad_sizes"):
            after.append(self.op("call", 0, x=self.x(spec, rng.choice(cfg["bad_sizes"])), mode="eager", expect="error"))
        return {"objs": objs, "threads": [ops], "after": after, "fault_ops": fault_ops, "always_fault": True}

    # -- C06: histories of inputs

    def setup_C06(self, bucket):
        self.fill(3)

    def query(self, o, spec):
        rng = self.rng
        cfg = spec["cfgs"][0]
        r = rng.random()
        layer = spec["type"] == "layer"
        if r < 0.12 and layer and world_bad_kinds(cfg):
            return self.op("bad", o, x=self.x(spec), kind=rng.choice(world_bad_kinds(cfg)))
        if r < 0.26 and layer and cfg.get("bad_sizes"):
            bad = rng.choice(cfg["bad_sizes"])
            return self.op("call", o, x=self.x(spec, bad), mode=rng.choice(["eager", "eager", "jit", "symbolic"]), expect="error")
        if r < 0.45 and self.can_declare(spec):
            return self.op("shape", o, x=self.x(spec))
        return self.call(o, spec)

    def scenario_C06(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        objs = [self.obj(spec)]
        fault_ops, threads = [], []
        if i % 6 == 5:
            return self.long_history(spec, objs)
        for t in range(rng.choice([1, 1, 1, 2])):
            ops = []
            for _ in range(rng.choice([2, 4, 6])):
                op = self.query(0, spec)
                if op["do"] == "call" and self.chance(0.12):
                    fault_ops.append(op["id"])
                ops.append(op)
            threads.append(ops)
        after = [self.query(0, spec) for _ in range(2)] + [self.look(0)]
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops}

    def long_history(self, spec, objs):
        """Many different inputs, so that what is kept of earlier ones is thrown away, and then
        the first ones again."""
        rng = self.rng
        cfg = spec["cfgs"][0]
        layer = spec["type"] == "layer"
        first = [self.call(0, spec, "eager", size=n) for n in spec["sizes"]]
        ops = list(first)
        for _ in range(2):
            more = []
            for b in range(1, 8):
                for n in spec["sizes"]:
                    x = {"s": rng.randint(0, 3), "n": n, "b": b}
                    if self.can_declare(spec):
                        more.append(self.op("shape", 0, x=x))
                    more.append(self.op("call", 0, x=x, mode="symbolic"))
            for n in (cfg.get("bad_sizes") or []) if layer else []:
                for mode in ("eager", "symbolic"):
                    more.append(self.op("call", 0, x=self.x(spec, n), mode=mode, expect="error"))
            if layer:
                more += [self.op("bad", 0, x=self.x(spec), kind=k) for k in world_bad_kinds(cfg)]
            more += [self.call(0, spec, "eager") for _ in range(4)]
            rng.shuffle(more)
            ops += more[:45]
        for op in first:
            ops.append({**op, "id": self.id(), "x": {**op["x"], "s": rng.randint(0, 3)}})
        return {"objs": objs, "threads": [ops], "after": [self.look(0)], "fault_ops": []}

    # -- C07: crash and restart

    def setup_C07(self, bucket):
        self.fill(3, extras=True)
        for spec in self.palette:
            for j, c in enumerate(spec["cfgs"]):
                c["name"] = f"part_{j}"

    RESTARTS = ["config", "config", "keras", "save", "weights", "clone"]

    def scenario_C07(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        objs = [self.obj(spec)]
        fault_ops, threads = [], []
        # a crash at any point: what was saved by then is what survives
        main = []
        for _ in range(rng.choice([1, 2])):
            op = self.call(0, spec)
            if self.chance(0.3):
                fault_ops.append(op["id"])
            main.append(op)
        threads.append(main)
        threads.append([self.op("save", 0, tag="crash")])
        after = []
        for _ in range(rng.choice([1, 2])):
            after.append(self.op("restart", 0, how=rng.choice(self.RESTARTS)))
            after.append(self.look(0))
            after += [self.query(0, spec) for _ in range(rng.choice([1, 2]))]
        after.append(self.op("save", 0, tag="end"))
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops,
                "fresh": {"x": [self.x(spec) for _ in range(2)], "seed": rng.randint(0, 10**6)}}

    # -- C08: groups

    def setup_C08(self, bucket):
        self.fill(2, ["pool2"] * 3 + ["pool3"] * 2 + self.CONVS)

    def scenario_C08(self, i):
        rng = self.rng
        specs = [rng.choice(self.palette)]
        objs = [self.obj(specs[0])]
        if self.chance(0.4):
            specs.append(rng.choice(self.palette))
            objs.append(self.obj(specs[1], built=False, lazy=True))
        fault_ops, threads = [], []
        # of most of the actions
        focus = rng.choice([None, specs[0]["cfgs"][0]["group"], specs[-1]["cfgs"][0]["group"]] +
                           3 * [self.dealt("focus", self.BUSY, 16 * self.bucket + i)])
        for t in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.choice([2, 3, 4])):
                r = rng.random()
                if r < 0.07:
                    op = self.bad_act()
                elif r < 0.6:
                    op = self.act(focus if self.chance(0.85) else None)
                    if self.chance(0.25):
                        fault_ops.append(op["id"])
                elif r < 0.65:
                    op = self.op("registry")
                else:
                    op = self.call(0, specs[0])
                    if self.chance(0.2):
                        fault_ops.append(op["id"])
                ops.append(op)
            threads.append(ops)
        if len(specs) > 1:
            build = self.op("build", 1, x=self.x(specs[1]), via="build")
            fault_ops.append(build["id"])
            threads[-1] += [self.op("create", 1), build]
        after = [self.op("registry"), self.act(), self.act(), self.call(0, specs[0], "eager")]
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops, "registry": True,
                "loose_builds": True}

    # -- C09: training

    def setup_C09(self, bucket):
        self.fill(2, ["model2"] * 6 + ["model3"])
        self.fill(1, self.CONVS, plain=True)
        self.plans = {}

    def scenario_C09(self, i):
        rng = self.rng
        n = rng.randrange(len(self.palette))
        spec = self.palette[n]
        if n not in self.plans:
            self.plans[n] = {"how": rng.choice(["eager", "jit"] + (["train_on_batch"] if spec["type"] == "model" else [])),
                             "size": rng.choice(spec["sizes"])}
        plan = {**self.plans[n], "opt": rng.choice(["sgd", "sgd", "adam"]), "lr": 0.01,
                "momentum": rng.choice([0.0, 0.9]), "seed": rng.randint(0, 50), "batch": 2}
        ops, fault_ops = [], []
        for b in range(rng.choice([2, 3, 4])):
            step = self.op("step", 0, b=b)
            if any(c.get("activation") == "sim" for c in spec["cfgs"]) and self.chance(0.2):
                step["hook"] = {"place": "activation", "do": "raise", "exc": rng.choice(["value", "memory", "interrupt"])}
            else:
                fault_ops.append(step["id"])
            ops.append(step)
            r = rng.random()
            if r < 0.3:
                ops.append(self.op("crash", 0, how=rng.choice(self.RESTARTS)))
            elif r < 0.55:
                ops.append(self.op("eval", 0, x=self.x(spec, plan["size"]),
                                   mode=self.mode().replace("jitfunctional", "jit").replace("functional", "eager")))
            elif r < 0.65:
                op, fault = self.failing(0, spec)
                if op["do"] == "call":
                    op.update(do="eval", judge=False)
                if fault:
                    fault_ops.append(op["id"])
                ops.append(op)
        threads = [ops]
        if self.chance(0.3):
            threads.append([self.op("eval", 0, x=self.x(spec, plan["size"]), mode=rng.choice(["eager", "eager", "tensor", "jit"]), judge=False)
                            for _ in range(rng.choice([1, 2]))])
        return {"objs": [self.obj(spec, size=plan["size"])], "threads": threads, "train": {"0": plan},
                "fault_ops": fault_ops}

    # -- C10: equivariance

    def setup_C10(self, bucket):
        self.fill(3)

    def refusal(self):
        """A new layer with a configuration for which it has to refuse this size, perhaps any size."""
        rng = self.rng
        for _ in range(20):
            kind = rng.choice(["conv2", "tconv2", "pool2", "pad2", "conv3", "tconv3", "pool3", "pool1"])
            wish = {"padding": rng.choice(["same", "same", "valid", "same_equiv", "valid_equiv"]), "allow": False,
                    "strides": rng.choice([1, 1, 2, 2, 3])}
            cfg = world._draw(rng, [kind], {"kind": kind, **wish})
            if not world.well_formed(cfg):
                continue
            sizes = world.sizes_for(rng, cfg, 1, 8, bad=True)
            if sizes:
                return self.op("refuse", cfg=cfg, n=list(sizes[0]), via=rng.choice(["build", "call", "symbolic"]))
        return None

    def scenario_C10(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        objs = [self.obj(spec)]
        fault_ops, threads = [], []
        convs = [l for l, c in enumerate(spec["cfgs"]) if ref.is_conv(c)]

        good = [n for n in spec["sizes"] if world.promised(spec["cfgs"], n)]
        square = [n for n in good if len(set(n)) == 1]

        def check():
            if not good:
                return self.call(0, spec)
            return self.op("equiv", 0, x=self.x(spec, rng.choice(good)))

        for t in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                r = rng.random()
                if r < 0.25 and convs and t == 0:
                    l = rng.choice(convs)
                    ops.append(self.op("assign", 0, layer=l, w=0, how="set_weights", seed=rng.randint(10, 10**6)))
                elif r < 0.5:
                    op, fault = self.failing(0, spec)
                    if fault:
                        fault_ops.append(op["id"])
                    ops.append(op)
                elif r < 0.6:
                    ops.append(self.query(0, spec))
                elif t > 0 or r < 0.8:
                    ops.append(self.call(0, spec))
                else:
                    ops.append(check())
            threads.append(ops)
        after = [check()]
        if self.chance(0.3):
            after += [self.op("restart", 0, how=rng.choice(self.RESTARTS)), check()]
        after += [self.query(0, spec), check()]
        if self.chance(0.4):
            refusal = self.refusal()
            if refusal:
                after.append(refusal)
        if spec["type"] == "layer" and ref.family(spec["cfgs"][0]) in ("conv", "tconv", "pool") and self.chance(0.4) \
                and spec["cfgs"][0].get("data_format") == "channels_last":
            if square:
                after.append(self.op("checker", 0, x=self.x(spec, rng.choice(square))))
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops}

    # -- C11: traces

    def setup_C11(self, bucket):
        self.fill(2)
        self.fill(1, ["model2"] * 4 + ["model3"])

    def scenario_C11(self, i):
        rng = self.rng
        spec = rng.choice(self.palette)
        fault_ops, ops = [], []
        first = self.chance(0.5)
        objs = [self.obj(spec, built=not first)]
        if first:
            ways = ["symbolic", "call", "build"]
            if spec["type"] == "model":
                ways = ["call", "fit", "predict", "train_on_batch", "evaluate", "symbolic"]
                if spec["api"] == "functional":
                    ways = ["call", "predict", "fit"]
            if self.chance(0.35) and spec["type"] == "layer":
                # something fails or is aborted before anything was built
                op = self.op("build", 0, x=self.x(spec), via="symbolic", may_fail=True)
                fault_ops.append(op["id"])
                ops.append(op)
            ops.append(self.op("first", 0, x=self.x(spec), via=rng.choice(ways), s=rng.randint(0, 99)))
            ops.append(self.op("set", 0))
        for _ in range(rng.choice([2, 3, 4])):
            r = rng.random()
            mode = rng.choice(TRACED + ["jit", "jit"]) if self.chance(0.7) else "eager"
            op = self.call(0, spec, mode)
            if r < 0.45:
                fault_ops.append(op["id"])
            elif r < 0.6 and any(c.get("activation") == "sim" for c in spec["cfgs"]):
                op["hook"] = {"place": "activation", "do": "raise",
                              "exc": rng.choice(["value", "memory", "interrupt"])}
            ops.append(op)
        threads = [ops]
        if not first and self.chance(0.35):
            threads.append([self.call(0, spec) for _ in range(rng.choice([1, 2]))])
        size = rng.choice(spec["sizes"])
        s = rng.randint(0, 3)
        after = [self.op("concrete", 0)]
        # the same input in all ways
        for mode in rng.sample(["eager", "jit", "stateless", "grad", "vmap", "symbolic", "tensor", "functional"], 3) + ["eager"]:
            after.append(self.op("call", 0, x={"s": s, "n": size, "b": 2}, mode=mode))
        after.append(self.look(0))
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops}

    # -- C12: several layers

    DIFFERENCES = ["subgroup", "padding", "strides", "data_format", "lift", "channels", "group", "filters",
                   "use_bias", "activation", "pool", "kernel", "kind", "dilation", "allow", "as_lists",
                   "as_object", "trainable", "dtype", "name"]

    def setup_C12(self, bucket):
        rng = self.rng
        # every kind of difference has its turns
        theme = self.dealt("theme", self.DIFFERENCES, bucket)
        kinds = ["pool2", "pool2", "pool3"] if theme == "pool" else self.CONVS
        if theme in ("trainable", "dtype", "name"):
            kinds = ["pool2", "global2", "conv2", "pool2", "tconv2"]
        elif theme not in ("pool", "lift", "filters", "use_bias", "activation", "kind", "dilation"):
            kinds = kinds + ["pool2", "pool2", "pool3"]
        fixed = {"dilation": {"padding": "same_equiv", "kernel": 2, "strides": 1, "dilation": 1},
                 "kind": rng.choice([{"padding": "same_equiv", "kernel": 2, "strides": 1, "dilation": 1},
                                     {"padding": "valid_equiv", "kernel": 1, "strides": 2, "dilation": 1}, {}]),
                 "dtype": {"channels": 2}, "group": {"kernel": 2},
                 "allow": {"padding": rng.choice(["same", "valid"])}}.get(theme, {})
        base = self.next_spec(kinds, bucket, **fixed)
        self.palette.append(base)
        cfg = base["cfgs"][0]
        # relatives of the first: same group, name, kernel shape and input shape, but one difference
        for n in range(4):
            for _ in range(60):
                new = dict(cfg)
                key = theme if n < 2 else rng.choice(self.DIFFERENCES)
                if key not in cfg and key not in ("trainable", "dtype", "name"):
                    if n < 2:
                        break
                    continue
                other = world._draw(rng, [cfg["kind"]], {"group": cfg["group"]} if key != "group" else {})
                if key == "kind" and ref.family(cfg) in ("conv", "tconv"):
                    new["kind"] = ("tconv" if ref.family(cfg) == "conv" else "conv") + cfg["kind"][-1]
                    new["partial"] = False
                elif key == "trainable":
                    new[key] = not cfg.get(key, True)
                elif key == "dtype":
                    if ref.dimension(cfg) == 3 or cfg["channels"] > 2 or max(ref.extents(cfg) if "kernel" in cfg else (1,)) > 3:
                        continue
                    new[key] = rng.choice([None, "float16", "mixed_float16"])
                elif key == "name":
                    new[key] = rng.choice(["one", "other"])
                elif key == "dilation":
                    if ref.family(cfg) not in ("conv", "tconv", "pad"):
                        continue
                    new[key] = rng.choice([1, 2, 3])
                else:
                    new[key] = other[key]
                for flag, option in (("default_padding", "padding"), ("default_strides", "strides")):
                    if new.get(flag) and (key == option or key == "kernel" and flag == "default_strides"):
                        new[flag] = False
                if new["subgroup"] and new["subgroup"] not in ref.SUBGROUPS[new["group"]]:
                    new["subgroup"] = ""
                if not world.well_formed(new) or new.get(key) == cfg.get(key):
                    continue
                # sizes in common, where possible
                common = cfg["sizes"] + (cfg.get("bad_sizes") or [])
                for which, bad, count, tries in (("sizes", False, 4, 14), ("bad_sizes", True, 2, 8)):
                    found = [list(s) for s in common if world.accepts(new, s, bad)][:count]
                    more = [list(s) for s in world.sizes_for(rng, new, count, tries, bad=bad)]
                    new[which] = (found + [s for s in more if s not in found])[:count]
                if len(new["sizes"]) >= 2:
                    self.palette.append(world.spec_of(new))
                    break
        self.fill(1)
        name = rng.choice([None, "shared"]) if theme != "name" else None
        for spec in self.palette:
            for c in spec["cfgs"]:
                if name and spec["type"] == "layer":
                    c["name"] = name

    def scenario_C12(self, i):
        rng = self.rng
        count = rng.choice([2, 2, 3, 4])
        specs = [rng.choice(self.palette) for _ in range(count)]
        objs = []
        for j, s in enumerate(specs):
            objs.append(self.obj(s, lazy=j > 0 and self.chance(0.7)))
        fault_ops, threads = [], [[] for _ in range(rng.choice([1, 1, 2]))]
        where = {}
        for j in range(count):
            where[j] = rng.randrange(len(threads))
        alive = {j for j in range(count) if not objs[j].get("lazy")}
        for _ in range(rng.choice([4, 6, 8])):
            j = rng.randrange(count)
            ops = threads[where[j]]
            if j not in alive:
                ops.append(self.op("create", j))
                alive.add(j)
                continue
            r = rng.random()
            if r < 0.1:
                ops.append(self.op("discard", j))
                ops.append(self.op("create", j))
            elif r < 0.15:
                ops.append(self.op("restart", j, how=rng.choice(["config", "keras"])))
            elif r < 0.25:
                op, fault = self.failing(j, specs[j])
                if fault:
                    fault_ops.append(op["id"])
                ops.append(op)
            elif r < 0.3 and specs[j]["type"] == "layer":
                ops.append(self.op("arguments", j))
            else:
                ops.append(self.query(j, specs[j]))
        after = []
        for j in sorted(alive):
            after += [self.look(j), self.call(j, specs[j], "eager")]
        return {"objs": objs, "threads": threads, "after": after, "fault_ops": fault_ops}


def world_bad_kinds(cfg):
    from sim import engine

    return engine.bad_kinds(cfg)


# --------------------------------------------------------------------------------------------
# schedules and faults


def profile_of(run):
    """What a fault free run without switches looked like."""
    sim = run.first_sim
    return {
        "threads": [(t.steps, t.own_steps) for t in sim.threads],
        "ops": {label: (op.events, op.own_events) for label, op in sim.op_log.items()},
    }


def guess_profile(sc):
    """A profile for runs whose first execution is the interesting one."""
    def steps(ops):
        return 110 * len(ops)

    return {
        "threads": [(steps(ops), list(range(1, steps(ops)))) for ops in sc["threads"]],
        "ops": {label: (40, 60) for label in sc["fault_ops"]},
    }


def vary(rng, sc, profile, n_switches=None):
    """Give the scenario a schedule and faults."""
    sc = dict(sc)
    threads = profile["threads"]
    switches = []
    if len(threads) > 1:
        style = rng.random()
        if n_switches is None:
            n_switches = rng.choice([1, 1, 2, 2, 3, 4, 6, 10])
        if style < 0.15:
            n_switches = 40
        for _ in range(n_switches):
            t = rng.randrange(len(threads))
            steps, own = threads[t]
            if steps < 2:
                continue
            k = rng.choice(own) if own and rng.random() < 0.75 else rng.randint(1, steps)
            to = rng.choice([u for u in range(len(threads)) if u != t])
            switches.append({"t": t, "k": k, "to": to})
        if rng.random() < 0.5:  # who starts
            switches.append({"t": 0, "k": 1, "to": rng.randrange(len(threads))})
    sc["switches"] = sorted(switches, key=lambda s: (s["t"], s["k"]))
    faults = []
    candidates = [l for l in sc["fault_ops"] if profile["ops"].get(l, (0, 0))[0]]
    if candidates and (sc.get("always_fault") or rng.random() < 0.8):
        chosen = candidates if rng.random() < 0.3 or sc.get("always_fault") and rng.random() < 0.6 else [rng.choice(candidates)]
        for label in chosen:
            calls, lines = profile["ops"][label]
            if rng.random() < 0.35 and lines:
                faults.append({"op": label, "kind": "line", "k": rng.randint(1, lines),
                               "exc": rng.choice(["interrupt", "interrupt", "exit"])})
            else:
                faults.append({"op": label, "kind": "call", "k": rng.randint(1, calls),
                               "exc": rng.choice(["memory", "resource", "os", "value", "interrupt"])})
    sc["faults"] = faults
    return sc
