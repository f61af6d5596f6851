"""Reference model of the point groups, in plain numpy and independent of the code under test.

An element is a signed permutation of the spatial axes acting on arrays whose spatial axes come
first.  Elements are listed in the documented order (P4M: e, R, R2, R3, F, RF, R2F, R3F with R the
counter clockwise quarter turn and F the mirror of the width axis; Oh: permutations x flips).
"""
import itertools

import numpy as np


class Element:
    """`act` flips the axes in `flips`, then transposes by `perm`."""

    def __init__(self, perm, flips):
        self.perm, self.flips = tuple(perm), frozenset(flips)
        # (act f)[x] = f[M x] in centred coordinates
        n = len(perm)
        matrix = np.zeros((n, n), int)
        for out_axis, in_axis in enumerate(perm):
            matrix[in_axis, out_axis] = -1 if in_axis in self.flips else 1
        self.pullback = matrix

    def act(self, f):
        """Act on an array with the spatial axes first."""
        f = np.asarray(f)
        for axis in self.flips:
            f = np.flip(f, axis)
        rest = tuple(range(len(self.perm), f.ndim))
        return np.transpose(f, self.perm + rest)


def _rot(k, mirror):
    # quarter turns of the (possibly mirrored) image, as perm + flips
    table = {
        (0, 0): ((0, 1), ()),
        (1, 0): ((1, 0), (1,)),
        (2, 0): ((0, 1), (0, 1)),
        (3, 0): ((1, 0), (0,)),
        (0, 1): ((0, 1), (1,)),
        (1, 1): ((1, 0), ()),
        (2, 1): ((0, 1), (0,)),
        (3, 1): ((1, 0), (0, 1)),
    }
    return Element(*table[(k, mirror)])


_E2, _W, _H, _R2 = _rot(0, 0), _rot(0, 1), _rot(2, 1), _rot(2, 0)
_OH_FLIPS = [[], [1, 2], [0, 2], [0, 1], [2], [1], [0], [0, 1, 2]]
_OH_PERMS = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
_OH = [Element(p, f) for p, f in itertools.product(_OH_PERMS, _OH_FLIPS)]


def _det(e):
    return round(np.linalg.det(e.pullback))


class RefGroup:
    def __init__(self, name, elements):
        self.name, self.elements, self.order = name, elements, len(elements)
        self.dim = len(elements[0].perm)
        key = {e.pullback.tobytes(): i for i, e in enumerate(elements)}
        # acting with a after b: (a(b f))[x] = (b f)[A x] = f[B A x]
        self.compose = np.array(
            [[key[(b.pullback @ a.pullback).tobytes()] for b in elements] for a in elements]
        )
        self.inverse = [int(np.where(row == 0)[0][0]) for row in self.compose]

    def act_grid(self, f):
        """All elements acting on f (spatial axes first); new leading axis."""
        return np.stack([e.act(f) for e in self.elements])


def _restrict(names):
    groups = {}
    groups["P1"] = RefGroup("P1", [_E2])
    groups["P2"] = RefGroup("P2", [_E2, _R2])
    groups["PMw"] = RefGroup("PMw", [_E2, _W])
    groups["PMh"] = RefGroup("PMh", [_E2, _H])
    groups["P2MM"] = RefGroup("P2MM", [_E2, _W, _H, _R2])
    groups["P4"] = RefGroup("P4", [_rot(k, 0) for k in range(4)])
    groups["P4M"] = RefGroup("P4M", [_rot(k, m) for m in (0, 1) for k in range(4)])
    groups["Oh"] = RefGroup("Oh", _OH)
    groups["O"] = RefGroup("O", [e for e in _OH if _det(e) == 1])
    # the cuboid keeps its third axis
    groups["D4h"] = RefGroup("D4h", [e for e in _OH if e.perm[2] == 2])
    groups["D4"] = RefGroup("D4", [e for e in _OH if e.perm[2] == 2 and _det(e) == 1])
    return groups


GROUPS = _restrict(None)

# order of the elements of each subgroup, as indices in the supergroup
SUBGROUPS = {}
for _big in GROUPS.values():
    SUBGROUPS[_big.name] = {}
    _keys = {e.pullback.tobytes(): i for i, e in enumerate(_big.elements)}
    for _small in GROUPS.values():
        if _small.dim == _big.dim:
            _idx = [_keys.get(e.pullback.tobytes()) for e in _small.elements]
            if None not in _idx:
                SUBGROUPS[_big.name][_small.name] = _idx
# the one place where the library lists a subgroup in another order than that of its own table
SUBGROUPS["P4M"]["P2MM"] = [0, 4, 6, 2]
del SUBGROUPS["P2MM"]["P2"]


def transform(x, big, g, on=None, channels_first=False, batch=True):
    """Element index g (in group `big`) acting on a batch of signals x on the grid (on=None) or on
    the subgroup `on` of `big`.  Layout: batch, spatial..., [group], channels, or channels first."""
    group = GROUPS[big]
    x = np.asarray(x)
    dim = group.dim
    if channels_first:
        x = np.moveaxis(x, 1, -1)
    y = np.moveaxis(group.elements[g].act(np.moveaxis(x, 0, dim)), dim, 0)
    if on is not None:
        # (gF)(x, h) = F(g^-1 x, g^-1 h)
        elements = SUBGROUPS[big][on]
        gi = group.inverse[g]
        index = [elements.index(int(group.compose[gi][h])) for h in elements]
        y = np.take(y, index, axis=dim + 1)
    if channels_first:
        y = np.moveaxis(y, -1, 1)
    return y


# ----------------------------------------------------------------------------------------------
# layers

CONV, TCONV, POOL, GLOBAL, PAD = "conv", "tconv", "pool", "global", "pad"


def tup(value, dim):
    return tuple(value) if isinstance(value, (tuple, list)) else (value,) * dim


def family(cfg):
    return cfg["kind"].rstrip("123")


def dimension(cfg):
    return int(cfg["kind"][-1])


def is_conv(cfg):
    return family(cfg) in (CONV, TCONV)


def groups_of(cfg):
    """(name of the domain group of the input or None, name of the group of the output)."""
    fam = family(cfg)
    big, small = cfg.get("group"), cfg.get("subgroup") or cfg.get("group")
    if fam == CONV:
        return (None if cfg["lift"] else big), small
    if fam == TCONV:
        return (None if cfg["lift"] else small), big
    if fam == POOL:
        return big, small
    if fam == GLOBAL:
        return big, None
    return (big if not cfg.get("lift", True) else None), None


def acting(cfg):
    """The group whose action the layer commutes with, as name of a subgroup of cfg['group']."""
    return cfg.get("subgroup") or cfg.get("group")


def extents(cfg):
    dim = dimension(cfg)
    k = tup(cfg["kernel"], dim)
    d = tup(cfg.get("dilation", 1), dim)
    return tuple((a - 1) * b + 1 for a, b in zip(k, d))


def extra_padding(cfg, spatial):
    """Padding on top of the built in one: tuple of (before, after) per axis, or the name of the
    error: 'spoils' or 'parity'."""
    dim = dimension(cfg)
    strides, option = tup(cfg.get("strides", 1), dim), cfg.get("padding", "valid_equiv")
    transposed = family(cfg) == TCONV or bool(cfg.get("transpose"))
    if cfg.get("allow") and not option.endswith("_equiv"):
        return ((0, 0),) * dim
    pads, parity = [], False
    for n, k, s in zip(spatial, extents(cfg), strides):
        if option.startswith("same"):
            steps = -(-n // s)
            builtin = max((steps - 1) * s + k - n, 0)
        else:
            builtin = max(s - k, 0) if transposed else 0
        extra = next(e for e in range(s) if (n + builtin + e - k) % s == 0)
        if (builtin + extra) % 2:
            extra += s
        parity |= (builtin + extra) % 2 == 1
        small = extra // 2
        pads.append((small, extra - small) if transposed else (extra - small, small))
    if all(p == (0, 0) for p in pads):
        return tuple(pads)
    if not option.endswith("_equiv"):
        return "spoils"
    if parity:
        return "parity"
    return tuple(pads)


def padded(cfg, spatial):
    pads = extra_padding(cfg, spatial)
    return tuple(n + a + b for n, (a, b) in zip(spatial, pads))


def _windows(cfg, spatial):
    """(pads before and after by the built in padding, number of outputs) per axis, forward."""
    dim = dimension(cfg)
    result = []
    for n, k, s in zip(spatial, extents(cfg), tup(cfg.get("strides", 1), dim)):
        if cfg.get("padding", "valid_equiv").startswith("same"):
            steps = -(-n // s)
            total = max((steps - 1) * s + k - n, 0)
            result.append((total // 2, total - total // 2, steps))
        else:
            result.append((0, 0, (n - k) // s + 1))
    return result


def _out_spatial(cfg, spatial):
    n2 = padded(cfg, spatial)
    if family(cfg) == TCONV:
        dim = dimension(cfg)
        out = []
        for n, k, s in zip(n2, extents(cfg), tup(cfg.get("strides", 1), dim)):
            same = cfg.get("padding", "valid_equiv").startswith("same")
            out.append(n * s if same else n * s + max(k - s, 0))
        return tuple(out)
    return tuple(w[2] for w in _windows(cfg, n2))


def output_shape(cfg, spatial, batch=2, channels=None):
    fam = family(cfg)
    channels = cfg["channels"] if channels is None else channels
    last = cfg.get("data_format", "channels_last") == "channels_last"
    if fam == GLOBAL:
        ones = (1,) * (dimension(cfg) + 1)
        if not cfg.get("keepdims"):
            return (batch, channels)
        return (batch,) + (ones + (channels,) if last else (channels,) + ones)
    if fam == PAD:
        spatial, group = padded(cfg, spatial), ()
    else:
        spatial = _out_spatial(cfg, spatial)
        group = (len(SUBGROUPS[cfg["group"]][groups_of(cfg)[1]]),)
    channels = cfg["filters"] if is_conv(cfg) else channels
    if last:
        return (batch,) + spatial + group + (channels,)
    return (batch, channels) + spatial + group


def input_shape(cfg, spatial, batch=2, channels=None):
    channels = cfg["channels"] if channels is None else channels
    domain = groups_of(cfg)[0]
    group = (len(SUBGROUPS[cfg["group"]][domain]),) if domain else ()
    if cfg.get("data_format", "channels_last") == "channels_last":
        return (batch,) + tuple(spatial) + group + (channels,)
    return (batch, channels) + tuple(spatial) + group


def _to_last(cfg, x):
    return x if cfg.get("data_format", "channels_last") == "channels_last" else np.moveaxis(x, 1, -1)


def _from_last(cfg, x):
    return x if cfg.get("data_format", "channels_last") == "channels_last" else np.moveaxis(x, -1, 1)


def _transformed_kernel(cfg, kernel):
    """Kernel with spatial axes, in channels (group merged in front), out channels ->
    same with out channels (acting group merged in front)."""
    dim = dimension(cfg)
    big = GROUPS[cfg["group"]]
    domain, target = groups_of(cfg)
    out = []
    for a in SUBGROUPS[cfg["group"]][target]:
        if domain is None:
            out.append(big.elements[a].act(kernel))
            continue
        elements = SUBGROUPS[cfg["group"]][domain]
        k = kernel.reshape(kernel.shape[:dim] + (len(elements), -1) + kernel.shape[-1:])
        k = big.elements[a].act(k)
        ai = big.inverse[a]
        k = np.take(k, [elements.index(int(big.compose[ai][h])) for h in elements], axis=dim)
        out.append(k.reshape(kernel.shape))
    return np.concatenate(out, axis=-1)


def supported(cfg):
    """Whether `forward` models this configuration."""
    fam = family(cfg)
    if fam == TCONV:
        # to a larger group only the equivariance is modelled, as for padding that crops
        if (cfg.get("subgroup") or cfg["group"]) != cfg["group"] and not cfg["lift"]:
            return False
        k, s = extents(cfg), tup(cfg.get("strides", 1), dimension(cfg))
        return not cfg.get("padding", "valid_equiv").startswith("same") or max(s) == 1
    return cfg.get("groups", 1) == 1


ACTIVATIONS = {
    None: lambda x: x,
    "linear": lambda x: x,
    "relu": lambda x: np.maximum(x, 0),
}


def forward(cfg, weights, x):
    """Output of the layer for input x in float64; weights is [kernel, bias] or []."""
    fam, dim = family(cfg), dimension(cfg)
    x = _to_last(cfg, np.asarray(x, np.float64))
    batch = x.shape[0]
    spatial = x.shape[1 : 1 + dim]
    if fam == GLOBAL:
        axes = tuple(range(1, dim + 2))
        y = (np.max if cfg["pool"] == "max" else np.mean)(x, axis=axes, keepdims=True)
        y = _from_last(cfg, y)
        return y if cfg.get("keepdims") else y.reshape(batch, -1)
    if fam == POOL:
        big = GROUPS[cfg["group"]]
        small = SUBGROUPS[cfg["group"]][acting(cfg)]
        cosets = coset_representatives(cfg["group"], acting(cfg))
        pooled = [
            (np.max if cfg["pool"] == "max" else np.mean)(
                np.take(x, [int(big.compose[h][c]) for c in cosets], axis=dim + 1), axis=dim + 1
            )
            for h in small
        ]
        x = np.stack(pooled, axis=dim + 1)
    tail = x.shape[1 + dim :]
    x = x.reshape((batch,) + spatial + (-1,))
    pads = extra_padding(cfg, spatial)
    x = np.pad(x, ((0, 0),) + tuple(pads) + ((0, 0),))
    spatial = x.shape[1:-1]
    strides = tup(cfg.get("strides", 1), dim)
    if fam == PAD:
        return _from_last(cfg, x.reshape((batch,) + spatial + tail))
    if fam == TCONV:
        return _transposed(cfg, weights, x, strides)
    wins = _windows(cfg, spatial)
    builtin = ((0, 0),) + tuple(w[:2] for w in wins) + ((0, 0),)
    outs = tuple(w[2] for w in wins)
    kernel_size, dilation = tup(cfg["kernel"], dim), tup(cfg.get("dilation", 1), dim)

    def gather(z, offset):
        index = tuple(
            slice(o * d, o * d + (n - 1) * s + 1, s)
            for o, d, n, s in zip(offset, dilation, outs, strides)
        )
        return z[(slice(None),) + index]

    offsets = list(itertools.product(*[range(k) for k in kernel_size]))
    if fam == POOL:
        if cfg["pool"] == "max":
            z = np.pad(x, builtin, constant_values=-np.inf)
            y = np.max([gather(z, o) for o in offsets], axis=0)
        else:
            z, count = np.pad(x, builtin), np.pad(np.ones_like(x), builtin)
            y = np.sum([gather(z, o) for o in offsets], 0) / np.sum(
                [gather(count, o) for o in offsets], 0
            )
        return _from_last(cfg, y.reshape((batch,) + outs + tail))
    kernel = _transformed_kernel(cfg, np.asarray(weights[0], np.float64))
    z = np.pad(x, builtin)
    y = np.zeros((batch,) + outs + (kernel.shape[-1],))
    for o in offsets:
        y += gather(z, o) @ kernel[o]
    return _finish(cfg, weights, y)


def _finish(cfg, weights, y):
    order = len(SUBGROUPS[cfg["group"]][groups_of(cfg)[1]])
    y = y.reshape(y.shape[:-1] + (order, cfg["filters"]))
    if cfg.get("use_bias", True):
        y = y + np.asarray(weights[1], np.float64)
    y = ACTIVATIONS[cfg.get("activation")](y)
    return _from_last(cfg, y)


def _transposed(cfg, weights, x, strides):
    dim = dimension(cfg)
    # the weight has shape (..., out, in) but its elements are laid out as (..., in, out)
    kernel = np.asarray(weights[0], np.float64)
    kernel = kernel.reshape(kernel.shape[:dim] + (x.shape[-1], -1))
    kernel = _transformed_kernel(cfg, kernel)
    spatial, size = x.shape[1:-1], tup(cfg["kernel"], dim)
    dilation, ext = tup(cfg.get("dilation", 1), dim), extents(cfg)
    full = tuple((n - 1) * s + k for n, s, k in zip(spatial, strides, ext))
    y = np.zeros((x.shape[0],) + full + (kernel.shape[-1],))
    for o in itertools.product(*[range(k) for k in size]):
        index = tuple(
            slice(a * d, a * d + (n - 1) * s + 1, s)
            for a, d, n, s in zip(o, dilation, spatial, strides)
        )
        y[(slice(None),) + index] += x @ kernel[o]
    same = cfg.get("padding", "valid_equiv").startswith("same")
    for axis, (n, s, k) in enumerate(zip(spatial, strides, ext), 1):
        wanted = n * s if same else n * s + max(k - s, 0)
        crop = y.shape[axis] - wanted
        before = crop // 2 if crop > 0 else 0
        if crop >= 0:
            y = np.take(y, range(before, before + wanted), axis=axis)
        else:
            y = np.pad(y, [(0, -crop if a == axis else 0) for a in range(y.ndim)])
    return _finish(cfg, weights, y)


COSETS = {
    ("P4M", "P4"): [0, 4], ("P4M", "P2MM"): [0, 1], ("P4M", "PMw"): [0, 1, 2, 3],
    ("P4M", "PMh"): [0, 1, 2, 3], ("P4M", "P2"): [0, 1, 4, 5], ("P4M", "P1"): list(range(8)),
    ("P4", "P2"): [0, 1], ("P2MM", "PMh"): [0, 1], ("P2MM", "PMw"): [0, 2],
    ("Oh", "O"): [0, 4], ("Oh", "D4h"): [0, 24, 32], ("Oh", "D4"): [0, 24, 32, 4, 28, 36],
}


def coset_representatives(big, small):
    if (big, small) in COSETS:
        return COSETS[(big, small)]
    if big == small:
        return [0]
    if small == "P1":
        return list(range(GROUPS[big].order))
    # O and D4h take theirs from Oh
    oh = SUBGROUPS["Oh"][big]
    return [oh.index(c) for c in COSETS[("Oh", small)] if c in oh]
