"""C12 clipping bounds every weight and touches nothing else."""
import torch
from pyvc.harness import contract
from pyvc import cc
import aihwkit.simulator.parameters.enums as en
from aihwkit.simulator.parameters.inference import WeightClipParameter
from .common import cfg, tile

PY = {"None": "NONE", "FixedValue": "FIXED_VALUE", "LayerGaussian": "LAYER_GAUSSIAN", "AverageChannelMax": "AVERAGE_CHANNEL_MAX"}


def bound(typ, w, fixed, sigma, limited):
    """the configured clipping bound"""
    if typ == "FixedValue":
        return fixed
    if typ == "LayerGaussian":
        n = w.numel()
        m = w.sum() / n
        b = torch.sqrt(((w - m) ** 2).sum() / (n - 1)) * sigma
    else:
        b = w.abs().amax(1).sum() / w.shape[0]
    return torch.minimum(b, torch.ones_like(b) * fixed) if limited else b


def post(H, y, w, b):
    H.le("no weight above the bound", y, b)
    H.le("no weight below minus the bound", b * -1, y)
    for i in range(w.shape[0]):
        for j in range(w.shape[1]):
            v = w[i, j]
            H.eq("weights inside the bound are unchanged", y[i, j], v, when=abs(v) <= b)
            H.eq("weights above the bound go to the bound", y[i, j], b + v * 0, when=v > b)
            H.eq("weights below the bound go to minus the bound", y[i, j], b * -1 + v * 0, when=v < b * -1)


def shape_cases(extra=()):
    out = []
    for typ in ("FixedValue", "LayerGaussian", "AverageChannelMax"):
        for x, d in ((2, 2), (3, 1), (1, 2)) if typ != "LayerGaussian" else ((2, 2), (3, 1), (1, 2)):
            for limited in (0, 1):
                if typ == "FixedValue" and not limited:
                    continue
                out.append(dict(typ=typ, x=x, d=d, limited=limited, warm=0))
        out.append(dict(typ=typ, x=2, d=2, limited=typ == "FixedValue", warm=1))
    return out


@contract("C12", cases=shape_cases(), thorough_cases=shape_cases() + [
    dict(typ=t, x=3, d=2, limited=1, warm=0) for t in ("FixedValue", "LayerGaussian", "AverageChannelMax")])
def compiled(H, typ, x, d, limited, warm):
    fixed = H.real("fixed", gt=0, flo=0.1, fhi=1.5) if limited else -1.0
    sigma = H.real("sigma", gt=0, flo=0.3, fhi=2)
    w = H.tensor("w", d, x)
    pre = [H.tensor("w0", d, x, flo=-1, fhi=1)] if warm else []
    b = bound(typ, w, fixed, sigma, limited)
    H.assume(b > 0)
    y, _ = cc.run("clip", [cc.enum("WeightClipType")[typ], x, d, warm], [fixed, sigma] + pre + [w])
    post(H, y.reshape(d, x), w, b)


@contract("C12", cases=[dict(typ="None", fixed=1.0), dict(typ="None", fixed=-1.0), dict(typ="FixedValue", fixed=-1.0), dict(typ="FixedValue", fixed=0.0)])
def compiled_off(H, typ, fixed):
    w = H.tensor("w", 2, 3)
    y, _ = cc.run("clip", [cc.enum("WeightClipType")[typ], 3, 2, 0], [fixed, 1.0, w])
    H.eq("no clipping configured: weights unchanged", y.reshape(2, 3), w)


@contract("C12")
def compiled_value(H):
    c = H.real("c", gt=0, flo=0.1, fhi=2)
    w = H.tensor("w", 2, 2)
    y, _ = cc.run("clipvalue", [2, 2], [c, w])
    post(H, y.reshape(2, 2), w, c)


def conf(kind, typ, fixed, sigma):
    c = cfg(kind)
    c.clip = WeightClipParameter(type=getattr(en.WeightClipType, PY[typ]), fixed_value=fixed, sigma=sigma)
    return c


@contract("C12", cases=[dict(kind=k, typ=t, limited=l, steps=s) for k in ("inference", "torch") for t in ("FixedValue", "LayerGaussian", "AverageChannelMax")
                        for l in (0, 1) for s in (1, 2) if (t != "FixedValue" or l) and (k != "torch" or t != "AverageChannelMax")
                        and (s == 1 or l)])
def tiles(H, kind, typ, limited, steps):
    """clipping at the end of each optimizer step, for weights that changed in between"""
    t = tile(kind, 2, 2, config=conf(kind, typ, 1.0 if limited else -1.0, 0.5))
    fixed = H.real("fixed", gt=0, flo=0.1, fhi=1.5) if limited else -1.0
    sigma = H.real("sigma", gt=0, flo=0.3, fhi=2)
    t.rpu_config.clip.fixed_value = fixed
    t.rpu_config.clip.sigma = sigma
    for s in range(steps):
        w = H.tensor("w%d" % s, 2, 2)
        b = bound(typ, w, fixed, sigma, limited)
        H.assume(b > 0)
        t.tile.set_weights(H.clone(w))
        t.post_update_step()
        if s == steps - 1:
            post(H, t.tile.get_weights(), w, b)


@contract("C12", cases=[dict(kind=k) for k in ("inference", "torch")])
def tiles_off(H, kind):
    t = tile(kind, 2, 2, config=conf(kind, "None", 1.0, 0.5))
    w = H.tensor("w", 2, 2)
    t.tile.set_weights(H.clone(w))
    t.post_update_step()
    H.eq("no clipping configured: weights unchanged", t.tile.get_weights(), w)
