"""C10 drift compensation: factor is baseline over current read-out and multiplies the output."""
import torch
from pyvc.harness import contract
from aihwkit.nn import AnalogLinear
from aihwkit.inference.compensation.drift import (
    GlobalDriftCompensation, GlobalDriftCompensationWithExactReference, PerColumnDriftCompensation)
from aihwkit.inference.noise.base import BaseNoiseModel
from .common import cfg, tile, stored

COMP = {"global": GlobalDriftCompensation, "exact": GlobalDriftCompensationWithExactReference,
        "column": PerColumnDriftCompensation}
FLOOR = 1e-4


class Shrink(BaseNoiseModel):
    """noise model of the contract: programming multiplies by p, drift to t multiplies by f(t)"""
    def __init__(self, p=1.0, f=None, each=None):
        super().__init__()
        self.p, self.f, self.each = p, f or {}, each

    def apply_programming_noise(self, weights):
        return weights * self.p, ["nu"]

    def apply_drift_noise(self, weights, drift_noise_parameters, t_inference):
        w = weights * self.f[t_inference]
        return w if self.each is None else w * self.each


def mean(t, dim=None):
    return t.abs().mean() if dim is None else t.abs().mean(dim=dim)


def at_least(t, c):
    return torch.where(t < c, torch.ones_like(t) * c, t)


@contract("C10", cases=[dict(comp=c, shape=s) for c in COMP for s in ((1, 1), (2, 2), (2, 3))])
def readout(H, comp, shape):
    """read-out is the documented mean magnitude, floored; the factor is baseline over current"""
    C = COMP[comp]()
    x = H.tensor("x", *shape)
    x0 = H.clone(x)
    r = C.readout(x)
    H.eq("output unchanged", x, x0)
    H.eq("mean magnitude with floor", r, at_least(mean(x0, 0 if comp == "column" else None), FLOOR))
    H.le("read-out positive", FLOOR, r)
    base = H.tensor("base", *((shape[1],) if comp == "column" else ()), lo=FLOOR, fhi=4)
    b0 = H.clone(base)
    a = C.apply(x, base)
    H.eq("factor is baseline over current", a * r, b0)
    H.ensure("factor positive", (a > 0).all())
    H.eq("baseline unchanged", base, b0)
    H.eq("read-out inputs are unit vectors", C.get_readout_tensor(shape[1]).to(torch.float64), torch.eye(shape[1], dtype=torch.float64))


def readable(H, w, comp, c):
    """read-out above the floor before and after"""
    for f in (1.0, c):
        m = mean(w * f, 1) if comp == "column" else mean(w * f)
        H.assume((m >= FLOOR).all() if comp == "column" else m >= FLOOR)


CASES = [dict(kind=k, comp=c, bias=b, out=o) for k in ("inference", "torch") for c in COMP for b, o in
         (("none", False), ("digital", True), ("analog", False), ("digital", False)) if (k, b) != ("torch", "analog")]


@contract("C10", cases=CASES)
def tile_compensation(H, kind, comp, bias, out):
    """after a common shrink of all weights the compensated evaluation output is the one before drift"""
    c = cfg(kind, True, digital_bias=bias == "digital", learn_out_scaling=out, out_scaling_columnwise=out)
    c.drift_compensation = COMP[comp]()
    s, s2 = H.real("shrink", gt=0.0, flo=0.1, fhi=1), H.real("shrink2", gt=0.0, flo=0.1, fhi=1)
    c.noise_model = Shrink(f={10.0: s, 20.0: s2})
    t = tile(kind, 2, 2, bias != "none", config=c)
    w = H.tensor("w", 2, 3 if bias == "analog" else 2)
    readable(H, w, comp, s)
    readable(H, w, comp, s2)
    t.tile.set_weights(w)
    b = H.tensor("b", 2) if bias == "digital" else None
    if b is not None:
        t.bias.data = H.clone(b)
    if out:
        t.set_learned_out_scales(H.tensor("o", 2, flo=0.3, fhi=2)) if hasattr(t, "set_learned_out_scales") else None
    x = H.tensor("x", 1, 2)
    t.eval()
    y0 = t(H.clone(x)).detach()
    for time in (10.0, 20.0):
        t.drift_weights(time)
        H.eq("compensated output", t(H.clone(x)).detach(), y0)
        H.ensure("factor positive", (t.alpha > 0).all())
    f = s2
    t.train()
    y = t(H.clone(x)).detach()
    if b is not None:
        y, y0 = y - b, y0 - b
    H.eq("no compensation in training mode", y, y0 * f)


@contract("C10", cases=[dict(kind=k, comp=c) for k in ("inference", "torch") for c in COMP])
def general_drift(H, kind, comp):
    """for any drift: factor = baseline at programming / current, renewed by every drift and programming"""
    c = cfg(kind, True)
    c.drift_compensation = COMP[comp]()
    each = H.tensor("each", 2, 2, flo=0.1, fhi=1)
    c.noise_model = Shrink(p=H.real("p", gt=0.0, flo=0.5, fhi=2), f={1.0: 1.0, 2.0: 0.5}, each=each)
    t = tile(kind, 2, 2, config=c)
    w = H.tensor("w", 2, 2)
    w0 = H.clone(w)
    t.tile.set_weights(w)
    t.eval()
    nm = t.rpu_config.noise_model
    x = H.tensor("x", 1, 2)

    def ro(m):
        return at_least(mean(m, 1 if comp == "column" else None), FLOOR)
    for rep in range(2):
        t.program_weights()
        base = ro(w0 if comp == "exact" else w0 * nm.p)
        H.eq("baseline at programming time", t.drift_baseline, base)
        for f in (1.0, 2.0):
            t.drift_weights(f)
            now = w0 * nm.p * nm.f[f] * each
            H.eq("factor", t.alpha * ro(now), base)
            H.eq("output multiplied by the factor", t(H.clone(x)).detach(), torch.matmul(x, now.t()) * t.alpha)
        nm.p = 2.0 * nm.p


@contract("C10", cases=[dict(kind=k, comp=c) for k in ("inference", "torch") for c in COMP])
def zero_weights(H, kind, comp):
    """a vanishing read-out gives a valid factor"""
    c = cfg(kind, True)
    c.drift_compensation = COMP[comp]()
    c.noise_model = Shrink(f={1.0: 0.5})
    t = tile(kind, 2, 2, config=c)
    w = H.tensor("w", 2, 2)
    z = 0.0 * w
    t.tile.set_weights(z)
    t.eval()
    t.drift_weights(1.0)
    H.eq("factor one", t.alpha, torch.ones_like(t.alpha))
    t2 = tile(kind, 2, 2, config=c)
    t2.tile.set_weights(w)
    t2.rpu_config.noise_model.f[1.0] = 0.0
    t2.eval()
    t2.drift_weights(1.0)
    base = at_least(mean(w, 1 if comp == "column" else None), FLOOR)
    H.eq("factor relative to the floor", t2.alpha * FLOOR, base)


@contract("C10", cases=[dict(kind=k) for k in ("inference", "torch")])
def without_compensation(H, kind):
    c = cfg(kind, True)
    c.drift_compensation = None
    s = H.real("shrink", gt=0.0, flo=0.1, fhi=1)
    c.noise_model = Shrink(f={1.0: s})
    t = tile(kind, 2, 2, config=c)
    w = H.tensor("w", 2, 2)
    x = H.tensor("x", 1, 2)
    t.tile.set_weights(w)
    t.eval()
    t.drift_weights(1.0)
    H.eq("output follows the drifted weights", t(H.clone(x)).detach(), torch.matmul(x, w.t()) * s)


@contract("C10", cases=[dict(comp=c, split=s) for c in COMP for s in (False, True)])
def layer_compensation(H, comp, split):
    """every tile of a layer is compensated by its own factor"""
    kw = dict(max_input_size=2, max_output_size=0) if split else {}
    c = cfg("inference", True, learn_out_scaling=False, weight_scaling_omega=0.0, **kw)
    c.drift_compensation = COMP[comp]()
    s = H.real("shrink", gt=0.0, flo=0.1, fhi=1)
    c.noise_model = Shrink(f={3.0: s})
    n = 3 if split else 2
    la = AnalogLinear(n, 1, bias=True, rpu_config=c)
    w, b = H.tensor("w", 1, n), H.tensor("b", 1)
    la.set_weights(w, b)
    for ti in la.analog_tiles():
        readable(H, ti.tile.get_weights(), comp, s)
    x = H.tensor("x", 1, n)
    la.eval()
    y0 = la(H.clone(x)).detach()
    la.drift_analog_weights(3.0)
    H.eq("compensated layer output", la(H.clone(x)).detach(), y0)
