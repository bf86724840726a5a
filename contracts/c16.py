"""C16 pulses move weights by the documented law of the device."""
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from .devices import Dev, NAMES, WRITE_NOISE, HAS_REF, plain

PAT = {"down": [[1, 0]], "up": [[0, -1]], "row": [[-1, 1]], "grid": [[1, 0], [-1, -1]], "twice": [[-2, 0]], "both": [[2, -1]]}


def expect(H, t, pattern, noise):
    """the law applied pulse by pulse, every result limited to the bounds"""
    rows, k = [], 0
    for i, r in enumerate(pattern):
        row = []
        for j, n in enumerate(r):
            w = t.state[i, j]
            for _ in range(abs(n)):
                s = w + t.ref[i, j]
                new = t.clamp(t.step(s, i, j, n > 0, noise(k)), i, j)
                w = new - t.ref[i, j]
                k += 1
            row.append(w)
        rows.append(torch.stack(row))
    return torch.stack(rows)


def admissible(H, t):
    if t.name in ("Exp", "Pow", "PowRef", "Piecewise"):
        H.assume(t.p["max_bound"] - t.p["min_bound"] > 0.01)
    if t.name == "SoftRef":
        H.assume(t.p["max_bound"] > 0.01)
        H.assume(t.p["min_bound"] < -0.01)


@contract("C16", cases=[dict(dev=n, pat=p, dense=de, wn=w) for n in NAMES for p in PAT for de in (0, 1) for w in (0, 1)
                        if (not w or n in WRITE_NOISE and p in ("down", "row")) and not (n in ("Pow", "PowRef") and p in ("twice", "both"))], timeout=60)
def law(H, dev, pat, dense, wn):
    """without noise from pulse to pulse; crosspoints without pulse keep their weight"""
    p = PAT[pat]
    t = Dev(H, dev, d=len(p), x=len(p[0]), wn=wn)
    admissible(H, t)
    before = t.t.raw()
    t.pulse(p, dense)
    H.eq("the documented step of the present weight", t.stored(), expect(H, t, p, lambda k: 0))
    after = t.t.raw()
    n = [(i, j) for i, r in enumerate(p) for j, k in enumerate(r) if k == 0]
    for i, j in n:
        H.eq("no pulse, no change", after[i, j], before[i, j])
    if wn:
        dr = cc.drawn(t.mark)
        idx = [(i, j) for i, r in enumerate(p) for j, k in enumerate(r) if k]
        H.ensure("one draw of write noise per pulse", len(dr) >= len(idx))
        wn_std = t.cfg.write_noise_std * t.dw_min
        for m, (i, j) in enumerate(idx):
            H.eq("apparent weight is the stored one plus write noise", after[i, j], t.stored()[i, j] + wn_std * dr[(m + 1) * (len(dr) // len(idx)) - 1])


@contract("C16", cases=[dict(dev=n, dense=de) for n in NAMES for de in (0, 1)] +
          [dict(dev=n, dense=de, mult=m) for n in ("Linear", "SoftBounds", "SoftRef") for m in (0, 1) for de in (0, 1)], timeout=60)
def noise(H, dev, dense, mult=None):
    """noise from pulse to pulse scales the step, one draw per pulse"""
    kw = {} if mult is None else dict(mult_noise=bool(mult))
    std = H.real("std", gt=0, flo=0.1, fhi=1)
    t = Dev(H, dev, dw_min_std=std, **kw)
    admissible(H, t)
    p = [[-1, 1]]
    t.pulse(p, dense)
    dr = cc.drawn(t.mark)
    H.ensure("one draw per pulse", len(dr) == 2)
    H.eq("the documented step with noise", t.stored(), expect(H, t, p, lambda k: std * dr[k]))


@contract("C16", cases=[dict(dense=de, pat=p, which=k) for de in (0, 1) for p in ("row", "down") for k in ("add", "slope", "both")], timeout=60)
def complex_noise(H, dense, pat, which):
    """exponential device: standard deviation std * (|step| + add + slope * |weight|), one draw per pulse"""
    std = H.real("std", gt=0, flo=0.1, fhi=1)
    add = H.real("add", gt=0, flo=0.1, fhi=1) if which != "slope" else 0.0
    slope = H.real("slope", gt=0, flo=0.1, fhi=1) if which != "add" else 0.0
    t = Dev(H, "Exp", dw_min_std=std, dw_min_std_add=add, dw_min_std_slope=slope)
    admissible(H, t)
    p = PAT[pat]
    t.pulse(p, dense)
    dr = cc.drawn(t.mark)
    H.ensure("one draw per pulse", len(dr) == sum(abs(k) for r in p for k in r))
    k, got = 0, t.stored()
    for j, n in enumerate(p[0]):
        w = t.state[0, j]
        for _ in range(abs(n)):
            plain_step = t.step(w, 0, j, n > 0) - w
            w = t.clamp(w + plain_step + std * (plain_step.abs() + add + slope * w.abs()) * dr[k], 0, j)
            k += 1
        H.eq("the documented step with noise", got[0, j], w)


@contract("C16", cases=[dict(dev=n, dense=de) for n in NAMES for de in (0, 1)], timeout=60)
def direction(H, dev, dense):
    """an up pulse never decreases, a down pulse never increases a weight"""
    t = Dev(H, dev, admissible=True)
    admissible(H, t)
    if dev in ("Linear", "SoftBounds"):     # the step keeps its sign inside the bounds
        for b in ("max_bound", "min_bound"):
            H.assume(t.p["slope_up"] * t.p[b] + t.p["dwmin_up"] >= 0)
            H.assume(t.p["slope_down"] * t.p[b] + t.p["dwmin_down"] >= 0)
    before = t.t.raw()
    t.pulse([[-1, 1]], dense)
    w = t.t.raw()
    H.le("up", before[0, 0], w[0, 0])
    H.le("down", w[0, 1], before[0, 1])
