"""C15 device weights never leave the bounds of their own crosspoint."""
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from .devices import Dev, NAMES, WRITE_NOISE, HAS_REF, plain

PAT = {"down": [[1, 0]], "up": [[0, -1]], "both": [[1, -1]], "twice": [[-2, 0]]}


@contract("C15", cases=[dict(dev=n, pat=p, dense=de, wn=w) for n in NAMES for p in PAT for de in (0, 1) for w in (0, 1)
                        if not w or n in WRITE_NOISE], timeout=60)
def pulses(H, dev, pat, dense, wn):
    """any parameters per crosspoint, any noise draw"""
    kw = dict(dw_min_std=H.real("std", gt=0, flo=0.1, fhi=3))
    if dev == "Piecewise" and pat == "twice" and not dense:
        return H.ensure("covered by the dense variant", True)
    t = Dev(H, dev, wn=wn, **kw)
    t.pulse(PAT[pat], dense)
    # the reference device with write noise starts from a written weight, see below
    t.bounds("pulses", PAT[pat] if wn and dev in HAS_REF else None)


@contract("C15", cases=[dict(pat=p, dense=de, wn=w) for p in PAT for de in (0, 1) for w in (0, 1)], timeout=60)
def complex_noise(H, pat, dense, wn):
    """exponential device, noise with an additive part and a part in proportion to the weight"""
    if pat == "twice" and not dense:
        return H.ensure("covered by the dense variant", True)
    t = Dev(H, "Exp", wn=wn, dw_min_std=H.real("std", gt=0, flo=0.5, fhi=3), dw_min_std_add=H.real("add", gt=0, flo=0.1, fhi=2),
            dw_min_std_slope=H.real("slope", flo=-1, fhi=2))
    t.pulse(PAT[pat], dense)
    t.bounds("pulses")


@contract("C15", cases=[dict(dev=n, op=o, wn=w) for n in NAMES for o in ("decay", "decay alpha", "decay weights only", "diffuse", "clip", "clip value",
                        "reset", "set", "set hidden") for w in (0, 1) if not w or n in WRITE_NOISE])
def operations(H, dev, op, wn):
    t = Dev(H, dev, wn=wn, ref=False, reset_std=H.real("rstd", gt=0, flo=0.1, fhi=2))
    if op == "decay":
        t.t("decay", 0, 0)
    elif op == "decay alpha":
        t.t("decay", 1, 0, reals=[H.real("alpha")])
    elif op == "decay weights only":
        t.t("decay", 0, 1)
    elif op == "diffuse":
        t.t("diffuse")
    elif op == "clip":
        t.t("tclip", reals=[-1.0])
    elif op == "clip value":
        t.t("tclip", reals=[H.real("c", gt=0, flo=0.1, fhi=1)])
    elif op == "reset":
        t.t("reset_cols", 1, 2, reals=[1.0])
    elif op == "set":
        w = H.tensor("new", 1, 2)
        H.assume(w.abs() <= 1e9)
        t.t.set_w(w)
    elif op == "set hidden":
        q = dict(t.p)
        q["max_bound"] = H.tensor("nbmax", 1, 2, flo=0.01, fhi=0.3)
        q["min_bound"] = H.tensor("nbmin", 1, 2, flo=-0.3, fhi=0.0)
        H.assume(q["min_bound"] <= q["max_bound"])
        H.assume(q["max_bound"].abs() <= 1e6)
        H.assume(q["min_bound"].abs() <= 1e6)
        t.t.set_hidden(q)
        t.p = q
    t.bounds(op)


@contract("C15", cases=[dict(dev=n, op=o) for n in HAS_REF for o in ("decay", "diffuse", "clip", "reset", "set")])
def reference_operations(H, dev, op):
    """devices with a reference: the bounds limit the device, which is weight plus reference"""
    t = Dev(H, dev)
    if op == "decay":
        t.t("decay", 0, 0)
    elif op == "diffuse":
        t.t("diffuse")
    elif op == "clip":
        t.t("tclip", reals=[-1.0])
    elif op == "reset":
        t.t("reset_cols", 0, 2, reals=[1.0])
    else:
        w = H.tensor("new", 1, 2)
        H.assume(w.abs() <= 1e9)
        t.t.set_w(w)
    t.bounds("reference device")


@contract("C15", cases=[dict(dev=n, cons=c) for n in NAMES for c in (0, 1)])
def populated(H, dev, cons):
    """construction with any variation between the devices, stuck devices included"""
    n = dict(w_max=("wmax", 0, 1), w_min=("wmin", -1, 0), w_max_dtod=("maxd", 0, 1), w_min_dtod=("mind", 0, 1), dw_min=("dwm", 0, 1),
             up_down=("ud", -1, 1), up_down_dtod=("udd", 0, 1), dw_min_dtod=("dwd", 0, 1), corrupt_devices_prob=("cp", 0, 1),
             corrupt_devices_range=("cr", 0, 1))
    v = {k: H.real(a, flo=lo, fhi=hi) for k, (a, lo, hi) in n.items()}
    H.assume(v["w_max"] > 0)
    H.assume(v["w_min"] < 0)
    c = plain(dev, enforce_consistency=bool(cons))
    over = dict(v)
    t = cc.analog_tile(SingleRPUConfig(device=c), 1, 1, **over)
    h = t.hidden()
    H.le("lower bound not above the upper bound", h["min_bound"], h["max_bound"])
    w = H.tensor("w", 1, 1)
    H.assume(w.abs() <= 1e9)
    t.set_w(w)
    H.le("written weight: not above the upper bound", t.raw(), h["max_bound"])
    H.le("written weight: not below the lower bound", h["min_bound"], t.raw())
    if cons:
        H.ensure("pulses of one direction have one sign", (h["dwmin_up"] >= 0) & (h["dwmin_down"] >= 0))


@contract("C15", cases=[dict(dev=n) for n in NAMES])
def initial(H, dev):
    """weights drawn at random when the tile is created"""
    c = plain(dev, w_max=0.25, w_min=-0.125)
    t = cc.analog_tile(SingleRPUConfig(device=c), 2, 1, full=True)
    h = t.hidden()
    H.le("not above the upper bound", t.raw(), h["max_bound"])
    H.le("not below the lower bound", h["min_bound"], t.raw())
