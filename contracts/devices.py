"""The resistive devices of the C++ library: construction with arbitrary parameters per crosspoint, and their documented laws."""
import torch
import aihwkit.simulator.configs.devices as dv
from aihwkit.simulator.configs import SingleRPUConfig
from pyvc import cc

BASE = ["max_bound", "min_bound", "dwmin_up", "dwmin_down", "decay_scales", "diffusion_rates", "reset_bias"]
PIECES_UP, PIECES_DOWN = [1.5, 0.5, 1.0], [0.25, 1.0, 2.0]
CLS = dict(Constant=dv.ConstantStepDevice, Linear=dv.LinearStepDevice, SoftBounds=dv.SoftBoundsDevice, Exp=dv.ExpStepDevice,
           Pow=dv.PowStepDevice, PowRef=dv.PowStepReferenceDevice, Piecewise=dv.PiecewiseStepDevice,
           SoftRef=dv.SoftBoundsReferenceDevice)
NAMES = list(CLS)
WRITE_NOISE = ["Linear", "SoftBounds", "Exp", "Pow", "Piecewise", "SoftRef"]
HAS_REF = ("PowRef", "SoftRef")


def plain(name, **kw):
    """configuration without any device-to-device variation"""
    c = CLS[name]()
    for f in c.__dict__:
        if f.endswith("_dtod") and isinstance(getattr(c, f), float):
            setattr(c, f, 0.0)
    c.dw_min_std = 0.0
    c.reset_std = 0.0
    if name == "Piecewise":
        c.piecewise_up, c.piecewise_down = list(PIECES_UP), list(PIECES_DOWN)
    if name == "Exp":       # exactly representable
        c.A_up, c.A_down, c.gamma_up, c.gamma_down, c.a, c.b = 0.125, 0.25, 2.0, 3.0, 0.5, 0.25
    c.dw_min = 0.0625
    for k, v in kw.items():
        o, path = c, k.split(".")
        for a in path[:-1]:
            o = getattr(o, a)
        if not hasattr(o, path[-1]):
            raise AttributeError(k)
        setattr(o, path[-1], v)
    return c


class Dev:
    """a tile with one device and arbitrary hidden parameters; the weights are arbitrary inside the bounds"""

    def __init__(self, H, name, d=1, x=2, free=False, wn=False, symbolic=True, ref=True, admissible=False, **kw):
        self.H, self.name, self.d, self.x, self.wn = H, name, d, x, wn
        over = {}
        for k in [k for k, v in kw.items() if not isinstance(v, (int, float, bool, list))]:
            over[k] = kw.pop(k)
        if wn:
            kw.setdefault("write_noise_std", 0.5)
        self.cfg = plain(name, **kw)
        self.over = over
        self.t = cc.analog_tile(SingleRPUConfig(device=self.cfg), x, d, **over)
        self.names = self.t.hidden_names()
        p = {}
        p["max_bound"] = H.tensor("bmax", d, x, flo=0.05, fhi=1)
        p["min_bound"] = H.tensor("bmin", d, x, flo=-1, fhi=-0.05)
        H.assume(p["min_bound"] <= p["max_bound"])
        for k in ("max_bound", "min_bound"):
            H.assume(p[k].abs() <= 1e6)
        for k in self.names:
            if k in p:
                continue
            if k.startswith("gamma"):
                p[k] = H.tensor(k, d, x, flo=0.5, fhi=2)
            elif k.startswith("dwmin") or k == "diffusion_rates":
                p[k] = H.tensor(k, d, x, flo=0.01, fhi=0.3)
            else:
                p[k] = H.tensor(k, d, x, flo=-0.5, fhi=0.5)
        if admissible:
            H.assume(p["dwmin_up"] >= 0)
            H.assume(p["dwmin_down"] >= 0)
        if "reference" in p and not ref:
            p["reference"] = 0 * p["reference"]
        self.p = p
        # any weight inside the bounds
        w = H.tensor("w", d, x, flo=-1, fhi=1)
        if H.sym:
            H.assume(w <= p["max_bound"])
            H.assume(w >= p["min_bound"])
        else:
            w = torch.minimum(torch.maximum(w, p["min_bound"]), p["max_bound"])
        self.ref = p["reference"] if "reference" in p else 0 * w
        if wn:                       # stored weight and apparent weight
            p["persistent_weights"] = w
            self.t("poke_weights", reals=[w])
            self.t.set_hidden(p)
            self.state = self.t.hidden()["persistent_weights"]
            H.assume(self.state <= p["max_bound"])
            H.assume(self.state >= p["min_bound"])
        else:
            self.t.set_hidden(p)
            self.t("poke_weights", reals=[w - self.ref])
            self.state = w - self.ref
        self.mark = cc.mark()
        # the granularity follows the given step sizes
        self.dw_min = ((p["dwmin_up"].abs() + p["dwmin_down"].abs()) / 2).sum() / (d * x)

        if wn:
            H.assume(self.dw_min > 0)

    def stored(self):
        """the state of the devices (not including write noise)"""
        return self.t.hidden()["persistent_weights"] if self.wn else self.t.raw()

    def par(self, k):
        return self.over.get(k, getattr(self.cfg, k))

    def pulse(self, pattern, dense=False):
        """pattern: pulses per crosspoint, positive: down"""
        self.mark = cc.mark()
        if dense:
            self.t("dense", *[k for r in pattern for k in r])
            return
        for i, row in enumerate(pattern):
            for ds in (1, -1):                # both signs of the row
                pass
            v = []
            for j, k in enumerate(row):
                v += [(j + 1) if k > 0 else -(j + 1)] * abs(k)
            s = 1
            if i % 2:                         # the product of the signs counts
                s, v = -1, [-k for k in v]
            self.t("sparse", i, s, len(v), *v)

    def bounds(self, what, touched=None):
        H, w = self.H, self.stored() + self.ref
        for i in range(self.d):
            for j in range(self.x):
                if touched is None or touched[i][j]:
                    H.le(what + ": not above the upper bound", w[i, j], self.p["max_bound"][i, j])
                    H.le(what + ": not below the lower bound", self.p["min_bound"][i, j], w[i, j])

    def clamp(self, w, i, j):
        return torch.minimum(torch.maximum(w, self.p["min_bound"][i, j]), self.p["max_bound"][i, j])

    def step(self, w, i, j, down, noise=0):
        """documented law of one pulse: the state afterwards, before the bounds are applied (reference included)"""
        H, p, n = self.H, {k: v[i, j] for k, v in self.p.items()}, self.name
        s = p["dwmin_down"] if down else p["dwmin_up"]
        mx, mn = p["max_bound"], p["min_bound"]
        if n == "Constant":
            dw = s * (1 + noise)
        elif n in ("Linear", "SoftBounds"):
            sl = p["slope_down"] if down else p["slope_up"]
            dw = (sl * w + s) * (1 + noise) if self.par("mult_noise") else sl * w + s * (1 + noise)
        elif n == "Exp":
            z = 2 * w / (mx - mn) * self.cfg.a + self.cfg.b
            y = 1 - self.cfg.A_down * torch.exp(-self.cfg.gamma_down * z) if down else 1 - self.cfg.A_up * torch.exp(self.cfg.gamma_up * z)
            dw = torch.maximum(y, 0 * y) * s * (1 + noise)
        elif n in ("Pow", "PowRef"):
            om = torch.minimum(torch.maximum((mx - w) / (mx - mn), 0 * w), 0 * w + 1)
            dw = s * (torch.pow(1 - om, p["gamma_down"]) if down else torch.pow(om, p["gamma_up"])) * (1 + noise)
        elif n == "Piecewise":
            v = self.cfg.piecewise_down if down else self.cfg.piecewise_up
            k = len(v) - 1
            pos = (w - mn) / (mx - mn) * k
            f = 0 * w + v[0]
            for m in range(k):       # linear interpolation of the nodes
                f = f + (v[m + 1] - v[m]) * torch.minimum(torch.maximum(pos - m, 0 * pos), 0 * pos + 1)
            dw = f * s * (1 + noise)
        else:
            b = mn if down else mx
            dw = s * (1 - w / b) * (1 + noise) if self.par("mult_noise") else s * (1 - w / b + noise)
        return w - dw if down else w + dw
