"""C31 every crosspoint gets device parameters from the configured distribution."""
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.configs.configs import UnitCellRPUConfig
from aihwkit.simulator.configs.devices import SoftBoundsPmaxDevice
from .devices import NAMES, plain

SPREAD = ("w_max_dtod", "w_min_dtod", "dw_min_dtod", "up_down_dtod", "diffusion_dtod", "reset_dtod", "lifetime_dtod")


class Draws:
    """the draws of the construction in their order: standard Gaussian numbers, or uniform in [0, 1)"""

    def __init__(self, m):
        self.v, self.n = cc.drawn(m), 0

    def __call__(self):
        self.n += 1
        return self.v[self.n - 1]

    def all_used(self):
        return self.n == self.v.numel()


def biases(ud):
    """up_down lowers the step of the other direction"""
    return (torch.where(ud > 0, 0 * ud, ud), torch.where(ud > 0, -ud, 0 * ud))


def crosspoint(g, p, cons=True, log=False, bias=False, lifetime=False):
    """law of the parameters of one crosspoint"""
    hi, lo = p["w_max"] * (1 + p["w_max_dtod"] * g()), p["w_min"] * (1 + p["w_min_dtod"] * g())
    x = p["dw_min_dtod"] * g()
    gain = x.exp() if log else 1 + x
    r = p["up_down_dtod"] * g()
    ub, db = biases(p["up_down"])
    up, down = (ub + gain + r) * p["dw_min"], (db + gain - r) * p["dw_min"]
    if cons:
        up, down = up.abs(), down.abs()
        lo, hi = -torch.minimum(lo, hi).abs(), torch.maximum(lo, hi).abs()
    else:
        c = lo > hi
        mid = hi + (lo - hi) / 2
        lo, hi = torch.where(c, mid, lo), torch.where(c, mid, hi)
    u = g()
    if "corrupt_devices_prob" in p:
        stuck = bool(p["corrupt_devices_prob"] > u)
        if stuck:
            a, b = torch.maximum(lo, -p["corrupt_devices_range"].abs()), torch.minimum(hi, p["corrupt_devices_range"].abs())
            lo = hi = a + (b - a) * g()
            up = down = 0 * lo
    if bias:
        up = down = p["dw_min"]
        lo, hi = 100 * p["w_min"], 100 * p["w_max"]
    o = dict(max_bound=hi, min_bound=lo, dwmin_up=up, dwmin_down=down)
    o["diffusion_rates"] = (p["diffusion"] * (1 + p["diffusion_dtod"] * g())).abs()
    o["reset_bias"] = p["reset"] + p["reset_dtod"] * g()
    if lifetime:
        t = p["lifetime"] * (1 + p["lifetime_dtod"] * g())
        o["decay_scales"] = torch.where(t > 1, 1 - 1 / torch.where(t > 1, t, 1 + 0 * t), 0 * t)
    else:
        o["decay_scales"] = 1 + 0 * up
    return o


def parameters(H, spread=SPREAD, corrupt=False, lifetime=False, **fixed):
    n = dict(w_max=(0.2, 1), w_min=(-1, -0.2), dw_min=(0.01, 0.2), up_down=(-0.5, 0.5), diffusion=(0, 0.2), reset=(-0.1, 0.1),
             w_max_dtod=(0, 1), w_min_dtod=(0, 1), dw_min_dtod=(0, 1), up_down_dtod=(0, 1), diffusion_dtod=(0, 1), reset_dtod=(0, 0.3),
             lifetime_dtod=(0, 1))
    if corrupt:
        n.update(corrupt_devices_prob=(0, 1), corrupt_devices_range=(0, 1))
    if lifetime:
        n.update(lifetime=(1, 20))
    p, over = {}, {}
    for k, (lo, hi) in n.items():
        if k in fixed:
            p[k] = torch.tensor(float(fixed[k]), dtype=torch.float64)
            over[k] = float(fixed[k])
        elif k in SPREAD and k not in spread:
            p[k] = torch.tensor(0.0, dtype=torch.float64)
            over[k] = 0.0
        else:
            over[k] = H.real(k, flo=lo, fhi=hi)
            p[k] = over[k] if torch.is_tensor(over[k]) else torch.tensor(over[k], dtype=torch.float64)
    H.assume(p["w_max"] > 0)
    H.assume(p["w_min"] < 0)
    for k in p:
        if k in SPREAD or k == "diffusion":
            H.assume(p[k] >= 0)
    if lifetime:
        H.assume(p["lifetime"] > 0)
    return p, over


def compare(H, h, o, i=0, j=0):
    for k, v in o.items():
        H.eq("%s of the crosspoint (%d, %d)" % (k.replace("_", " "), i, j), h[k][i, j], v, shape=False)


@contract("C31", cases=[dict(dev=n, cons=c, log=l) for n in NAMES for c in (0, 1) for l in (0, 1) if n == "Constant" or c != l])
def variation(H, dev, cons, log):
    """bounds, steps, diffusion and reset: mean and variation of the configuration, each with a draw of its own"""
    p, over = parameters(H)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev, enforce_consistency=bool(cons), dw_min_dtod_log_normal=bool(log))), 1, 1, **over)
    g = Draws(m)
    o = crosspoint(g, p, cons, log)
    if dev == "SoftRef":   # variation of the slope: zero here, the draws are made
        c = (o["max_bound"] > 0) & (o["min_bound"] < 0)
        if bool(c):
            g(), g()
        g()
    elif dev in ("Linear", "SoftBounds", "Pow"):
        g(), g()
    elif dev == "PowRef":
        g(), g(), g()
    compare(H, t.hidden(), o)
    H.ensure("no other draw", g.all_used())


@contract("C31", cases=[dict(cons=c, dev=n) for c in (0, 1) for n in ("Constant", "Exp", "Piecewise")])
def stuck(H, dev, cons):
    """corrupt devices: probability and range; their bounds coincide and they do not step"""
    p, over = parameters(H, corrupt=True, up_down=0.25, diffusion=0.0, reset=0.0)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev, enforce_consistency=bool(cons))), 1, 1, **over)
    compare(H, t.hidden(), crosspoint(Draws(m), p, cons))


@contract("C31", cases=[dict(dev=n, cons=c) for c in (0, 1) for n in ("Constant", "Exp")])
def lifetime(H, dev, cons):
    """decay rates: one over the lifetime with its variation; at most all is lost"""
    p, over = parameters(H, lifetime=True, spread=("lifetime_dtod", "diffusion_dtod"), up_down=0.0)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev, enforce_consistency=bool(cons))), 1, 1, **over)
    compare(H, t.hidden(), crosspoint(Draws(m), p, cons, lifetime=True))


@contract("C31", cases=[dict(dev=n, d=d, x=x) for n in ("Constant", "Linear", "Pow") for d, x in ((2, 3), (3, 2), (1, 3), (3, 1))])
def every_crosspoint(H, dev, d, x):
    """no crosspoint shares the variation of another one"""
    p, over = parameters(H, spread=("dw_min_dtod", "up_down_dtod", "diffusion_dtod", "reset_dtod"), up_down=0.0)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev, enforce_consistency=False)), x, d, **over)
    g, h = Draws(m), t.hidden()
    for j in range(x):
        for i in range(d):
            compare(H, h, crosspoint(g, p, False), i, j)


@contract("C31", cases=[dict(d=d, x=x) for d, x in ((2, 2), (1, 2))])
def every_bound(H, d, x):
    p, over = parameters(H, spread=("w_max_dtod", "w_min_dtod"), up_down=0.0, diffusion=0.0, reset=0.0)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain("Constant")), x, d, **over)
    g, h = Draws(m), t.hidden()
    for j in range(x):
        for i in range(d):
            compare(H, h, crosspoint(g, p), i, j)


@contract("C31", cases=[dict(d=d, x=x, dev=n) for d, x in ((2, 2), (1, 3), (2, 1)) for n in ("Constant", "Exp", "Linear")])
def perfect_bias(H, dev, d, x):
    """the devices of the bias (the last column) have no variation and practically no bounds; the others are not concerned"""
    p, over = parameters(H, spread=("dw_min_dtod", "up_down_dtod", "diffusion_dtod"), up_down=0.0)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev, perfect_bias=True, enforce_consistency=False)), x, d, **over)
    g, h = Draws(m), t.hidden()
    for j in range(x):
        for i in range(d):
            compare(H, h, crosspoint(g, p, False, bias=j == x - 1), i, j)


@contract("C31", cases=[dict(dev=n, ud=u) for n in NAMES for u in ("up", "down", "none")])
def no_variation(H, dev, ud):
    """without any variation every crosspoint is as configured"""
    p, over = parameters(H, spread=())
    u = p["up_down"]
    H.assume(dict(up=u > 0, down=u < 0, none=u == 0)[ud] if H.sym or ud != "none" else True)
    H.assume(u.abs() <= 1)
    H.assume(p["dw_min"] > 0)
    if ud == "none":
        over["up_down"] = 0.0
        u = 0 * u
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev)), 2, 2, **over)
    h = t.hidden()
    z = torch.zeros(2, 2, dtype=torch.float64)
    H.eq("upper bound", h["max_bound"], p["w_max"] + z)
    H.eq("lower bound", h["min_bound"], p["w_min"] + z)
    H.eq("step up", h["dwmin_up"], (1 + biases(u)[0]) * p["dw_min"] + z)
    H.eq("step down", h["dwmin_down"], (1 + biases(u)[1]) * p["dw_min"] + z)
    H.eq("diffusion", h["diffusion_rates"], p["diffusion"].abs() + z)
    H.eq("reset", h["reset_bias"], p["reset"] + z)
    H.eq("decay", h["decay_scales"], 1 + z)


@contract("C31", cases=[dict(dev=n, inc=i, mean=mb, up=u, down=v) for n in ("Linear", "SoftBounds") for i in (0, 1) for mb in (0, 1)
                        for u in (0, 1) for v in (0, 1) if n == "Linear" or not (i or mb)])
def slopes(H, dev, inc, mean, up, down):
    """linear step devices: the slope of the step size, referred to the bound of the crosspoint or to the mean bound"""
    p, over = parameters(H, spread=("w_max_dtod", "w_min_dtod"), up_down=0.0, diffusion=0.0, reset=0.0)
    kw = dict(reverse_up=bool(up), reverse_down=bool(down), mult_noise=True, enforce_consistency=True)
    off = H.real("off", flo=0, fhi=0.1)
    over["reverse_offset"] = off
    q = {}
    if dev == "Linear":
        kw.update(allow_increasing=bool(inc), mean_bound_reference=bool(mean))
        for k in ("gamma_up", "gamma_down", "gamma_up_dtod", "gamma_down_dtod"):
            q[k] = over[k] = H.real(k, flo=-0.5, fhi=1)
    else:
        q = dict(gamma_up=1.0, gamma_down=1.0, gamma_up_dtod=0.0, gamma_down_dtod=0.0)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain(dev, **kw)), 1, 1, **over)
    g, h = Draws(m), t.hidden()
    o = crosspoint(g, p)
    hi, lo = (p["w_max"], p["w_min"]) if mean else (o["max_bound"], o["min_bound"])
    gu, gd = q["gamma_up"] + q["gamma_up_dtod"] * g(), q["gamma_down"] + q["gamma_down_dtod"] * g()
    if not inc:
        gu, gd = gu.abs(), gd.abs()
    ru, rd = (lo - off if up else hi), (hi + off if down else lo)
    for name, s, ga, r in (("up", o["dwmin_up"], gu, ru), ("down", o["dwmin_down"], gd, rd)):
        H.eq("slope %s: the step at the reference bound is decreased by gamma" % name, h["slope_" + name][0, 0] * r,
             torch.where(r == 0, 0 * r, -ga * s), shape=False)


@contract("C31", cases=[dict(dev=n, ud=u) for n in ("Pow", "PowRef") for u in ("up", "down")])
def exponents(H, dev, ud):
    """power step devices: gamma with its variation and its bias"""
    p, over = parameters(H, spread=("dw_min_dtod",), up_down=0.0, diffusion=0.0, reset=0.0)
    q = {}
    for k in ("pow_gamma", "pow_gamma_dtod", "pow_up_down", "pow_up_down_dtod"):
        over[k] = H.real(k, flo=-0.5, fhi=1)
        q[k] = over[k] if torch.is_tensor(over[k]) else torch.tensor(over[k], dtype=torch.float64)
    H.assume(q["pow_up_down"] > 0 if ud == "up" else q["pow_up_down"] <= 0)
    for cons in (False, True):
        m = cc.mark()
        t = cc.analog_tile(SingleRPUConfig(device=plain(dev, enforce_consistency=cons)), 2, 1, **over)
        g, h = Draws(m), t.hidden()
        o = [crosspoint(g, p, cons) for _ in range(2)]
        ub, db = biases(q["pow_up_down"])
        for j in range(2):
            gain, r = 1 + q["pow_gamma_dtod"] * g(), q["pow_up_down_dtod"] * g()
            up, down = (ub + gain + r) * q["pow_gamma"], (db + gain - r) * q["pow_gamma"]
            if cons:
                up, down = up.abs(), down.abs()
            H.eq("exponent up", h["gamma_up"][0, j], up, shape=False)
            H.eq("exponent down", h["gamma_down"][0, j], down, shape=False)
            if dev == "PowRef":
                g()
            compare(H, h, o[j], 0, j)


@contract("C31", cases=[dict(sub=s) for s in (0, 1)])
def soft_reference(H, sub):
    """soft bounds with a reference: variation of the slopes, reference, symmetry point"""
    p, over = parameters(H, spread=("w_max_dtod", "dw_min_dtod", "up_down_dtod", "reset_dtod"), up_down=0.0, diffusion=0.0)
    q = {k: H.real(k, flo=0, fhi=0.5) for k in ("slope_up_dtod", "slope_down_dtod", "reference_mean", "reference_std")}
    over.update(q)
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain("SoftRef", subtract_symmetry_point=bool(sub))), 1, 1, **over)
    g, h = Draws(m), t.hidden()
    o = crosspoint(g, p)
    hi, lo = o["max_bound"], o["min_bound"]
    ok = bool((hi > 0) & (lo < 0))
    if ok:
        a, b = (1 + q["slope_down_dtod"] * g()).abs(), (1 + q["slope_up_dtod"] * g()).abs()
        H.assume((a > 0) & (b > 0))
        lo, hi = lo / a, hi / b
    r = q["reference_mean"] + q["reference_std"] * g()
    H.eq("upper bound", h["max_bound"][0, 0], hi, shape=False)
    H.eq("lower bound", h["min_bound"][0, 0], lo, shape=False)
    su, sd = o["dwmin_up"], o["dwmin_down"]
    H.eq("step up", h["dwmin_up"][0, 0], su, shape=False)
    H.eq("step down", h["dwmin_down"][0, 0], sd, shape=False)
    if sub and ok:
        H.assume(su + sd > 0)
        sp = h["reference"][0, 0] - r
        H.eq("at the symmetry point both steps are equal", su * (1 - sp / hi), sd * (1 - sp / lo), shape=False)
        H.eq("the reset value moves along", h["reset_bias"][0, 0] - o["reset_bias"], sp, shape=False)
    else:
        H.eq("reference", h["reference"][0, 0], r, shape=False)
        H.eq("reset value", h["reset_bias"][0, 0], o["reset_bias"], shape=False)


@contract("C31", cases=[dict(n=n) for n in (0, 1, 2)])
def pow_reference(H, n):
    """power steps with a reference: drawn reference; the symmetry point estimated with n pairs of pulses from zero"""
    p, over = parameters(H, spread=("dw_min_dtod", "up_down_dtod"), up_down=0.0, diffusion=0.0, w_max=0.5, w_min=-0.25)
    q = {k: H.real(k, flo=0, fhi=0.5) for k in ("reference_mean", "reference_std")}
    over.update(q)
    kw = dict(subtract_symmetry_point=True, n_estimation_steps=n) if n else {}
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=plain("PowRef", pow_gamma=2.0, enforce_consistency=True, **kw)), 1, 1, **over)
    g, h = Draws(m), t.hidden()
    o = crosspoint(g, p)
    g(), g()
    r = q["reference_mean"] + q["reference_std"] * g()
    sp = 0 * r
    su, sd, hi, lo = o["dwmin_up"], o["dwmin_down"], p["w_max"], p["w_min"]
    for _ in range(n):
        sp = sp - sd * ((sp - lo) / (hi - lo)) ** 2.0 + su * ((hi - sp) / (hi - lo)) ** 2.0
    H.eq("reference", h["reference"][0, 0], r + sp, shape=False)
    H.eq("reset value", h["reset_bias"][0, 0], o["reset_bias"] + sp, shape=False)
    compare(H, h, {k: o[k] for k in o if k != "reset_bias"})


@contract("C31", cases=[dict(pm=a, al=b, lo=c, hi=d) for a, b in ((1000, 0.0005), (50, 0.03)) for c, d in ((-1.0, 1.0), (-0.5, 1.0))])
def soft_bounds_pmax(H, pm, al, lo, hi):
    """the parameterization with a maximal number of pulses stands for the soft bounds device of the documented transformation"""
    from math import exp
    b = (hi - lo) / (1 - exp(-pm * al))
    ref = plain("SoftBounds", w_min=lo, w_max=lo + b, dw_min=b * al, up_down=1 + 2 * lo / b)
    dev = SoftBoundsPmaxDevice(p_max=pm, alpha=al, range_min=lo, range_max=hi)
    for k in SPREAD + ("dw_min_std", "reset_std"):
        setattr(dev, k, getattr(ref, k))
    p, q = (cc.analog_tile(SingleRPUConfig(device=c), 2, 2) for c in (dev, ref))
    h, k = p.hidden(), q.hidden()
    H.ensure("same parameters", set(h) == set(k))
    for n in k:
        H.eq(n, h[n], k[n])
    w = H.tensor("w", 2, 2)
    H.assume(w.abs() <= 0.4)
    for t in (p, q):
        t.set_w(w)
    H.ensure("configuration untouched", (dev.range_min, dev.range_max, dev.p_max, dev.alpha, dev.w_max) == (lo, hi, pm, al, None))
    H.eq("weights", p.raw(), q.raw())


@contract("C31", cases=[dict(s=s) for s in (0, 1)])
def drift_exponents(H, s):
    """drift: one exponent per crosspoint; simple drift has the same one everywhere"""
    p, over = parameters(H, spread=("dw_min_dtod",), up_down=0.0, diffusion=0.0, reset=0.0)
    c = plain("Constant", enforce_consistency=False)
    c.drift.nu = 0.25
    c.drift.nu_dtod = 0.0 if s else 0.5
    m = cc.mark()
    t = cc.analog_tile(SingleRPUConfig(device=c), 2, 1, **over)
    g = Draws(m)
    nu = [0.25 * (1 + c.drift.nu_dtod * g()) for _ in range(2)]
    h = t.hidden()
    for j in range(2):
        compare(H, h, crosspoint(g, p, False), 0, j)
    w = H.tensor("w", 1, 2, flo=-0.1, fhi=0.1)
    H.assume(w.abs() <= 0.125)
    H.assume(p["w_max"] >= 0.125)
    H.assume(p["w_min"] <= -0.125)
    t.set_w(w)
    t("drift", reals=[1.0])
    H.eq("no drift within the first t0", t.raw(), w)
    t("drift", reals=[3.0])
    for j in range(2):
        f = torch.as_tensor(4.0, dtype=torch.float64) ** (-nu[j])
        H.eq("drift of crosspoint %d" % j, t.raw()[0, j], torch.minimum(torch.maximum(w[0, j] * f, p["w_min"]), p["w_max"]), shape=False)
