"""C32 decay, diffusion, drift, reset and clipping of the weights follow their documented laws."""
import torch
from pyvc.harness import contract
from pyvc import cc, rpu_stub as R
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.configs import compounds as cp
from aihwkit.simulator.configs.devices import IdealDevice
from .devices import Dev, NAMES, WRITE_NOISE, plain
from .c18 import Cell

F = torch.float64


def clamp(v, p):
    return torch.minimum(torch.maximum(v, p["min_bound"]), p["max_bound"])


def seen(H, t, v, g=None):
    """with write noise the visible weights are the stored ones plus noise"""
    H.eq("state of the devices", t.stored(), v)
    if t.wn:
        s = 0.5 * t.dw_min
        H.eq("visible weights: stored ones plus write noise", t.t.raw(), t.stored() + s * g)


def noise(t, m, n):
    g = cc.drawn(m)
    return g[:n].reshape(t.d, -1) if n else None, rest(t, g[n:])


def rest(t, g):
    """draws of the write noise"""
    if not t.wn:
        return None
    if g.numel() == 0:
        t.H.ensure("write noise is drawn", t.dw_min <= 0)
        return 0 * t.p["max_bound"]
    return g.reshape(t.d, t.x)


ALL = [dict(dev=n, wn=w) for n in NAMES for w in (0, 1) if not w or n in WRITE_NOISE]


@contract("C32", cases=[dict(c, alpha=a, nb=b) for c in ALL for a in (0, 1) for b in (0, 1)])
def decay(H, dev, wn, alpha, nb):
    """towards the reset value, with the rate of the crosspoint; the bias column on request not at all"""
    t = Dev(H, dev, wn=wn, ref=False)
    p, w, a = t.p, t.stored(), H.real("alpha", flo=0, fhi=2) if alpha else 1
    m = cc.mark()
    t.t("decay", alpha, nb, reals=[a] if alpha else [])
    b = p["reset_bias"]
    v = (w - b) * (1 - a * (1 - p["decay_scales"])) + b
    if nb:
        v = torch.cat([v[:, :-1], w[:, -1:]], 1)
    seen(H, t, clamp(v, p), noise(t, m, 0)[1])


@contract("C32", cases=ALL)
def diffusion(H, dev, wn):
    """Gaussian noise with the rate of the crosspoint"""
    t = Dev(H, dev, wn=wn, ref=False)
    w, m = t.stored(), cc.mark()
    t.t("diffuse")
    g, n = noise(t, m, 2)
    seen(H, t, clamp(w + t.p["diffusion_rates"] * g, t.p), n)


@contract("C32", cases=ALL)
def clipping(H, dev, wn):
    t = Dev(H, dev, wn=wn, ref=False)
    w, c = t.stored(), H.real("clip", gt=0, flo=0.05, fhi=1)
    m = cc.mark()
    t.t("tclip", reals=[c])
    seen(H, t, clamp(torch.minimum(torch.maximum(w, 0 * w - c), 0 * w + c), t.p), noise(t, m, 0)[1])


def columns(start, n, x):
    """columns of a range that wraps around; all of them for a negative number"""
    return [j for j in range(x) if n < 0 or (j - start) % x < n]


RANGES = [(0, -1), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (1, 3), (0, 3), (0, 0)]


@contract("C32", cases=[dict(dev="Constant", wn=0, d=d, start=s, n=n, std=1, prob=0) for d in (1, 2) for s, n in RANGES] +
          [dict(c, d=1, start=s, n=n, std=sd, prob=0) for c in ALL for s, n in ((0, -1), (2, 2)) for sd in (0, 1)] +
          [dict(dev=n, wn=0, d=1, start=1, n=2, std=sd, prob=1) for n in ("Constant", "Linear", "Exp", "Pow") for sd in (0, 1)])
def reset(H, dev, wn, d, start, n, std, prob):
    """given columns, with the given probability per crosspoint: to the reset value of the crosspoint plus noise"""
    x = 3
    sd = H.real("sd", gt=0, flo=0.05, fhi=0.5) if std else 0.0
    t = Dev(H, dev, wn=wn, ref=False, d=d, x=x, reset_std=sd)
    p, w = t.p, t.stored()
    q = H.real("prob", gt=0, flo=0.2, fhi=0.9) if prob else 1.0
    if prob:
        H.assume(q < 1)
    m = cc.mark()
    t.t("reset_cols", start, n, reals=[q])
    g = cc.drawn(m)
    k, v = 0, [[w[i, j] for j in range(x)] for i in range(d)]
    for j in columns(start, n, x):
        for i in range(d):
            hit = True
            if prob:
                hit = bool(g[k] < q)
                k += 1
            if hit:
                z = 0
                if std:
                    z, k = g[k], k + 1
                v[i][j] = t.clamp(p["reset_bias"][i, j] + sd * z, i, j)
    seen(H, t, torch.stack([torch.stack(r) for r in v]), rest(t, g[k:]))


@contract("C32", cases=[dict(dev=n) for n in ("Constant", "Linear", "Exp")])
def no_reset(H, dev):
    t = Dev(H, dev, ref=False)
    w, m = t.stored(), cc.mark()
    t.t("reset_cols", 0, -1, reals=[0.0])
    H.eq("probability zero: no reset", t.stored(), w)
    H.ensure("no draws", cc.mark() == m)


class Drifter:
    """the documented power law: the time counts from the last change of the weight"""

    def __init__(self, H, q, nu, tol=1e-7):
        self.H, self.q, self.nu, self.tol = H, q, nu, tol
        self.cur = self.prev = None

    def __call__(self, w, dt, p=None, xi=None, extra=None):
        """w: present weights; the changed ones must differ visibly from the last result"""
        H, q = self.H, self.q
        if self.cur is None:
            self.cur, self.w0, self.prev = 0.0, w, w
            self.t = [[0.0] * w.shape[1] for _ in w]
        self.cur = self.cur + dt / q.get("t_0", 1.0)
        rows = []
        for i in range(w.shape[0]):
            r = []
            for j in range(w.shape[1]):
                d = (w[i, j] - self.prev[i, j]).abs()
                if H.sym and w is self.prev:
                    same = True
                else:
                    H.assume((d == 0) | (d > 0.001))
                    same = bool(d <= self.tol)
                if same:
                    nu, g = self.nu[i][j], (w[i, j] - q.get("w_offset", 0.0)) / q.get("wg_ratio", 1.0) + q.get("g_offset", 0.0)
                    if xi is not None:
                        nu = nu + q["nu_std"] * nu * xi()
                    if "nu_k" in q:
                        H.assume(g > 0)
                        nu = nu - q["nu_k"] * torch.log(g) + q["nu_k"] * q["log_g0"]
                    t = torch.as_tensor(self.cur - self.t[i][j], dtype=F)
                    f = torch.maximum(t, 0 * t + 1) ** (-nu)
                    a = q.get("g_offset", 0.0) * q.get("wg_ratio", 1.0) - q.get("w_offset", 0.0)
                    v = self.w0[i, j] * f + a * (f - 1)      # the conductance decays
                else:
                    self.t[i][j] = self.cur
                    self.w0 = self.w0.clone()
                    self.w0[i, j] = w[i, j]
                    v = w[i, j]
                if extra is not None:
                    v = v + extra()
                r.append(v)
            rows.append(torch.stack(r))
        self.prev = torch.stack(rows)
        if p is not None:
            self.prev = clamp(self.prev, p)
        return self.prev


def drifting(H, dev, wn=0, const=(), **q):
    over = {"drift." + k: v for k, v in q.items()}
    m = cc.mark()
    t = Dev(H, dev, wn=wn, ref=False, **over)
    return t, m


T = {"d": 1.5, "e": 6.0, "f": 0.25}


@contract("C32", cases=[dict(dev=n, wn=w, seq=s) for n in ("Constant", "Linear", "Pow") for w in (0, 1) if not w or n in WRITE_NOISE
                        for s in ("d", "de", "def", "fff", "edsde", "sde", "dpde", "dcde")], timeout=60)
def drift(H, dev, wn, seq):
    """power law in the time since the last change of the weight; without change the time accumulates"""
    q = dict(nu=0.5, t_0=2.0)
    t, _ = drifting(H, dev, wn, **q)
    law = Drifter(H, q, t.p["drift_nu"])
    now = t.stored()
    for k, o in enumerate(seq):
        if o in T:
            t.t("drift", reals=[T[o]])
            now = law(now, T[o], t.p)
            H.eq("state of the devices after call %d" % k, t.stored(), now)
            continue
        if o == "s":
            w = H.tensor("n%d" % k, 1, 2, flo=-1, fhi=1)
            H.assume(w.abs() <= 1e6)
            t.t.set_w(w)
        elif o == "p":
            t.pulse([[1, 0]])
        else:
            t.t("tclip", reals=[0.0625])
        now = t.stored()


@contract("C32", cases=[dict(dev="Constant", part=p) for p in ("time", "offsets", "log", "noise", "cycle")], timeout=60)
def drift_parameters(H, dev, part):
    """every parameter of the drift"""
    q = dict(nu=0.5)
    if part == "time":
        q = dict(nu=H.real("nu", gt=0, flo=0.1, fhi=1), t_0=H.real("t0", gt=0, flo=0.5, fhi=2))
    elif part in ("offsets", "log"):
        q.update(wg_ratio=H.real("ratio", gt=0, flo=0.05, fhi=0.2), g_offset=H.real("goff", gt=0, flo=0.1, fhi=1), w_offset=-0.5)
        if part == "log":
            q.update(nu_k=H.real("k", gt=0, flo=0.01, fhi=0.2), log_g0=H.real("lg", flo=-1, fhi=1))
    elif part == "noise":
        q["w_noise_std"] = H.real("ns", gt=0, flo=0.01, fhi=0.2)
    else:
        q["nu_std"] = H.real("ns", gt=0, flo=0.01, fhi=0.2)
    t, m = drifting(H, dev, **q)
    law = Drifter(H, q, t.p["drift_nu"])
    w = t.stored()
    if part in ("offsets", "log"):
        a = q["g_offset"] * q["wg_ratio"] - q["w_offset"]
        H.assume(a > 0.001)
    for k in range(2):
        dt = H.real("dt%d" % k, gt=0, flo=0.5, fhi=5)
        m = cc.mark()
        t.t("drift", reals=[dt])
        g = iter(cc.drawn(m))
        xi = (lambda: next(g)) if part == "cycle" else None
        ex = (lambda: q["w_noise_std"] * next(g)) if part == "noise" else None
        v = law(w if k == 0 else law.prev, dt, t.p, xi, ex)
        H.eq("drifted weights, call %d" % k, t.stored(), v)


@contract("C32", cases=[dict(op=o) for o in ("decay", "bias", "diffuse", "reset", "clip", "plain", "no diffusion")])
def ideal(H, op):
    """the ideal device: the same laws with one rate for all and no bounds"""
    over = dict(lifetime=H.real("life", gt=1, flo=1.5, fhi=8), reset_std=H.real("sd", gt=0, flo=0.1, fhi=1),
                diffusion=H.real("diff", gt=0, flo=0.1, fhi=1) if op != "no diffusion" else 0.0)
    t = cc.analog_tile(SingleRPUConfig(device=IdealDevice()), 3, 2, **over)
    w = H.tensor("w", 2, 3)
    t.set_w(w)
    m = cc.mark()
    s = 1 - 1 / over["lifetime"]
    if op == "decay":
        a = H.real("alpha", gt=0, flo=0.1, fhi=1)
        H.assume(a <= 1) if H.sym else None
        t("decay", 1, 0, reals=[min(a, 1.0) if not H.sym else a])
        v = w * (1 - (min(a, 1.0) if not H.sym else a) / over["lifetime"])
    elif op == "plain":
        t("decay", 0, 0)
        v = w * s
    elif op == "bias":
        t("decay", 0, 1)
        v = torch.cat([w[:, :2] * s, w[:, 2:]], 1)
    elif op == "diffuse":
        t("diffuse")
        v = w + over["diffusion"] * cc.drawn(m).reshape(2, 3)
    elif op == "no diffusion":
        t("diffuse")
        v = w
    elif op == "reset":
        t("reset_cols", 2, 2, reals=[1.0])
        z = cc.drawn(m)
        v = torch.stack([torch.stack([over["reset_std"] * z[i], w[i, 1], over["reset_std"] * z[2 + i]]) for i in range(2)])
    else:
        c = H.real("clip", gt=0, flo=0.1, fhi=1)
        t("tclip", reals=[c])
        v = torch.minimum(torch.maximum(w, 0 * w - c), 0 * w + c)
    H.eq("weights", t.w(), v)


@contract("C32", cases=[dict(kind=k, seq=s) for k in ("float", "ideal") for s in ("d", "de", "edsde")])
def simple_drift(H, kind, seq):
    """floating point tile: the same power law without bounds"""
    if kind == "float":
        p = R.CLASS["DriftParameter"]()
        p.nu, p.t_0 = 0.5, 2.0
        t = cc.simple_tile(2, 1, drift=p)
    else:
        t = cc.analog_tile(SingleRPUConfig(device=plain("Constant", w_max=1e6, w_min=-1e6, **{"drift.nu": 0.5, "drift.t_0": 2.0})), 2, 1)
    w = H.tensor("w", 1, 2)
    H.assume(w.abs() <= 1e5)
    t.set_w(w)
    law = Drifter(H, dict(nu=0.5, t_0=2.0), [[0.5, 0.5]])
    for k, o in enumerate(seq):
        if o in T:
            t("drift", reals=[T[o]])
            w = law(w, T[o])
            H.eq("weights after call %d" % k, t.w(), w)
        else:
            w = H.tensor("n%d" % k, 1, 2)
            H.assume(w.abs() <= 1e5)
            t.set_w(w)


CELLS = ("vector", "vector gamma", "reference", "one-sided", "transfer", "transfer gamma", "transfer gamma_vec", "buffered", "chopped", "dynamic")


@contract("C32", cases=[dict(kind=k, op=o, dev=n) for k in CELLS for o in ("decay", "alpha", "diffuse", "clip", "reset") for n in ("Constant", "Linear")
                        if n == "Constant" or k in ("vector", "transfer gamma", "one-sided")], timeout=60)
def members(H, kind, op, dev):
    """compound cells: every member follows the law with its own parameters; a reset concerns the updated device of transfer cells only"""
    c = Cell(H, kind, x=2, d=1, cell_kw=dict(dev=dev))
    h = c.t.hidden()
    n = len(c.gam)
    for k in range(n):
        s = "_%d" % k
        for a, lo, hi in (("decay_scales", 0, 1), ("diffusion_rates", 0, 0.2), ("reset_bias", -0.2, 0.2)):
            h[a + s] = H.tensor(a + s, 1, 2, flo=lo, fhi=hi)
    c.t.set_hidden(h)
    h, t = c.t.hidden(), c.t
    m = cc.mark()
    if op == "decay":
        t("decay", 0, 0)
    elif op == "alpha":
        a = H.real("alpha", flo=0, fhi=2)
        t("decay", 1, 0, reals=[a])
    elif op == "diffuse":
        t("diffuse")
    elif op == "clip":
        cl = H.real("clip", gt=0, flo=0.05, fhi=0.5)
        t("tclip", reals=[cl])
    else:
        t("reset_cols", 1, 1, reals=[1.0])
    g, o, pos = cc.drawn(m), t.hidden(), 0
    for k in range(n):
        p = {a: h[a + "_%d" % k] for a in ("max_bound", "min_bound", "decay_scales", "diffusion_rates", "reset_bias")}
        w = h["hidden_weights_%d" % k]
        if op in ("decay", "alpha"):
            v = (w - p["reset_bias"]) * (1 - (1 if op == "decay" else a) * (1 - p["decay_scales"])) + p["reset_bias"]
        elif op == "diffuse":
            v = w + p["diffusion_rates"] * g[pos:pos + 2].reshape(1, 2)
            pos += 2
        elif op == "clip":
            v = torch.minimum(torch.maximum(w, 0 * w - cl), 0 * w + cl)
        elif hasattr(c.cfg, "transfer_every") and k > 0:
            H.eq("member %d is not reset" % k, o["hidden_weights_%d" % k], w)
            continue
        else:
            v = torch.cat([w[:, :1], p["reset_bias"][:, 1:]], 1)
        H.eq("member %d" % k, o["hidden_weights_%d" % k], clamp(v, p))
    c.consistent()


from aihwkit.simulator.configs import (FloatingPointRPUConfig, UnitCellRPUConfig, DigitalRankUpdateRPUConfig, InferenceRPUConfig)
from aihwkit.simulator.configs.devices import FloatingPointDevice, ConstantStepDevice, LinearStepDevice
from .c20 import through
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD


def dev_cfg(kind, dif, life):
    """configuration whose device (or last member) diffuses or decays"""
    kw = dict(diffusion=dif, lifetime=life)
    a, b = ConstantStepDevice(), LinearStepDevice(**kw)
    cells = {"vector": lambda: cp.VectorUnitCell(unit_cell_devices=[a, b]), "first": lambda: cp.VectorUnitCell(unit_cell_devices=[b, a]),
             "reference": lambda: cp.ReferenceUnitCell(unit_cell_devices=[a, b]), "one-sided": lambda: cp.OneSidedUnitCell(unit_cell_devices=[b]),
             "transfer": lambda: cp.TransferCompound(unit_cell_devices=[a, b]), "buffered": lambda: cp.BufferedTransferCompound(unit_cell_devices=[a, b]),
             "chopped": lambda: cp.ChoppedTransferCompound(unit_cell_devices=[a, b]), "dynamic": lambda: cp.DynamicTransferCompound(unit_cell_devices=[a, b]),
             "nested": lambda: cp.VectorUnitCell(unit_cell_devices=[a, cp.OneSidedUnitCell(unit_cell_devices=[b])])}
    if kind in cells:
        return UnitCellRPUConfig(device=cells[kind]())
    if kind == "single":
        return SingleRPUConfig(device=b)
    if kind == "ideal":
        return SingleRPUConfig(device=IdealDevice(**kw))
    if kind == "float":
        return FloatingPointRPUConfig(device=FloatingPointDevice(**kw))
    if kind == "inference":
        c = InferenceRPUConfig()
        c.device = IdealDevice(**kw)
        return c
    return DigitalRankUpdateRPUConfig(device=cp.MixedPrecisionCompound(device=b))


KINDS = ("single", "ideal", "float", "inference", "mixed", "vector", "first", "reference", "one-sided", "transfer", "buffered", "chopped", "dynamic",
         "nested")
OF_INTEREST = ("decay_weights", "diffuse_weights", "drift_weights", "reset_columns")


@contract("C32", cases=[dict(kind=k, dif=d, life=f) for k in KINDS for d in (0, 1) for f in (0, 1)])
def once_per_step(H, kind, dif, life):
    """diffusion and decay happen once per mini-batch exactly if some device of the tile has it; drift and reset never by themselves"""
    with H.setup():
        c = dev_cfg(kind, 0.25 * dif, 8.0 * life)
        c.runtime.data_type = RPUDataType.DOUBLE
    tiles = [c.tile_class(n, 2, c, bias=False) for n in (2, 1)]
    for t in tiles:
        t.train()
    opt = AnalogSGD([t.get_analog_ctx() for t in tiles], lr=0.5)
    opt.regroup_param_groups()
    for i, t in enumerate(tiles):
        t.tile.set_weights(H.tensor("w%d" % i, t.tile.get_d_size(), 2))
        t.tile._calls.clear()
    want = []
    for k, lr in enumerate((0.5, 0.5, 0.0)):
        for i, t in enumerate(tiles):
            for b in range(k):
                through(H, t, H.tensor("x%d_%d_%d" % (k, i, b), 2, 2), H.tensor("d%d_%d_%d" % (k, i, b), 2, t.tile.get_d_size()))
        for g in opt.param_groups:
            g["lr"] = lr
        opt.step()
        want += [("diffuse_weights",)] * dif + [("decay_weights", 1.0)] * life
        for i, t in enumerate(tiles):
            got = [x for x in t.tile._calls if x[0] in OF_INTEREST]
            H.ensure("tile %d after step %d" % (i, k + 1), sorted(got) == sorted(want))
            upd = [n for n, x in enumerate(t.tile._calls) if x[0] == "update"]
            last = [n for n, x in enumerate(t.tile._calls) if x[0] in OF_INTEREST]
            H.ensure("tile %d: after the update" % i, not (want and upd) or last[-1] > upd[-1])


@contract("C32", cases=[dict(kind=k) for k in ("single", "ideal", "float", "inference", "vector", "mixed")])
def requested(H, kind):
    """operations called by the user reach the tile with their arguments"""
    with H.setup():
        t = AnalogLinear(3, 2, rpu_config=dev_cfg(kind, 0.25, 8.0)).analog_module
    a = H.real("a", flo=0, fhi=2)
    calls = [(lambda: t.decay_weights(a), ("decay_weights", a)), (lambda: t.decay_weights(), ("decay_weights", 1.0)),
             (lambda: t.drift_weights(a), ("drift_weights", a)), (lambda: t.drift_weights(), ("drift_weights", 1.0)),
             (lambda: t.diffuse_weights(), ("diffuse_weights",)), (lambda: t.reset_columns(2, 2, a), ("reset_columns", 2, 2, a)),
             (lambda: t.reset_columns(), ("reset_columns", 0, 1, 1.0)), (lambda: t.reset(), ("reset_columns", 0, -1, 1.0)),
             (lambda: t.reset(a), ("reset_columns", 0, -1, a))]
    for n, (f, want) in enumerate(calls):
        if kind == "inference" and want[0] == "drift_weights":
            continue               # drifts the programmed weights: C11
        t.tile._calls.clear()
        f()
        got = [x for x in t.tile._calls if x[0] in OF_INTEREST]
        H.ensure("call %d" % n, len(got) == 1 and got[0][0] == want[0] and len(got[0]) == len(want))
        for g, w in zip(got[0][1:], want[1:]):
            H.eq("arguments of call %d" % n, g, w, shape=False)
