"""C18 compound cells expose the documented combination of their members; members not selected keep their weights."""
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.configs import compounds as cp
from aihwkit.simulator.parameters.training import UpdateParameters
from aihwkit.simulator.parameters.enums import VectorUnitCellUpdatePolicy as POL, PulseType, NoiseManagementType as NM
from .devices import plain
from .c06 import neutral

KINDS = ["vector", "vector gamma", "reference", "one-sided", "transfer", "transfer gamma", "transfer gamma_vec", "buffered", "chopped",
         "dynamic", "vector of one-sided", "transfer of one-sided"]
GAM2, GAM3 = [0.75, -1.5], [0.5, 0.0, 2.0]


def up(pt=PulseType.DETERMINISTIC_IMPLICIT, **kw):
    return UpdateParameters(pulse_type=pt, update_management=False, update_bl_management=False, desired_bl=kw.pop("bl", 1), **kw)


def cell(kind, dev="Constant", dev2=None, policy=POL.ALL, units=2, **kw):
    """configuration, and the documented factor of every member"""
    a, b = plain(dev), plain(dev2 or dev)
    if dev2 is None:
        b.dw_min = 0.125
    if kind.startswith("vector of"):
        return cp.VectorUnitCell(unit_cell_devices=[cell("one-sided", dev)[0], b], update_policy=policy, **kw), ["mean"] * 2
    if kind == "transfer of one-sided":
        return trans(cp.TransferCompound, [cell("one-sided", dev)[0], b], **kw), [0.0, 1.0]
    if kind == "vector":
        return cp.VectorUnitCell(unit_cell_devices=([a, b, plain(dev)])[:units], update_policy=policy, **kw), ["mean"] * units
    if kind == "vector gamma":
        g = GAM2 if units == 2 else GAM3
        return cp.VectorUnitCell(unit_cell_devices=([a, b, plain(dev)])[:units], update_policy=policy, gamma_vec=list(g), **kw), g
    if kind == "reference":
        return cp.ReferenceUnitCell(unit_cell_devices=[a, b], **kw), [1.0, -1.0]
    if kind == "one-sided":
        return cp.OneSidedUnitCell(unit_cell_devices=[a], **kw), [-1.0, 1.0]
    if kind == "transfer":
        return trans(cp.TransferCompound, [a, b], **kw), [0.0, 1.0]
    if kind == "transfer gamma":
        if units == 3:
            return trans(cp.TransferCompound, [a, b, plain(dev)], gamma=0.5, **kw), [0.25, 0.5, 1.0]
        return trans(cp.TransferCompound, [a, b], gamma=0.5, **kw), [0.5, 1.0]
    if kind == "transfer gamma_vec":
        return trans(cp.TransferCompound, [a, b], gamma_vec=[0.75, -1.5], **kw), [0.75, -1.5]
    if kind == "buffered":
        return trans(cp.BufferedTransferCompound, [a, b], gamma=0.5, **kw), [0.5, 1.0]
    if kind in ("chopped", "dynamic"):
        C = cp.ChoppedTransferCompound if kind == "chopped" else cp.DynamicTransferCompound
        return trans(C, [a, b], gamma=0.5, **kw), [0.5, 1.0]
    raise KeyError(kind)


def trans(C, devs, **kw):
    kw.setdefault("transfer_forward", neutral())
    kw.setdefault("transfer_update", up())
    kw.setdefault("transfer_every", 1000.0)
    return C(unit_cell_devices=devs, **kw)


class Cell:
    """a tile whose members have arbitrary weights inside their bounds (the hidden weights are the state of the tile)"""

    def __init__(self, H, kind, x=2, d=1, state=True, update=None, cell_kw=None, **kw):
        self.H, self.kind = H, kind
        c, self.gam = cell(kind, **{**(cell_kw or {}), **kw})
        self.cfg = c
        self.t = cc.analog_tile(SingleRPUConfig(device=c, update=update or up()), x, d)
        self.d, self.x = d, x
        self.names = self.t.hidden_names()
        self.members = [n for n in self.names if n.startswith("hidden_weights_")]
        if state:
            self.randomize()

    def top(self):
        return ["hidden_weights_%d" % k for k in range(len(self.gam))]

    def randomize(self, tag="", lo=-0.5, hi=0.5):
        h = self.t.hidden()
        H = self.H
        for n in self.members:
            w = H.tensor(tag + n, self.d, self.x, flo=lo, fhi=hi)
            suf = n[len("hidden_weights_"):]
            H.assume(w.abs() <= 0.5)
            if "max_bound_" + suf in h:
                H.assume(w <= h["max_bound_" + suf])
                H.assume(w >= h["min_bound_" + suf])
            h[n] = w
        for n in list(h):                       # nested: the outer member is the combination of the inner ones
            if n in self.members and n + "_0" not in h and any(m.startswith("hidden_weights_") and m.endswith("_" + n[len("hidden_weights_"):])
                                                              and m != n for m in h):
                inner = [m for m in h if m.startswith("hidden_weights_") and m != n and m.endswith("_" + n[len("hidden_weights_"):])]
                h[n] = h[inner[1]] - h[inner[0]]
        self.t.set_hidden(h)

    def chop(self):
        """sign pattern of the fast member"""
        s = self.t.dump()
        if self.kind not in ("chopped", "dynamic"):
            return None
        inn = next(v for k, v in s.items() if k.endswith("in_chopper"))
        out = next(v for k, v in s.items() if k.endswith("out_chopper"))
        inn, out = [float(v) for v in inn.reshape(-1)], [float(v) for v in out.reshape(-1)]
        return inn, out

    def combo(self, h=None):
        h = h or self.t.hidden()
        v = 0
        for g, n in zip(self.gam, self.top()):
            v = v + (h[n] / len(self.gam) if g == "mean" else g * h[n])
        return v

    def pulses(self, kernel, *args):
        """pulses to the cell; transfer cells combine at the end of the update cycle"""
        self.t(kernel, *args)
        if self.gam[0] != "mean" and hasattr(self.cfg, "transfer_every"):
            finish(self.H, self.t, self.x, self.d)

    def consistent(self, what=""):
        h = self.t.hidden()
        self.H.eq("effective weight is the combination of the members" + what, self.t.raw(), self.combo(h))
        for n in self.members:
            inner = [m for m in self.members if m != n and m.endswith("_" + n[len("hidden_weights_"):])]
            if len(inner) == 2:
                self.H.eq("nested member is the difference of its two devices" + what, h[n], h[inner[1]] - h[inner[0]])
        return h


def finish(H, t, x, d):
    """complete an update cycle (without further pulses)"""
    t("set_lr", reals=[0.125])
    t("update", 0, 1, 0, 0, reals=[torch.zeros(1, x, dtype=H.float_dtype), torch.zeros(1, d, dtype=H.float_dtype)])


OPS = ("restore", "decay", "decay alpha", "diffuse", "drift", "clip", "reset", "set", "sparse", "dense", "update", "copy", "assign", "move",
       "move assign", "load")


def operate(H, c, op):
    t = c.t
    if op == "restore":
        c.randomize("again ")
    elif op == "decay":
        t("decay", 0, 0)
    elif op == "decay alpha":
        t("decay", 1, 0, reals=[H.real("alpha")])
    elif op == "diffuse":
        t("diffuse")
    elif op == "drift":
        t("drift", reals=[H.real("dt", gt=0, flo=0.5, fhi=3)])
    elif op == "clip":
        t("tclip", reals=[H.real("clip", gt=0, flo=0.1, fhi=0.5)])
    elif op == "reset":
        t("reset_cols", 1, 1, reals=[1.0])
    elif op == "set":
        w = H.tensor("w", c.d, c.x, flo=-1, fhi=1)
        H.assume(w.abs() <= 2)
        t.set_w(w)
    elif op == "sparse":
        c.pulses("sparse", 0, 1, 2, 1, -2)
    elif op == "dense":
        c.pulses("dense", *([1, -2] * c.d))
    elif op == "update":
        t("set_lr", reals=[0.125])
        t("update", 0, 1, 0, 0, reals=[torch.tensor([[1.0, -0.5]], dtype=H.float_dtype), torch.ones(1, c.d, dtype=H.float_dtype)])
    elif op in ("copy", "assign", "move", "move assign"):
        h0, w0 = t.hidden(), t.raw()
        u = c.t = t.copy(("copy", "assign", "move", "move assign").index(op))
        h1 = u.hidden()
        for n in h0:
            H.eq("copied member state", h1[n], h0[n])
        H.eq("copied effective weight", u.raw(), w0)
        c.pulses("dense", *([1, -2] * c.d))
        c.consistent(" (after updating the copy)")
        u("decay", 0, 0)
        if op in ("copy", "assign"):
            H.eq("the original is not touched by updates of its copy", t.raw(), w0)
            h2 = t.hidden()
            for n in c.members:
                H.eq("the members of the original are not touched", h2[n], h0[n])
    elif op == "load":
        s = t.dump()
        h0, w0 = t.hidden(), t.raw()
        u = Cell(H, c.kind, c.x, c.d, state=False)
        u.t.set_hidden(h0)
        u.t.load(s)
        h1 = u.t.hidden()
        for n in c.members:
            H.eq("restored member weights", h1[n], h0[n])
        H.eq("restored effective weight", u.t.raw(), w0)
        c.t = u.t


DEVS = ("Constant", "Linear", "SoftBounds", "SoftRef")


@contract("C18", cases=[dict(kind=k, op=o) for k in KINDS for o in OPS], timeout=60)
def combination(H, kind, op):
    """every operation keeps the effective weight the combination of the members"""
    c = Cell(H, kind)
    c.consistent(" (restored)")
    operate(H, c, op)
    c.consistent()


@contract("C18", cases=[dict(kind=k, dev=v, op=o) for k in ("vector gamma", "reference", "one-sided", "transfer gamma") for v in
                        ("Linear", "SoftBounds", "SoftRef") for o in ("decay", "sparse", "dense", "set", "reset", "clip")], timeout=60)
def combination_devices(H, kind, dev, op):
    c = Cell(H, kind, cell_kw=dict(dev=dev))
    operate(H, c, op)
    c.consistent()


PT = {"stochastic": PulseType.STOCHASTIC, "compressed": PulseType.STOCHASTIC_COMPRESSED, "implicit": PulseType.DETERMINISTIC_IMPLICIT,
      "mean": PulseType.MEAN_COUNT}


@contract("C18", cases=[dict(kind=k, pt=p, batch=b) for k in ("vector", "vector gamma", "reference", "one-sided", "transfer gamma", "buffered", "chopped")
                        for p in PT for b in (1, 2) if not (b == 2 and p != "implicit")], timeout=60)
def pulsed_updates(H, kind, pt, batch):
    """complete updates with pulse trains, any noise draw"""
    c = Cell(H, kind, update=up(PT[pt]))
    g = c.t
    g("set_lr", reals=[0.125])
    x = torch.tensor([[1.0, -0.5], [0.5, 1.0]][:batch], dtype=H.float_dtype)
    d = torch.tensor([[1.0], [-1.0]][:batch], dtype=H.float_dtype)
    g("update", 0, batch, 0, 0, reals=[x, d])
    c.consistent()


@contract("C18", cases=[dict(units=n, policy=p, first=f, gam=g) for n in (2, 3) for p in ("ALL", "SINGLE_FIXED", "SINGLE_SEQUENTIAL", "SINGLE_RANDOM")
                        for f in range(n) for g in (0, 1) if not (f and p == "ALL")], timeout=60)
def selection(H, units, policy, first, gam):
    """which members are updated, and by how much"""
    kw = dict(first_update_idx=first)
    c = Cell(H, "vector gamma" if gam else "vector", cell_kw=dict(policy=getattr(POL, policy), units=units), **kw)
    H.ensure("starts with the configured member", c.t("hidden_idx", -1)[1][0] == first)
    t = c.t
    t("set_lr", reals=[0.125])
    x, d = torch.tensor([[1.0, -1.0]], dtype=H.float_dtype), torch.ones(1, 1, dtype=H.float_dtype)
    cur = first
    for step in range(units + 1):
        h0 = t.hidden()
        m = cc.mark()
        t("update", 0, 1, 0, 0, reals=[x, d])
        h1 = t.hidden()
        if policy == "SINGLE_SEQUENTIAL":
            cur = (cur + 1) % units
        elif policy == "SINGLE_FIXED":
            if step == 1:
                cur = (cur + 1) % units
                t("hidden_idx", cur)
        now = t("hidden_idx", -1)[1][0]
        if policy == "SINGLE_RANDOM":
            cur = now
            H.ensure("a member of the cell", 0 <= now < units)
        if policy == "SINGLE_FIXED" and step == 1:
            before = (cur - 1) % units
            H.ensure("selected explicitly", now == cur)
        else:
            before = cur
            if policy != "ALL":
                H.ensure("member selected by the policy", now == cur)
        for k in range(units):
            n = "hidden_weights_%d" % k
            if policy != "ALL" and k != before:
                H.eq("members not selected keep their weights", h1[n], h0[n])
            else:
                for j, s in ((0, -1.0), (1, 1.0)):
                    dw = h0["dwmin_up_%d" % k][0][j] if s > 0 else -h0["dwmin_down_%d" % k][0][j]
                    v = h0[n][0][j] + dw
                    v = torch.minimum(torch.maximum(v, h0["min_bound_%d" % k][0][j]), h0["max_bound_%d" % k][0][j])
                    H.eq("the selected member moves by its own step", h1[n][0][j], v)
        c.consistent()


@contract("C18", cases=[dict(units=n) for n in (2, 3, 4)])
def random_policy(H, units):
    """the draw decides: every member has the same chance"""
    devs = [plain("Constant") for _ in range(units)]
    t = cc.analog_tile(SingleRPUConfig(device=cp.VectorUnitCell(unit_cell_devices=devs, update_policy=POL.SINGLE_RANDOM), update=up()), 1, 1)
    t("set_lr", reals=[0.125])
    m = cc.mark()
    one = torch.ones(1, 1, dtype=H.float_dtype)
    t("update", 0, 1, 0, 0, reals=[one, one])
    u = cc.drawn(m)[0]
    k = t("hidden_idx", -1)[1][0]
    H.assume(u < 1)
    H.ensure("selected by the draw", (u * units >= k) & (u * units < k + 1))


@contract("C18", cases=[dict(kind=k) for k in ("vector", "vector gamma", "reference", "transfer", "transfer gamma", "transfer gamma_vec", "buffered", "chopped", "dynamic")])
def direct_write(H, kind):
    """which members a direct write sets"""
    c = Cell(H, kind)
    h0 = c.t.hidden()
    w = H.tensor("w", 1, 2, flo=-0.3, fhi=0.3)
    H.assume(w.abs() <= 0.3)
    c.t.set_w(w)
    h = c.consistent()
    if kind.startswith("vector"):
        for n in c.top():
            H.eq("every member is written", h[n], w)
    elif kind == "reference":
        H.eq("the selected member is written", h["hidden_weights_0"], w)
        H.eq("the reference keeps its weight", h["hidden_weights_1"], h0["hidden_weights_1"])
        c.t("hidden_idx", 1)
        v = H.tensor("v", 1, 2, flo=-0.3, fhi=0.3)
        H.assume(v.abs() <= 0.3)
        c.t.set_w(v)
        h = c.consistent()
        H.eq("the reference is written when selected", h["hidden_weights_1"], v)
        H.eq("the other member keeps its weight", h["hidden_weights_0"], w)
    else:
        last = c.top()[-1]
        H.eq("the slow member carries the weight", c.gam[-1] * h[last], w)
        for n in c.top()[:-1]:
            H.eq("the fast member is cleared", h[n], 0 * w)


@contract("C18", cases=[dict(dev=v, dense=e) for v in ("Constant", "Linear", "SoftBounds", "SoftRef") for e in (0, 1)])
def one_sided(H, dev, dense):
    """positive changes go to one device, negative ones to the other, both only upward"""
    c = Cell(H, "one-sided", x=2, d=2, cell_kw=dict(dev=dev))
    t = c.t
    h0 = t.hidden()
    if dense:
        t("dense", 1, -1, 0, -2)               # positive: down
    else:
        t("sparse", 0, 1, 2, 1, -2)
        t("sparse", 1, -1, 2, 2, 2)
    h = c.consistent()
    a = plain(dev)
    m0, p0, m, p = h0["hidden_weights_0"], h0["hidden_weights_1"], h["hidden_weights_0"], h["hidden_weights_1"]
    H.eq("down: the plus device is kept", p[0][0], p0[0][0])
    H.eq("up: the minus device is kept", m[0][1], m0[0][1])
    H.eq("up: the minus device is kept", m[1][1], m0[1][1])
    H.eq("not addressed", torch.stack([m[1][0], p[1][0]]), torch.stack([m0[1][0], p0[1][0]]))
    for i, j, k, v, v0 in ((0, 0, 0, m, m0), (0, 1, 1, p, p0), (1, 1, 1, p, p0)):
        H.le("devices only move up", v0[i][j], v[i][j], when=(v0[i][j] <= h0["max_bound_%d" % k][i][j]) if dev != "SoftRef" else None)
    if dev == "Constant":
        n = 2 if dense else 2
        for i, j, k, v, v0, n in ((0, 0, 0, m, m0, 1), (0, 1, 1, p, p0, 1), (1, 1, 1, p, p0, 2)):
            want = v0[i][j] + n * h0["dwmin_up_%d" % k][i][j]
            H.eq("by the upward step", v[i][j], torch.minimum(want, h0["max_bound_%d" % k][i][j]))


@contract("C18", cases=[dict(dev=v) for v in ("Constant", "SoftBounds", "SoftRef")])
def one_sided_write(H, dev):
    c = Cell(H, "one-sided", cell_kw=dict(dev=dev))
    w = H.tensor("w", 1, 2, flo=-0.5, fhi=0.5)
    H.assume(w.abs() <= 0.5)
    c.t.set_w(w)
    h = c.consistent()
    z = 0 * w
    H.eq("positive part on the plus device", h["hidden_weights_1"], torch.maximum(w, z))
    H.eq("negative part on the minus device", h["hidden_weights_0"], torch.maximum(-w, z))


INVERTIBLE = ("Constant", "Linear", "SoftBounds", "Pow", "PowRef", "SoftRef")


@contract("C18", cases=[dict(dev=v) for v in INVERTIBLE])
def copy_inverted(H, dev):
    """the inverted copy has up and down exchanged: it responds to a downward pulse as the original to an upward one"""
    c = plain(dev, up_down=0.25, up_down_dtod=0.5, dw_min_dtod=0.25, w_max_dtod=0.25, w_min_dtod=0.25)
    t = cc.analog_tile(SingleRPUConfig(device=cp.OneSidedUnitCell(unit_cell_devices=[c], copy_inverted=True)), 1, 1)
    h = t.hidden()
    H.eq("steps exchanged", h["dwmin_up_1"], h["dwmin_down_0"])
    H.eq("steps exchanged", h["dwmin_down_1"], h["dwmin_up_0"])
    H.eq("bounds mirrored", h["max_bound_1"], -h["min_bound_0"])
    H.eq("bounds mirrored", h["min_bound_1"], -h["max_bound_0"])
    for k in h:
        if k == "reference_0":
            H.eq("reference mirrored", h["reference_1"], -h["reference_0"])
        elif k.endswith("_up_0") and not k.startswith("dwmin"):
            s = -1.0 if k.startswith("slope") and False else 1.0
            H.eq("law exchanged", h[k.replace("_up_0", "_up_1")].abs(), h[k.replace("_up_0", "_down_0")].abs())


@contract("C18", cases=[dict(both=b) for b in ("refresh", "keep")])
def refresh(H, both):
    """refresh: both devices high at once: reset and rewritten as difference to one device"""
    cfg = cp.OneSidedUnitCell(unit_cell_devices=[plain("Constant", w_max=1.0, w_max_dtod=0.0)], refresh_every=2, refresh_upper_thres=0.75,
                              refresh_lower_thres=0.25, refresh_forward=neutral(), refresh_update=up(bl=31))
    t = cc.analog_tile(SingleRPUConfig(device=cfg, update=up()), 1, 1)
    h = t.hidden()
    p, m = H.real("p", flo=0.0, fhi=1), H.real("m", flo=0.0, fhi=1)
    for v in (p, m):
        H.assume(v >= 0)
        H.assume(v <= 1)
    one = torch.ones(1, 1, dtype=H.float_dtype)
    h["hidden_weights_1"], h["hidden_weights_0"] = p * one, m * one
    for k in ("max_bound_0", "max_bound_1"):
        h[k] = one
    due = ((p > 0.75) & (m > 0.25) & (p > m)) | ((p > 0.25) & (m > 0.75) & ~(p > m)) if H.sym else (p > 0.75 and m > 0.25 and p > m) or (p > 0.25 and m > 0.75 and not p > m)
    H.assume(due if both == "refresh" else ~due if H.sym else not due)
    t.set_hidden(h)
    t("set_lr", reals=[0.125])
    for step in range(2):
        h0 = t.hidden()
        t("update", 0, 1, 0, 0, reals=[0 * one, 0 * one])
        h1 = t.hidden()
        H.eq("effective weight is the difference", t.raw(), h1["hidden_weights_1"] - h1["hidden_weights_0"])
        if step == 0 or both == "keep":
            H.eq("kept before the refresh is due", h1["hidden_weights_1"], h0["hidden_weights_1"])
            H.eq("kept before the refresh is due", h1["hidden_weights_0"], h0["hidden_weights_0"])
        else:
            dw = 0.0625
            diff = p - m
            P, M = h1["hidden_weights_1"][0][0], h1["hidden_weights_0"][0][0]
            H.within("difference rewritten within one step", diff - dw, P - M, diff + dw)
            H.ensure("one of the devices is at rest", (P == 0) | (M == 0))


@contract("C18", cases=[dict(n=n, k=k) for n in (2, 3) for k in range(3)])
def transfer_factors(H, n, k):
    """documented factors of transfer cells; a write keeps the slow member, a reset clears the fast one"""
    g = H.real("gamma", gt=0.0, flo=0.1, fhi=1) if k else 0.0
    devs = [plain("Constant") for _ in range(n)]
    w = [H.tensor("w%d" % i, 1, 2, flo=-0.5, fhi=0.5) for i in range(n)]
    cfg = trans(cp.TransferCompound, devs)
    t = cc.analog_tile(SingleRPUConfig(device=cfg, update=up()), 2, 1, gamma=g)
    h = t.hidden()
    for i in range(n):
        H.assume(w[i] <= h["max_bound_%d" % i])
        H.assume(w[i] >= h["min_bound_%d" % i])
        h["hidden_weights_%d" % i] = w[i]
    t.set_hidden(h)

    def comb(h):
        v = h["hidden_weights_%d" % (n - 1)]
        p = 1.0
        for i in range(n - 2, -1, -1):
            p = p * g
            v = v + p * h["hidden_weights_%d" % i]
        return v
    H.eq("powers of the factor", t.raw(), comb(h))
    if k == 2:
        t("reset_cols", 1, 1, reals=[1.0])
        h1 = t.hidden()
        H.eq("the combination holds", t.raw(), comb(h1))
        for i in range(1, n):
            H.eq("slow members are not reset", h1["hidden_weights_%d" % i], h["hidden_weights_%d" % i])
        H.eq("columns not addressed are kept", h1["hidden_weights_0"][:, 0], h["hidden_weights_0"][:, 0])
    else:
        t("dense", 1, -1)
        finish(H, t, 2, 1)
        h1 = t.hidden()
        H.eq("the combination holds", t.raw(), comb(h1))
        for i in range(1, n):
            H.eq("pulses change the fast member only", h1["hidden_weights_%d" % i], h["hidden_weights_%d" % i])


@contract("C18", cases=[dict(kind=k, cols=c) for k in ("chopped", "dynamic") for c in (True, False)])
def chopped_combination(H, kind, cols):
    """the fast member counts with the sign of its row and column"""
    c, _ = cell(kind, transfer_columns=cols)
    t = cc.analog_tile(SingleRPUConfig(device=c, update=up()), 2, 3)
    s = t.dump()
    ki = next(k for k in s if k.endswith("in_chopper"))
    ko = next(k for k in s if k.endswith("out_chopper"))
    n_in, n_out = (2, 3) if cols else (3, 2)
    H.ensure("one sign per row and column", s[ki].numel() == n_in and s[ko].numel() == n_out)
    inn, out = [0.0, 1.0, 1.0][:n_in], [1.0, 0.0, 1.0][:n_out]
    f = H.float_dtype
    s[ki], s[ko] = torch.tensor(inn, dtype=f), torch.tensor(out, dtype=f)
    t.load(s)
    h = t.hidden()
    a, b = H.tensor("a", 3, 2, flo=-0.2, fhi=0.2), H.tensor("b", 3, 2, flo=-0.2, fhi=0.2)
    H.assume(a.abs() <= 0.2)
    H.assume(b.abs() <= 0.2)
    h["hidden_weights_0"], h["hidden_weights_1"] = a, b
    t.set_hidden(h)
    xs, ds = (inn, out) if cols else (out, inn)
    sign = torch.tensor([[-1.0 if xs[j] != ds[i] else 1.0 for j in range(2)] for i in range(3)], dtype=f)
    H.eq("signed combination", t.raw(), 0.5 * sign * a + b)
    t("decay", 0, 0)
    h1 = t.hidden()
    H.eq("signed combination after decay", t.raw(), 0.5 * sign * h1["hidden_weights_0"] + h1["hidden_weights_1"])
    t("dense", 1, -1, 0, 1, -1, 0)
    finish(H, t, 2, 3)
    h2 = t.hidden()
    H.eq("signed combination after an update", t.raw(), 0.5 * sign * h2["hidden_weights_0"] + h2["hidden_weights_1"])
    t("sparse", 1, 1, 2, 1, -2)
    finish(H, t, 2, 3)
    h2 = t.hidden()
    H.eq("signed combination after a sparse update", t.raw(), 0.5 * sign * h2["hidden_weights_0"] + h2["hidden_weights_1"])
