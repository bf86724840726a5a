"""C19 mixed precision: the accumulator receives the rank-one gradient, a transfer moves whole granules of it onto the device."""
import math
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import DigitalRankUpdateRPUConfig
from aihwkit.simulator.configs.compounds import MixedPrecisionCompound
from aihwkit.simulator.parameters.enums import PulseType
from .devices import plain
from .c18 import up

G = 0.125


class Mixed:
    def __init__(self, H, x=2, d=2, dev="Constant", update=None, fields={}, state=True, dw_min=G, **kw):
        self.H, self.x, self.d = H, x, d
        kw.setdefault("stoc_round_x", False)
        kw.setdefault("stoc_round_d", False)
        self.cfg = MixedPrecisionCompound(device=plain(dev, dw_min=dw_min, w_max=2.0, w_min=-2.0), **kw)
        self.t = cc.analog_tile(DigitalRankUpdateRPUConfig(device=self.cfg, update=update or up(PulseType.NONE_WITH_DEVICE)), x, d, **fields)
        if state:
            self.W = H.tensor("w", d, x, flo=-0.5, fhi=0.5)
            H.assume(self.W.abs() <= 0.5)
            self.t.set_w(self.W)
            self.chi = H.tensor("chi", d, x, flo=-0.5, fhi=0.5)
            h = self.t.hidden()
            h["hidden_weights_chi"] = self.chi
            self.t.set_hidden(h)

    def get_chi(self):
        return self.t.hidden()["hidden_weights_chi"]

    def key(self, s, name):
        k = [n for n in s if n.endswith("." + name)]
        assert len(k) == 1, (name, list(s))
        return k[0]

    def load(self, **kw):
        s = self.t.dump()
        for k, v in kw.items():
            s[self.key(s, k)] = torch.tensor([v], dtype=self.H.float_dtype)
        self.t.load(s)

    def get(self, name):
        s = self.t.dump()
        v = s[self.key(s, name)]
        return int(round(float(v)))

    def update(self, lr, x=None, d=None, batch=1):
        f = self.H.float_dtype
        self.t("set_lr", reals=[lr])
        x = torch.zeros(batch, self.x, dtype=f) if x is None else x
        d = torch.zeros(batch, self.d, dtype=f) if d is None else d
        self.t("update", 0, x.shape[0], 0, 0, reals=[x, d])


def quant(H, v, bins, noise=None):
    """bins levels around zero, up to the largest magnitude of the vector"""
    if not bins:
        return v
    half = bins // 2
    m = v.abs().max()
    if bool(m == 0):
        if noise is not None:
            H.assume((noise - 0.5).abs() < 0.5)            # a tie
        return 0 * v
    arg = v * half / m + (0 if noise is None else noise - 0.5)
    q = torch.round(arg)
    H.assume((arg - q).abs() < 0.5)        # the direction of ties is left open
    h = 0 * q + half
    return torch.minimum(torch.maximum(q, -h), h) * m / half


@contract("C19", cases=[dict(x=a, d=b, batch=m) for a in (1, 2, 3) for b in (1, 2, 3) for m in (1, 2)])
def accumulate(H, x, d, batch):
    """the rank-one gradient of every sample, exactly"""
    t = Mixed(H, x, d, n_rows_per_transfer=0)
    lr = H.real("lr", gt=0.0, flo=0.1, fhi=1)
    X, D = H.tensor("x", batch, x), H.tensor("d", batch, d)
    t.update(lr, X, D)
    H.eq("accumulator receives the gradient", t.get_chi(), t.chi + lr * (D.t() @ X))
    H.eq("weights are kept", t.t.w(), t.W)


@contract("C19", cases=[dict(xb=a, db=b, sx=s, sd=u, x=x, d=d) for a, b in ((0, 4), (0, 3), (4, 0), (3, 0), (4, 4), (2, 8), (3, 2)) for s in (False, True) for u in (False, True)
                        for x, d in ((2, 1), (1, 2)) if (a or b) and (a or not s) and (b or not u)], timeout=60)
def accumulate_quantized(H, xb, db, sx, sd, x, d):
    """of the quantized vectors, if the bins are set"""
    t = Mixed(H, x, d, n_rows_per_transfer=0, n_x_bins=xb, n_d_bins=db, stoc_round_x=sx, stoc_round_d=sd)
    X, D = H.tensor("x", 1, x, flo=-1, fhi=1), H.tensor("d", 1, d, flo=-1, fhi=1)
    for v in (X, D):
        for a in v.reshape(-1):
            bool(a >= 0), bool(a == 0)
    m = cc.mark()
    t.update(0.5, X, D)
    dr = cc.drawn(m)
    k = (x if sx else 0) + (d if sd else 0)
    dr = dr[-k:] if k else None
    nx = dr[:x] if sx else None
    nd = dr[-d:] if sd else None
    qx, qd = quant(H, X[0], xb, nx), quant(H, D[0], db, nd)
    H.eq("accumulator receives the quantized gradient", t.get_chi(), t.chi + 0.5 * qd.reshape(-1, 1) * qx.reshape(1, -1))
    H.eq("weights are kept", t.t.w(), t.W)


ROWS = [dict(x=x, d=d, rows=r, start=s, pt=p, tlr=l) for x, d in ((1, 2), (2, 1), (1, 3)) for r in (-1, 1, 2, 4) for s in range(d) for p in ("none", "pulsed")
        for l in (1.0, 0.5) if not (p == "pulsed" and l == 0.5)]


@contract("C19", cases=ROWS, timeout=60)
def transfer(H, x, d, rows, start, pt, tlr):
    """whole granules leave the accumulator and arrive at the device; the other rows are kept"""
    t = Mixed(H, x, d, n_rows_per_transfer=rows, transfer_lr=tlr, update=up(PulseType.NONE_WITH_DEVICE if pt == "none" else PulseType.DETERMINISTIC_IMPLICIT, bl=31))
    t.load(current_update_index=1.0, current_row_index=float(start))
    chi, W = t.chi, t.W
    H.assume(chi.abs() <= (0.375 if pt == "none" else 0.1875))
    t.update(0.5)
    n = d if rows < 0 else min(rows, d)
    hit = [(start + i) % d for i in range(n)]
    got, w = t.get_chi(), t.t.w()
    for j in range(d):
        if j in hit:
            k = torch.trunc(chi[j] / G)
            H.eq("whole granules leave the accumulator", got[j], chi[j] - k * G)
            H.ensure("the rest is smaller than a granule", got[j].abs() < G)
            H.eq("what leaves the accumulator is written", w[j], W[j] - tlr * k * G)
        else:
            H.eq("accumulator of other rows is kept", got[j], chi[j])
            H.eq("weights of other rows are kept", w[j], W[j])
    H.ensure("next row", t.get("current_row_index") == (start + n) % d)


@contract("C19", cases=[dict(gran=g, dw=w, dev=n) for g in (0.0, 0.25, 0.0625) for w in (0.125, 0.0625) for n in ("Constant", "Linear")])
def granularity(H, gran, dw, dev):
    """of the configuration, or of the device"""
    t = Mixed(H, 1, 1, dev=dev, granularity=gran, dw_min=dw)
    g = gran or dw
    H.assume(t.chi.abs() <= 2 * g)
    t.load(current_update_index=1.0)
    t.update(0.5)
    k = torch.trunc(t.chi / g)
    H.eq("whole granules leave the accumulator", t.get_chi(), t.chi - k * g)
    H.eq("what leaves the accumulator is written", t.t.w(), t.W - k * g)


@contract("C19", cases=[dict(every=e, batch=b, rows=r) for e in (0, 1, 2, 3) for b in (1, 2) for r in (-1, 1)])
def schedule(H, every, batch, rows):
    """over a run, gradient that has arrived is either in the accumulator or on the device"""
    t = Mixed(H, 1, 2, transfer_every=every, n_rows_per_transfer=rows)
    H.assume(t.chi.abs() <= 0.25)
    t.t("set_lr", reals=[0.5])
    want = H.clone(t.chi)
    total = t.chi + t.W
    idx = 0
    at = 0
    due = every * batch
    f = H.float_dtype
    one = torch.ones(batch, 1, dtype=f)
    dd = torch.tensor([[0.25, -0.125]] * batch, dtype=f)
    for step in range(4 if batch == 1 else 2):
        t.update(0.5, one, dd)
        for b in range(batch):
            want = want + 0.5 * dd[b].reshape(-1, 1)
            if due and idx and idx % due == 0:
                for _ in range(2 if rows < 0 else 1):
                    want[at] = want[at] - torch.trunc(want[at] / G) * G
                    at = (at + 1) % 2
            idx += 1
        total = total + 0.5 * batch * dd[0].reshape(-1, 1) * torch.ones(2, 1, dtype=f)
        got = t.get_chi()
        H.eq("rows are transferred when due", got, want)
        arrived = t.W - t.t.w()
        H.eq("nothing is lost or counted twice", got + arrived, total - t.W)


@contract("C19", cases=[dict(rows=r) for r in (1, 2)])
def random_row(H, rows):
    t = Mixed(H, 1, 3, n_rows_per_transfer=rows, random_row=True)
    H.assume(t.chi.abs() <= 0.25)
    t.load(current_update_index=1.0, current_row_index=1.0)
    m = cc.mark()
    t.update(0.5)
    u = cc.drawn(m)[-1]
    s = 0 if bool(u * 3 < 1) else 1 if bool(u * 3 < 2) else 2
    hit = [(s + i) % 3 for i in range(rows)]
    got, w = t.get_chi(), t.t.w()
    for j in range(3):
        k = torch.trunc(t.chi[j] / G) if j in hit else 0 * t.chi[j]
        H.eq("the drawn rows are transferred", got[j], t.chi[j] - k * G)
        H.eq("what leaves the accumulator is written", w[j], t.W[j] - k * G)


@contract("C19", cases=[dict(how=h, used=u) for h in range(4) for u in (False, True)])
def copies(H, how, used):
    """a copy holds the accumulator and continues the schedule"""
    t = Mixed(H, 1, 2, n_rows_per_transfer=1, transfer_every=2, update=up(PulseType.DETERMINISTIC_IMPLICIT, bl=31))
    H.assume(t.chi.abs() <= 0.25)
    t.load(current_update_index=4.0, current_row_index=1.0)
    chi, W = t.chi, t.W
    if used:
        t.load(current_update_index=3.0)
        t.update(0.5)
    u = t.t.copy(how)
    H.eq("copied accumulator", u.hidden()["hidden_weights_chi"], chi)
    H.eq("copied weights", u.w(), W)
    f = H.float_dtype
    u("set_lr", reals=[0.5])
    u("update", 0, 1, 0, 0, reals=[torch.zeros(1, 1, dtype=f), torch.zeros(1, 2, dtype=f)])
    k = torch.trunc(chi[1] / G)
    got = u.hidden()["hidden_weights_chi"]
    H.eq("copy continues with the next row", got[1], chi[1] - k * G)
    H.eq("copy keeps the other rows", got[0], chi[0])
    H.eq("copy writes what leaves the accumulator", u.w()[1], W[1] - k * G)


@contract("C19", cases=[dict(op=o) for o in ("decay", "clip", "drift", "diffuse", "set_w")])
def other_operations(H, op):
    """act on the device, not on the accumulator; setting the weights starts anew"""
    t = Mixed(H, 2, 1)
    if op == "decay":
        t.t("decay", 0, 0, reals=[1.0])
    elif op == "clip":
        t.t("tclip", reals=[0.25])
    elif op == "drift":
        t.t("drift", reals=[1.0])
    elif op == "diffuse":
        t.t("diffuse")
    else:
        t.load(current_update_index=3.0)
        t.t.set_w(0 * t.W)
        H.eq("accumulator is reset", t.get_chi(), 0 * t.chi)
        H.ensure("counters are reset", t.get("current_update_index") == 0)
        return
    H.eq("accumulator is kept", t.get_chi(), t.chi)


@contract("C19", cases=[dict(bl=b, steps=s) for b, s in ((4, 4), (4, 5), (2, 3), (3, 3))])
def pulse_limit(H, bl, steps):
    """a transfer of more steps than pulses are available"""
    t = Mixed(H, 1, 1, update=up(PulseType.DETERMINISTIC_IMPLICIT, bl=bl))
    H.assume(t.chi >= steps * G)
    H.assume(t.chi < (steps + 1) * G)
    t.load(current_update_index=1.0)
    t.update(0.5)
    H.eq("what leaves the accumulator is written", t.chi - t.get_chi(), t.W - t.t.w())
