"""C27 transfer schedules: a transfer happens exactly when due, takes the next column, writes only that column of the next device."""
import math
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.configs import compounds as cp
from aihwkit.simulator.parameters.enums import PulseType
from .devices import plain
from .c06 import neutral
from .c18 import trans, up

EXACT = dict(transfer_update=up(PulseType.NONE))
DW = 0.0625


def key(s, name):
    k = [n for n in s if n.endswith("." + name)]
    assert len(k) == 1, (name, list(s))
    return k[0]


class Cell:
    def __init__(self, H, C=cp.TransferCompound, n=2, x=2, d=2, fields={}, update=None, devs=None, **kw):
        self.H, self.n, self.x, self.d = H, n, x, d
        self.cols = kw.get("transfer_columns", True)
        self.cfg = trans(C, devs or [plain("Constant") for _ in range(n)], **kw)
        self.t = cc.analog_tile(SingleRPUConfig(device=self.cfg, update=update or up()), x, d, **fields)
        h = self.t.hidden()
        self.w = []
        for k in range(n):
            w = H.tensor("w%d" % k, d, x, flo=-0.5, fhi=0.5)
            H.assume(w.abs() <= 0.5)
            h["hidden_weights_%d" % k] = w
            self.w.append(w)
        self.t.set_hidden(h)

    def state(self, **kw):
        s = self.t.dump()
        for k, v in kw.items():
            n = key(s, k)
            s[n] = torch.tensor([float(a) for a in v], dtype=self.H.float_dtype) if isinstance(v, (list, tuple)) else v
        self.t.load(s)

    def get(self, name):
        s = self.t.dump()
        return [int(round(float(v))) for v in s[key(s, name)].reshape(-1)]

    def members(self):
        h = self.t.hidden()
        return [h["hidden_weights_%d" % k] for k in range(self.n)]

    def update(self, lr, batch=1, x=None, d=None):
        f = self.H.float_dtype
        self.t("set_lr", reals=[lr])
        self.t("update", 0, batch, 0, 0, reals=[torch.zeros(batch, self.x, dtype=f) if x is None else x,
                                                torch.zeros(batch, self.d, dtype=f) if d is None else d])


def line(w, k, cols):
    return w[:, k] if cols else w[k]


def add_line(w, k, v, cols):
    w = w.clone()
    if cols:
        w[:, k] = w[:, k] + v
    else:
        w[k] = w[k] + v
    return w


def due(te, units, batch):
    return max(math.ceil(te * batch), 0) if units else max(int(math.floor(te + 0.5)), 0)


SCHED = [dict(n=n, te=te, units=u, batch=b, cols=c, reads=r) for n in (2, 3) for te in (0.0, 0.5, 1.0, 2.0, 3.0) for u in (True, False) for b in (1, 2)
         for c in (True, False) for r in (1, 2) if not (te == 0.5 and not u)]


@contract("C27", cases=SCHED, samples=4, timeout=60)
def schedule(H, n, te, units, batch, cols, reads):
    """over a run: which lines move, when, and by how much"""
    x, d = (2, 1) if cols else (1, 2)
    tlr = H.real("transfer_lr", gt=0.0, flo=0.1, fhi=1)
    c = Cell(H, n=n, x=x, d=d, transfer_every=te, units_in_mbatch=units, transfer_columns=cols, n_reads_per_transfer=reads,
             scale_transfer_lr=False, fields=dict(transfer_lr=tlr), **EXACT)
    size = 2
    periods = [te * (size / reads) ** k for k in range(n)]
    periods[-1] = 0.0
    pos = [0] * n
    want = list(c.w)
    idx = 0
    for step in range({1: 4, 2: 3}[batch]):
        c.update(0.125, batch)
        for _ in range(batch):
            idx += 1
            for j in range(n - 1):
                every = due(periods[j], units, batch)
                if every and idx % every == 0:
                    for _ in range(reads):
                        want[j + 1] = add_line(want[j + 1], pos[j], tlr * line(want[j], pos[j], cols), cols)
                        pos[j] = (pos[j] + 1) % size
        got = c.members()
        for k in range(n):
            H.eq("member %s" % ("receives the lines that are due" if k else "read out is not changed"), got[k], want[k])
        H.eq("visible weight is the last member", c.t.raw(), want[-1])


@contract("C27", cases=[dict(cols=c, reads=r, start=s, idx=i, every=e) for c in (True, False) for r in (1, 2, 3) for s in range(3) for i in (0, 5, 11, 2**20) for e in (1, 3, 4)])
def next_line(H, cols, reads, start, idx, every):
    """any counter and position: next lines in cyclic order, none else"""
    x, d = (3, 1) if cols else (1, 3)
    tlr, lr = H.real("transfer_lr", gt=0.0, flo=0.1, fhi=1), H.real("lr", gt=0.0, flo=0.1, fhi=1)
    c = Cell(H, x=x, d=d, transfer_every=float(every), units_in_mbatch=False, transfer_columns=cols, n_reads_per_transfer=reads, fields=dict(transfer_lr=tlr), **EXACT)
    f = H.float_dtype
    c.state(current_update_idx=torch.tensor([float(idx)], dtype=f), current_slice_indices=[start, 0])
    c.update(lr)
    got = c.members()
    want, pos = c.w[1], start
    if (idx + 1) % every == 0:
        for _ in range(reads):
            want = add_line(want, pos, tlr * lr * line(c.w[0], pos, cols), cols)
            pos = (pos + 1) % 3
    H.eq("the fast member is not changed by a read", got[0], c.w[0])
    H.eq("exactly the next lines are added when due", got[1], want)
    H.ensure("next position", c.get("current_slice_indices")[0] == pos)
    H.ensure("one more update counted", c.get("current_update_idx")[0] == idx + 1)


@contract("C27", cases=[dict(scale=s, vec=v, gam=g) for s in (0, 1) for v in (0, 1) for g in ("none", "gamma", "vec")])
def rates(H, scale, vec, gam):
    """transfer learning rate of every stage"""
    lr = H.real("lr", gt=0.0, flo=0.1, fhi=1)
    tlr = H.real("transfer_lr", gt=0.0, flo=0.1, fhi=1)
    kw, fields = {}, {}
    if vec:
        kw["transfer_lr_vec"] = [0.75, 0.25, 4.0]
        ls = [0.75, 0.25]
    else:
        fields = dict(transfer_lr=tlr)
        ls = [tlr, tlr]
    if gam == "gamma":
        kw["gamma"] = 0.5
    elif gam == "vec":
        kw["gamma_vec"] = [0.5, 2.0, -1.5]
    c = Cell(H, n=3, x=1, d=1, fields=fields, scale_transfer_lr=bool(scale), transfer_every_vec=[1.0, 1.0, 0.0], **EXACT, **kw)
    c.update(lr)
    got = c.members()
    a, b = (lr * ls[0], lr * ls[1]) if scale else ls
    w1 = c.w[1] + a * c.w[0]
    H.eq("first member is kept", got[0], c.w[0])
    H.eq("read value times the rate", got[1], w1)
    H.eq("next stage with its own rate", got[2], c.w[2] + b * w1)


@contract("C27", cases=[dict(size=s, cols=c) for s in (2, 3) for c in (True, False)])
def random_start(H, size, cols):
    x, d = (size, 1) if cols else (1, size)
    c = Cell(H, x=x, d=d, transfer_every=1.0, random_selection=True, transfer_columns=cols, scale_transfer_lr=False, **EXACT)
    m = cc.mark()
    c.update(0.125)
    u = cc.drawn(m)[0]
    H.assume(u < 1)
    got = c.members()
    for k in range(size):
        here = (u * size >= k) & (u * size < k + 1)
        for j in range(size):
            v, w, a = (q.reshape(-1)[j] for q in (got[1], c.w[1], c.w[0]))
            H.eq("the line drawn is added" if j == k else "other lines are kept", v, w + a if j == k else w, when=here)
    H.eq("the fast member is not changed", got[0], c.w[0])


@contract("C27", cases=[dict(p=p, reads=r, start=s) for p in ("never", "always", "draw") for r in (1, 2) for s in (0, 1, 2)])
def reset_after_read(H, p, reads, start):
    """columns are reset with the probability after they were read, and only those"""
    prob = {"never": 0.0, "always": 1.0}.get(p)
    fields = {}
    kw = dict(with_reset_prob=prob) if prob is not None else {}
    if prob is None:
        pr = H.real("prob", gt=0.0, flo=0.1, fhi=0.9)
        H.assume(pr < 1)
        kw, fields = dict(with_reset_prob=0.5), dict(with_reset_prob=pr)
    devs = [plain("Constant") for _ in range(2)]
    c = Cell(H, x=3, d=1, devs=devs, transfer_every=1.0, n_reads_per_transfer=reads, scale_transfer_lr=False, fields=fields, **EXACT, **kw)
    c.state(current_slice_indices=[start, 0])
    bias = c.t.hidden()["reset_bias_0"]
    m = cc.mark()
    c.update(0.125)
    dr = cc.drawn(m)
    got = c.members()
    cols = [(start + i) % 3 for i in range(reads)]
    want = c.w[1]
    for k in cols:
        want = add_line(want, k, c.w[0][:, k], True)
    H.eq("the values read are added", got[1], want)
    for k in range(3):
        v, w, r = got[0][0][k], c.w[0][0][k], bias[0][k]
        if k not in cols or p == "never":
            H.eq("not read: not reset", v, w)
        elif p == "always":
            H.eq("reset after the read", v, r)
        else:
            H.ensure("kept or reset", (v == w) | (v == r))
    if p == "draw" and reads == 1:
        u = dr[-1]
        k = cols[0]
        H.eq("reset when drawn", got[0][0][k], bias[0][k], when=u < pr)
        H.eq("kept when not drawn", got[0][0][k], c.w[0][0][k], when=u >= pr)


@contract("C27", cases=[dict(kind=k, cols=c) for k in ("transfer", "buffered", "chopped", "dynamic") for c in (True, False)])
def between_transfers(H, kind, cols):
    """updates in between change the fast member only"""
    C = dict(transfer=cp.TransferCompound, buffered=cp.BufferedTransferCompound, chopped=cp.ChoppedTransferCompound, dynamic=cp.DynamicTransferCompound)[kind]
    c = Cell(H, C, transfer_every=4.0, units_in_mbatch=False, transfer_columns=cols)
    f = H.float_dtype
    h0 = c.t.hidden()
    s0 = c.get("current_slice_indices")
    for k in range(3):
        c.update(0.125, x=torch.tensor([[1.0, -0.5]], dtype=f), d=torch.tensor([[1.0, -1.0]], dtype=f))
        h = c.t.hidden()
        for n in h0:
            if n != "hidden_weights_0":
                H.eq("only the fast member is updated between transfers", h[n], h0[n])
        H.eq("the visible weight is kept", c.t.raw(), c.w[1])
        H.ensure("the position is kept", c.get("current_slice_indices") == s0)
    H.ensure("updates counted", c.get("current_update_idx")[0] == 3)


@contract("C27", cases=[dict(fast=f, scale=s) for f in (0, 1) for s in (True, False)])
def fast_rate(H, fast, scale):
    """learning rate of the fast member"""
    lr = H.real("lr", gt=0.0, flo=0.05, fhi=0.5)
    H.assume(lr <= 0.5)
    H.assume(lr >= 0.0625)
    c = Cell(H, x=1, d=1, transfer_every=0.0, fast_lr=0.75 if fast else 0.0, scale_fast_lr=scale, update=up(bl=31))
    h = c.t.hidden()
    one = torch.ones(1, 1, dtype=H.float_dtype)
    h["hidden_weights_0"], h["max_bound_0"], h["min_bound_0"] = 0 * one, 10 * one, -10 * one
    c.t.set_hidden(h)
    c.update(lr, x=one, d=one)
    got = c.members()[0][0][0]
    rate = (0.75 * lr if scale else 0.75) if fast else lr
    H.within("change of the fast member", -rate - 0.51 * DW - 0.02 * rate, got, -rate + 0.51 * DW + 0.02 * rate)


@contract("C27", cases=[dict(forget=f, cols=c, n=n, start=s, sign=g) for f in (True, False) for c in (True, False) for n in (2, 3) for s in (0, 1) for g in (1, -1) if not (n == 3 and (s or not c))], timeout=60)
def buffered(H, forget, cols, n, start, sign):
    """digital buffer: collects the reads, whole steps are written, the rest stays"""
    x, d = (2, 1) if cols else (1, 2)
    lr, tlr = 0.5, H.real("transfer_lr", gt=0.0, flo=0.1, fhi=1)
    H.assume(tlr <= 2)
    mom, step, ts = H.real("momentum", gt=0.0, flo=0.05, fhi=0.9), H.real("step", gt=0.0, flo=0.5, fhi=2), 2.0
    H.assume(mom < 1)
    c = Cell(H, cp.BufferedTransferCompound, n=n, x=x, d=d, transfer_every=1.0, units_in_mbatch=False, transfer_columns=cols, thres_scale=ts,
             forget_buffer=forget, transfer_update=up(PulseType.NONE, bl=3), fields=dict(transfer_lr=tlr, momentum=mom, step=step))
    h = c.t.hidden()
    B = [H.tensor("buffer%d" % k, d, x, flo=-0.3, fhi=0.3) for k in range(n - 1)]
    for k in range(n - 1):
        H.assume(B[k].abs() <= 0.75)
        H.assume(B[k] * sign >= 0)
        h["buffered_FP_weight_%d" % k] = B[k]
    H.assume(c.w[0] * sign >= 0)
    c.t.set_hidden(h)
    c.state(current_slice_indices=[start] + [0] * (n - 1))
    c.update(lr)
    h = c.t.hidden()
    g = DW * ts
    at = (slice(None), start) if cols else (start, slice(None))
    om = (B[0][at] + lr * tlr * c.w[0][at])[0]
    old, new = h["hidden_weights_1"], c.w[1][at][0]
    q = torch.trunc(om / g)
    steps = torch.minimum(torch.maximum(q, 0 * q - 3), 0 * q + 3)
    H.eq("whole steps are written", h["hidden_weights_1"][at][0], new + steps * step * DW)
    rest = mom * om if forget else om - (1 - mom) * steps * g
    if H.sym:
        H.eq("the rest stays in the buffer", h["buffered_FP_weight_0"][at][0], rest, when=steps.abs() >= 1)
        H.eq("below the threshold everything stays", h["buffered_FP_weight_0"][at][0], om, when=steps == 0)
    else:
        H.eq("the rest stays in the buffer", h["buffered_FP_weight_0"][at][0], rest if steps != 0 else om)
    ot = (slice(None), 1 - start) if cols else (1 - start, slice(None))
    H.eq("other lines of the buffer are kept", h["buffered_FP_weight_0"][ot], B[0][ot])
    H.eq("other lines of the next member are kept", h["hidden_weights_1"][ot], c.w[1][ot])
    H.eq("the fast member is kept", h["hidden_weights_0"], c.w[0])
    if n == 3:
        H.eq("next stage is not due", h["hidden_weights_2"], c.w[2])
        H.eq("next stage is not due", h["buffered_FP_weight_1"], B[1])


CHOP = [dict(forget=f, cols=c, start=s, ic=i, oc=o, mag=m, sign=g) for f in (True, False) for c in (True, False) for s in (0, 1) for i in (0, 1) for o in (0, 1)
        for m in (0, 1) for g in (1, -1) if not (m and (i != o or s))]


@contract("C27", cases=CHOP, timeout=60)
def chopped(H, forget, cols, start, ic, oc, mag, sign):
    """dimensionless buffer of the chopped transfer, sign of the choppers removed"""
    x, d = (2, 1) if cols else (1, 2)
    lr, tlr = 0.5, H.real("transfer_lr", gt=0.0, flo=0.1, fhi=0.4)
    H.assume(tlr <= 0.5)
    mom, step = H.real("momentum", gt=0.0, flo=0.05, fhi=0.9), H.real("step", gt=0.0, flo=0.5, fhi=2)
    H.assume(mom < 1)
    devs = [plain("Constant", dw_min=0.125), plain("Constant")]
    c = Cell(H, cp.ChoppedTransferCompound, x=x, d=d, devs=devs, transfer_every=1.0, transfer_columns=cols, forget_buffer=forget, buffer_granularity=2.0,
             in_chop_prob=0.0, fast_lr=0.25, correct_gradient_magnitudes=bool(mag), transfer_update=up(PulseType.NONE, bl=2),
             fields=dict(transfer_lr=tlr, momentum=mom, step=step))
    h = c.t.hidden()
    B = H.tensor("buffer", d, x, flo=-1, fhi=1)
    H.assume(B.abs() <= 1)
    neg = -1 if ic != oc else 1
    H.assume(B * sign >= 0)
    H.assume(c.w[0] * sign * neg >= 0)
    h["buffered_FP_weight_0"] = B
    c.t.set_hidden(h)
    inn = [0, 0]
    inn[start] = ic
    c.state(current_slice_indices=[start, 0], in_chopper=inn, out_chopper=[oc])
    c.update(lr)
    h = c.t.hidden()
    at = (slice(None), start) if cols else (start, slice(None))
    ot = (slice(None), 1 - start) if cols else (1 - start, slice(None))
    gran = 2.0 * 0.125
    rate = lr * tlr / gran
    if mag:
        rate = lr * tlr / (gran * DW / 0.125) / 0.25
    om = (B[at] + neg * rate * c.w[0][at])[0]
    q = torch.trunc(om)
    steps = torch.minimum(torch.maximum(q, 0 * q - 2), 0 * q + 2)
    H.eq("whole steps are written", h["hidden_weights_1"][at][0], c.w[1][at][0] + steps * step * DW)
    rest = mom * om if forget else om - (1 - mom) * steps
    got = h["buffered_FP_weight_0"][at][0]
    if H.sym:
        H.eq("the rest stays in the buffer", got, rest, when=steps.abs() >= 1)
        H.eq("below the threshold everything stays", got, om, when=steps == 0)
    else:
        H.eq("the rest stays in the buffer", got, rest if steps != 0 else om)
    H.eq("other lines of the buffer are kept", h["buffered_FP_weight_0"][ot], B[ot])
    H.eq("other lines of the slow member are kept", h["hidden_weights_1"][ot], c.w[1][ot])
    H.eq("the fast member is kept", h["hidden_weights_0"], c.w[0])


@contract("C27", cases=[dict(prob=p, cols=c) for p in (0.5, 0.25, 0.1, 1.0) for c in (True, False)])
def regular_chopping(H, prob, cols):
    """regular choppers: each line switches after a fixed number of its reads"""
    x, d = (2, 1) if cols else (1, 2)
    c = Cell(H, cp.ChoppedTransferCompound, x=x, d=d, transfer_every=1.0, transfer_columns=cols, in_chop_prob=prob, in_chop_random=False)
    n = max(math.ceil(1 / prob), 2)
    for start in (0, n - 2, n - 1, 5 * n - 1):
        c.state(transfer_counter=torch.tensor([float(start)], dtype=H.float_dtype), in_chopper=[0, 1], current_slice_indices=[0, 0])
        c.update(0.125)
        sw = start % n == n - 1
        a, b = c.get("in_chopper")
        H.ensure("the line read switches when its period is over", a == int(sw))
        H.ensure("other lines keep their sign", b == 1)
        H.ensure("counted once per matrix", c.get("transfer_counter")[0] == start)
        c.update(0.125)
        a, b = c.get("in_chopper")
        H.ensure("second line of the same cycle switches alike", a == int(sw) and b == int(not sw))
        H.ensure("counted after the whole matrix", c.get("transfer_counter")[0] == start + 1)


@contract("C27", cases=[dict(cols=c, line=k) for c in (True, False) for k in (0, 1)])
def random_chopping(H, cols, line):
    """random choppers switch with their probability: inputs after their read, outputs after the matrix"""
    x, d = (2, 1) if cols else (1, 2)
    p, q = H.real("p", gt=0.0, flo=0.1, fhi=0.9), H.real("q", gt=0.0, flo=0.1, fhi=0.9)
    c = Cell(H, cp.ChoppedTransferCompound, x=x, d=d, transfer_every=1.0, transfer_columns=cols, in_chop_prob=0.5, out_chop_prob=0.5,
             fields=dict(in_chop_prob=p, out_chop_prob=q))
    c.state(in_chopper=[0, 0], out_chopper=[0], current_slice_indices=[line, 0])
    m = cc.mark()
    c.update(0.125)
    u = cc.drawn(m)
    inn, out = c.get("in_chopper"), c.get("out_chopper")
    us = list(u)[-2:] if line == 1 else list(u)[-1:]
    H.ensure("the line read switches exactly when drawn", (us[0] < p) if inn[line] else (us[0] >= p))
    H.ensure("other lines keep their sign", inn[1 - line] == 0)
    if line == 1:
        H.ensure("outputs switch exactly when drawn", (us[1] < q) if out[0] else (us[1] >= q))
    else:
        H.ensure("outputs only switch after the whole matrix", out[0] == 0)


@contract("C27", cases=[dict(kind=k, sign=s) for k in ("sparse", "dense") for s in (0, 1)])
def chopped_pulses(H, kind, sign):
    """gradient pulses reach the fast member with the sign of its line"""
    for cols in (True, False):
        for i in (0, 1):
            for o in (0, 1):
                c = cc.analog_tile(SingleRPUConfig(device=trans(cp.ChoppedTransferCompound, [plain("Constant"), plain("Constant")], transfer_columns=cols), update=up()), 1, 1)
                s = c.dump()
                s[key(s, "in_chopper")], s[key(s, "out_chopper")] = (torch.tensor([float(v)], dtype=H.float_dtype) for v in (i, o))
                c.load(s)
                w = H.tensor("w%d%d%d" % (cols, i, o), 1, 1, flo=-0.3, fhi=0.3)
                H.assume(w.abs() <= 0.3)
                h = c.hidden()
                h["hidden_weights_0"] = w
                c.set_hidden(h)
                pol = -1 if sign else 1
                if kind == "sparse":
                    c("sparse", 0, pol, 1, 1)
                else:
                    c("dense", pol)
                chop = -1 if i != o else 1
                H.eq("signed pulse", c.hidden()["hidden_weights_0"], w - pol * chop * DW)


@contract("C27", cases=[dict(early=e, switched=s, sign=g, forget=f) for e in (0, 1) for s in (0, 1) for g in (1, -1) for f in (True, False)], timeout=60)
def dynamic(H, early, switched, sign, forget):
    """difference to the mean of the last chopper period is collected; nothing is written before the first full periods"""
    lr, tlr = 0.5, H.real("transfer_lr", gt=0.0, flo=0.1, fhi=0.4)
    H.assume(tlr <= 0.5)
    c = Cell(H, cp.DynamicTransferCompound, x=2, d=1, transfer_every=1.0, in_chop_prob=0.25, tail_weightening=1.0, forget_buffer=forget, momentum=0.25,
             buffer_granularity=4.0, transfer_update=up(PulseType.NONE, bl=2), fields=dict(transfer_lr=tlr))
    h = c.t.hidden()
    buf, run, past = (H.tensor(n, 1, 2, flo=-0.2, fhi=0.2) for n in ("buffer", "running", "past"))
    for v in (buf, run, past):
        H.assume(v.abs() <= 0.5)
    ref = run if switched else past
    H.assume(buf * sign >= 0)
    H.assume((c.w[0] - ref) * sign >= 0)
    h["buffered_FP_weight"], h["running_mean_weight"], h["past_mean_weight"] = buf, run, past
    c.t.set_hidden(h)
    cnt = 4 if early else 8
    c.state(transfer_counter=torch.tensor([float(cnt)], dtype=H.float_dtype), in_chopper_switched=[switched, 0], current_slice_indices=[0, 0])
    c.update(lr)
    h = c.t.hidden()
    om = buf[0][0] + lr * tlr / (4.0 * DW) * (c.w[0][0][0] - ref[0][0])
    q = torch.trunc(om)
    steps = torch.minimum(torch.maximum(q, 0 * q - 2), 0 * q + 2)
    if early:
        H.eq("nothing written yet", h["hidden_weights_1"], c.w[1])
    else:
        H.eq("whole steps are written", h["hidden_weights_1"][0][0], c.w[1][0][0] + steps * DW)
        H.eq("other lines are kept", h["hidden_weights_1"][0][1], c.w[1][0][1])
    rest = 0.25 * om if forget else om - 0.75 * steps
    got = h["buffered_FP_weight"][0][0]
    if H.sym:
        H.eq("the rest stays in the buffer", got, rest, when=steps.abs() >= 1)
        H.eq("below the threshold everything stays", got, om, when=steps == 0)
    else:
        H.eq("the rest stays in the buffer", got, rest if steps != 0 else om)
    H.eq("running mean of the reads", h["running_mean_weight"][0][0], 0.75 * run[0][0] + 0.25 * c.w[0][0][0])
    H.eq("mean of the last period", h["past_mean_weight"][0][0], ref[0][0])
    for n, v in (("buffered_FP_weight", buf), ("running_mean_weight", run), ("past_mean_weight", past)):
        H.eq("other lines are kept", h[n][0][1], v[0][1])
    H.eq("the fast member is kept", h["hidden_weights_0"], c.w[0])


@contract("C27", cases=[dict(kind=k, how=h) for k in ("transfer", "buffered", "chopped", "dynamic") for h in range(4)])
def copies(H, kind, how):
    """a copy continues the schedule where the original stands"""
    C = dict(transfer=cp.TransferCompound, buffered=cp.BufferedTransferCompound, chopped=cp.ChoppedTransferCompound, dynamic=cp.DynamicTransferCompound)[kind]
    c = Cell(H, C, transfer_every=2.0, units_in_mbatch=False)
    c.state(current_update_idx=torch.tensor([5.0], dtype=H.float_dtype), current_slice_indices=[1, 0])
    a = c.t.dump()
    u = c.t.copy(how)
    b = u.dump()
    for k in a:
        if "tmp" not in k:
            H.eq("copied " + k.split(".")[-1], b[k], a[k])


# ---------------------------------------------------------------- python transfer tile

from aihwkit.simulator.configs import UnitCellRPUConfig
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.simulator.tiles.transfer import TransferSimulatorTile


def py_tile(C=cp.ChoppedTransferCompound, x=2, d=1, **kw):
    tu = up(bl=kw.pop("bl", 2))
    dev = C(unit_cell_devices=[plain("Constant", dw_min=0.125), plain("Constant")], transfer_forward=neutral(), transfer_update=tu, **kw)
    c = UnitCellRPUConfig(device=dev, update=up(bl=4))
    c.runtime.data_type = RPUDataType.DOUBLE
    for t in ("forward", "backward"):
        getattr(c, t).is_perfect = True
    return TransferSimulatorTile(x, d, c, RPUDataType.DOUBLE)


class Py:
    def __init__(self, H, sign, **kw):
        self.H = H
        with H.setup():
            self.t = py_tile(**kw)
        t = self.t
        self.cols = kw.get("transfer_columns", True)
        x, d = kw.get("x", 2), kw.get("d", 1)
        self.x, self.d = x, d
        self.A, self.C = H.tensor("fast", d, x, flo=-0.5, fhi=0.5), H.tensor("slow", d, x, flo=-0.5, fhi=0.5)
        n_in, n_out = (x, d) if self.cols else (d, x)
        self.B = H.tensor("buffer", n_in, n_out, flo=-1, fhi=1)
        for v in (self.A, self.C, self.B):
            H.assume(v.abs() <= 1)
        with H.setup():
            for tile in (t.grad_tile.tile, t.weight_tile.tile):
                tile._shared, tile._w = False, tile._w.double()
        t.grad_tile.tile.set_weights(self.A)
        t.weight_tile.tile.set_weights(self.C)
        t.hidden_weight = H.clone(self.B)
        if hasattr(t, "past_mean_weight"):
            self.P, self.R = H.tensor("past", n_in, n_out, flo=-1, fhi=1), H.tensor("ref", n_in, n_out, flo=-1, fhi=1)
            t.past_mean_weight, t.reference_weight = H.clone(self.P), H.clone(self.R)

    def fast(self):
        return self.t.grad_tile.tile.get_weights()

    def slow(self):
        return self.t.weight_tile.tile.get_weights()


@contract("C27", cases=[dict(forget=f, cols=c, at=a, ic=i, mag=m, sign=g) for f in (True, False) for c in (True, False) for a in (0, 1) for i in (1, -1) for m in (0, 1)
                        for g in (1, -1) if not (m and (a or i < 0))], timeout=60)
def python_tile_transfer(H, forget, cols, at, ic, mag, sign):
    """the transfer of the python tile: next line, buffer, whole steps"""
    x, d = (2, 1) if cols else (1, 2)
    lr, tlr = 0.5, 0.75
    t = Py(H, sign, x=x, d=d, transfer_every=1.0, transfer_columns=cols, forget_buffer=forget, buffer_granularity=2.0, in_chop_prob=0.0, momentum=0.25,
           step=2.0, transfer_lr=tlr, fast_lr=0.5, correct_gradient_magnitudes=bool(mag))
    k = (at + 1) % 2
    t.t.transfer_idx = at
    t.t.chopper[k] = float(ic)
    t.t.set_learning_rate(lr)
    X, D = H.tensor("x", 1, x, flo=-1, fhi=1), H.tensor("d", 1, d, flo=-1, fhi=1)
    H.assume(X.abs() <= 1)
    H.assume(D.abs() <= 1)
    x0, d0 = H.clone(X), H.clone(D)
    ch = torch.tensor([float(ic) if j == k else 1.0 for j in range(2)], dtype=torch.float64)
    A = t.A - 0.5 * (D.t() * (X * ch) if cols else (D * ch).t() * X)
    rate = lr * tlr / (2.0 * (0.0625 if mag else 0.125)) / (0.5 if mag else 1.0)
    om = t.B[k] + ic * rate * line(A, k, cols)
    H.assume(om * sign >= 0)
    t.t.update(X, D)
    H.eq("the inputs belong to the caller", X, x0)
    H.eq("the errors belong to the caller", D, d0)
    H.eq("the gradient reaches the fast member with the sign of its line", t.fast(), A)
    q = torch.trunc(om)
    steps = torch.minimum(torch.maximum(q, 0 * q - 2), 0 * q + 2)
    H.eq("whole steps are written", line(t.slow(), k, cols), line(t.C, k, cols) + steps * 2.0 * 0.0625)
    H.eq("other lines are kept", line(t.slow(), 1 - k, cols), line(t.C, 1 - k, cols))
    rest = 0.25 * om if forget else om - 0.75 * steps
    got = t.t.hidden_weight
    H.eq("other lines of the buffer are kept", got[1 - k], t.B[1 - k])
    for j in range(1):
        if H.sym:
            H.eq("the rest stays in the buffer", got[k][j], rest[j], when=steps[j].abs() >= 1)
            H.eq("below the threshold everything stays", got[k][j], om[j], when=steps[j] == 0)
        else:
            H.eq("the rest stays in the buffer", got[k][j], rest[j] if steps[j] != 0 else om[j])
    H.ensure("position of the line", t.t.transfer_idx == k)


@contract("C27", cases=[dict(te=e, units=u, batch=b, start=s) for e in (0.0, 1.0, 2.0, 3.0, 2.5) for u in (True, False) for b in (1, 2) for s in (0, 1, 5, 6)
                        if not (b == 2 and not u and e == 1.0)])
def python_tile_schedule(H, te, units, batch, start):
    """a transfer happens exactly when the updates have elapsed"""
    t = Py(H, 1, transfer_every=te, units_in_mbatch=units, in_chop_prob=0.0)
    t.t.update_counter = start * batch
    idx = 0
    n = start * batch
    every = math.ceil(te * batch) if units else math.ceil(te)
    big = 8 * torch.ones(2, 1, dtype=torch.float64)      # the buffer overflows: every transfer is visible
    for step in range(4):
        t.t.hidden_weight = H.clone(big)
        t.t.weight_tile.tile.set_weights(0 * t.C)
        t.t.grad_tile.tile.set_weights(0 * t.A)
        t.t.update(torch.zeros(batch, 2, dtype=torch.float64), torch.zeros(batch, 1, dtype=torch.float64))
        due = every > 0 and any((n + i) % every == 0 for i in range(1, batch + 1))
        n += batch
        idx = (idx + 1) % 2 if due else idx
        w = t.slow()[0]
        for k in range(2):
            if due and k == idx:
                H.ensure("the next line is written when due", w[k] != 0)
            else:
                H.eq("nothing else is written", w[k], 0 * w[k])
        H.ensure("updates counted", t.t.update_counter == n)


@contract("C27", cases=[dict(fast=f, sf=s, st=u, auto=a) for f in (0.0, 0.5) for s in (True, False) for u in (True, False) for a in (True, False)])
def python_tile_rates(H, fast, sf, st, auto):
    lr = H.real("lr", gt=0.0, flo=0.1, fhi=1)
    H.assume(lr <= 1)
    t = Py(H, 1, x=1, d=1, transfer_every=1.0, in_chop_prob=0.0, fast_lr=fast, scale_fast_lr=sf, scale_transfer_lr=st, transfer_lr=0.75, auto_scale=auto, auto_momentum=0.5,
           buffer_granularity=1024.0, bl=31)
    t.t.set_learning_rate(lr)
    one = torch.ones(1, 1, dtype=torch.float64)
    t.t.hidden_weight = 0 * one
    t.t.update(one, one)
    rate = (fast * (lr if sf else 1.0)) if fast else lr
    if auto:
        rate = rate * 4 * 0.125 / (0.5 * 0.5)
    H.eq("rate of the fast member", t.fast(), t.A - rate)
    H.eq("rate of the transfer", t.t.hidden_weight, (lr if st else 1.0) * 0.75 / (1024.0 * 0.125) * (t.A - rate))


@contract("C27", cases=[dict(dyn=d, prob=p) for d in (0, 1) for p in (0.5, 0.25)])
def python_tile_chopper(H, dyn, prob):
    """regular choppers: all lines switch in the same matrix cycle, after their read"""
    t = Py(H, 1, C=cp.DynamicTransferCompound if dyn else cp.ChoppedTransferCompound, transfer_every=1.0, in_chop_prob=prob, in_chop_random=False, buffer_granularity=1024.0)
    period = int(round(1 / prob))
    z1, z2 = torch.zeros(1, 2, dtype=torch.float64), torch.zeros(1, 1, dtype=torch.float64)
    t.t.transfer_idx = 1
    t.t.chop_counter = period - 2
    for cyc in range(3):
        before = H.clone(t.t.chopper)
        t.t.update(z1, z2)
        a = H.clone(t.t.chopper)
        t.t.update(z1, z2)
        b = t.t.chopper
        sw = (period - 2 + cyc + 1) % period == 0
        f = -1.0 if sw else 1.0
        H.eq("line switches in its cycle only", a[0], f * before[0])
        H.eq("others not before their read", a[1], before[1])
        H.eq("all lines of the matrix alike", b, f * before)


@contract("C27", cases=[dict(cols=c, at=a, switch=s, tail=w) for c in (True, False) for a in (0, 1) for s in (0, 1) for w in (1.0, 4.0)], timeout=60)
def python_tile_dynamic(H, cols, at, switch, tail):
    """the reads are taken relative to the mean of the last chopper period"""
    x, d = (2, 1) if cols else (1, 2)
    t = Py(H, 1, C=cp.DynamicTransferCompound, x=x, d=d, transfer_every=1.0, transfer_columns=cols, buffer_granularity=1024.0, in_chop_prob=0.5, in_chop_random=False,
           tail_weightening=tail, transfer_lr=1.0, scale_transfer_lr=False, fast_lr=0.5)
    k = (at + 1) % 2
    t.t.transfer_idx = at
    t.t.chop_counter = switch if k == 0 else 1 - switch
    z = torch.zeros(1, 1, dtype=torch.float64)
    A, P, R, B = line(t.A, k, cols), t.P, t.R, t.B
    H.assume(B.abs() <= 0.5)
    H.assume(R.abs() <= 1)
    t.t.update(torch.zeros(1, x, dtype=torch.float64), torch.zeros(1, d, dtype=torch.float64))
    beta = min(tail / 2, 1.0)
    past = (1 - beta) * P[k] + beta * A
    H.eq("buffer collects the difference", t.t.hidden_weight[k], B[k] + (A - R[k]) / (1024.0 * 0.125))
    H.eq("running mean of the reads" if not switch else "the mean becomes the reference",
         t.t.reference_weight[k] if switch else t.t.past_mean_weight[k], past)
    if switch:
        H.eq("the chopper switches", t.t.chopper[k], -torch.ones((), dtype=torch.float64))
    else:
        H.eq("the reference is kept", t.t.reference_weight[k], R[k])
    H.eq("other means are kept", t.t.past_mean_weight[1 - k], P[1 - k])
    H.eq("other references are kept", t.t.reference_weight[1 - k], R[1 - k])
    H.eq("other buffers are kept", t.t.hidden_weight[1 - k], B[1 - k])
    H.eq("fast member kept", t.fast(), t.A)
    H.eq("slow member kept", t.slow(), t.C)


AUTO = [dict(auto=a, sf=s, bl=b, part=p) for a in (True, False) for s in (True, False) for b in (1, 4) for p in ("first", "later", "zero")]


@contract("C27", cases=AUTO, timeout=60)
def strength_of_fast_updates(H, auto, sf, bl, part):
    """learning rate of the fast member: relative to the running means of the largest input and error if auto_scale is set"""
    lr, fast = H.real("lr", gt=0.0, flo=0.1, fhi=1), H.real("fast_lr", gt=0.0, flo=0.1, fhi=1)
    mom = H.real("auto_momentum", flo=0.1, fhi=0.9)
    H.assume(mom >= 0)
    H.assume(mom <= 1)
    c = Cell(H, cp.ChoppedTransferCompound, x=2, d=1, devs=[plain("Constant", dw_min=0.125), plain("Constant")], transfer_every=0.0, auto_scale=auto,
             scale_fast_lr=sf, update=up(bl=bl), fields=dict(fast_lr=fast, auto_momentum=mom))
    f = H.float_dtype
    mx, md = H.real("mx", gt=0.0, flo=0.1, fhi=2), H.real("md", gt=0.0, flo=0.1, fhi=2)
    if part != "first":
        c.state(m_x=torch.stack([mx + torch.zeros((), dtype=f)]), m_d=torch.stack([md + torch.zeros((), dtype=f)]))
    x, d = H.tensor("x", 1, 2, flo=-1, fhi=1), H.tensor("d", 1, 1, flo=-1, fhi=1)
    H.assume(x[0][0].abs() > x[0][1].abs())
    H.assume(d[0][0].abs() > 0)
    if part == "zero":
        x = 0 * x
    c.update(lr, x=x, d=d)
    s = c.t.dump()
    ax, ad = x[0][0].abs(), d[0][0].abs()
    if part == "first":
        nx, nd = ax, ad
    else:
        nx = mx if part == "zero" else mom * mx + (1 - mom) * ax
        nd = mom * md + (1 - mom) * ad
    if auto:
        H.eq("running mean of the largest input", s[key(s, "m_x")].reshape(()), nx, shape=False)
        H.eq("running mean of the largest error", s[key(s, "m_d")].reshape(()), nd, shape=False)
    want = fast * (lr if sf else 1.0)
    got = s[key(s, "tmp_count_lr")].reshape(())
    if not auto:
        H.eq("learning rate", got, want, shape=False)
        return
    want = want * bl * 0.125
    H.eq("learning rate", got * nx * nd, want, shape=False)


@contract("C27", cases=[dict(dyn=y, cols=c, auto=a, nobuf=n, mag=m, sign=g, x=x, d=d) for y in (0, 1) for c in (True, False) for a in (0, 1) for n in (0, 1) for m in (0, 1)
                        for g in (1, -1) for x, d in ((2, 1), (1, 2), (1, 1)) if not ((n and (m or y)) or (m and a) or (x, d) == ((1, 2) if c else (2, 1)))], timeout=60)
def buffer_options(H, dyn, cols, auto, nobuf, mag, sign, x, d):
    """scale of the buffer with auto_granularity, without a buffer, of tiles of different size"""
    lr, tlr = 0.5, H.real("transfer_lr", gt=0.0, flo=0.1, fhi=0.4)
    H.assume(tlr <= 0.5)
    fast = H.real("fast_lr", gt=0.0, flo=0.5, fhi=1)
    H.assume(fast >= 0.25)
    H.assume(fast <= 1)
    devs = [plain("Constant", dw_min=0.125), plain("Constant")]
    kw = dict(in_chop_prob=0.5, tail_weightening=1.0) if dyn else dict(in_chop_prob=0.0, no_buffer=bool(nobuf))
    c = Cell(H, cp.DynamicTransferCompound if dyn else cp.ChoppedTransferCompound, x=x, d=d, devs=devs, transfer_every=2.0, units_in_mbatch=False, transfer_columns=cols,
             forget_buffer=False, buffer_granularity=2.0, auto_granularity=8.0 * auto, correct_gradient_magnitudes=bool(mag), transfer_update=up(PulseType.NONE, bl=3),
             fields=dict(transfer_lr=tlr, fast_lr=fast), **kw)
    h = c.t.hidden()
    buf = H.tensor("buffer", d, x, flo=-0.8, fhi=0.8)
    H.assume(buf.abs() <= 1)
    H.assume(buf * sign >= 0)
    H.assume(c.w[0] * sign >= 0)
    h["buffered_FP_weight" if dyn else "buffered_FP_weight_0"] = buf
    c.t.set_hidden(h)
    if dyn:
        c.state(transfer_counter=torch.tensor([10.0], dtype=H.float_dtype))
    m = c.t.dump()
    c.update(lr)
    H.eq("nothing before it is due", c.members()[1], c.w[1])
    H.eq("nothing before it is due", c.members()[0], c.w[0])
    c.update(lr)
    h = c.t.hidden()
    gran = 2.0 * 0.125 * (8.0 / (2.0 * (x if cols else d)) if auto else 1.0)
    rate = lr * tlr / gran
    if mag:
        rate = rate / fast / (DW / 0.125)
    at = (slice(None), 0) if cols else (0, slice(None))
    om = ((0 if nobuf else 1) * buf[at] + rate * c.w[0][at])[0]
    q = torch.trunc(om)
    steps = torch.minimum(torch.maximum(q, 0 * q - 3), 0 * q + 3)
    H.eq("whole steps are written", h["hidden_weights_1"][at][0], c.w[1][at][0] + steps * DW)
    if not nobuf:
        H.eq("the rest stays in the buffer", h["buffered_FP_weight" if dyn else "buffered_FP_weight_0"][at][0], om - steps)
    H.eq("the fast member is kept", h["hidden_weights_0"], c.w[0])


@contract("C27", cases=[dict(cap=p, forget=f, acc=a, cnt=n, cols=c, sign=s) for p in (0, 1) for f in (True, False) for a in (0, 1) for n in (0, 1, 3) for c in (True, False)
                        for s in (1, -1) if not (p and a)], timeout=60)
def dynamic_options(H, cap, forget, acc, cnt, cols, sign):
    """capacity of the buffer, accumulation corrected for the number of reads, in both transfer directions"""
    x, d = (2, 1) if cols else (1, 2)
    lr, tlr = 0.5, H.real("transfer_lr", gt=0.0, flo=0.1, fhi=0.4)
    H.assume(tlr <= 0.5)
    bc = H.real("buffer_cap", gt=0.0, flo=0.1, fhi=0.5)
    mom = H.real("momentum", gt=0.0, flo=0.1, fhi=0.9)
    H.assume(mom < 1)
    c = Cell(H, cp.DynamicTransferCompound, x=x, d=d, transfer_every=1.0, in_chop_prob=0.25, tail_weightening=2.0, forget_buffer=forget, transfer_columns=cols,
             experimental_correct_accumulation=bool(acc), buffer_granularity=0.5, transfer_update=up(PulseType.NONE, bl=2),
             fields=dict(transfer_lr=tlr, momentum=mom, **(dict(buffer_cap=bc) if cap else {})))
    h = c.t.hidden()
    buf, run, past = (H.tensor(n, d, x, flo=-0.5, fhi=0.5) for n in ("buffer", "running", "past"))
    for v in (buf, run, past):
        H.assume(v.abs() <= 0.75)
    H.assume(buf * sign >= 0)
    H.assume((c.w[0] - past) * sign >= 0)
    h["buffered_FP_weight"], h["running_mean_weight"], h["past_mean_weight"] = buf, run, past
    c.t.set_hidden(h)
    c.state(transfer_counter=torch.tensor([8.0 + cnt], dtype=H.float_dtype), in_chopper_switched=[0, 0], current_slice_indices=[1, 0])
    c.update(lr)
    h = c.t.hidden()
    at, ot = ((slice(None), 1), (slice(None), 0)) if cols else ((1, slice(None)), (0, slice(None)))
    om = (buf[at] + lr * tlr / (0.5 * DW) / (cnt + 1 if acc else 1) * (c.w[0][at] - past[at]))[0]
    q = torch.trunc(om)
    steps = torch.minimum(torch.maximum(q, 0 * q - 2), 0 * q + 2)
    H.eq("whole steps are written", h["hidden_weights_1"][at][0], c.w[1][at][0] + steps * DW)
    rest = mom * om if forget else om - (1 - mom) * steps
    if cap and not forget:
        rest = torch.minimum(torch.maximum(rest, -2 * bc + 0 * rest), 2 * bc + 0 * rest)
    got = h["buffered_FP_weight"][at][0]
    if H.sym:
        H.eq("the rest stays in the buffer", got, rest, when=steps.abs() >= 1)
        H.eq("below the threshold everything stays", got, om, when=steps == 0)
    else:
        H.eq("the rest stays in the buffer", got, rest if steps != 0 else om)
    H.eq("running mean of the reads", h["running_mean_weight"][at][0], (0.5 * run[at] + 0.5 * c.w[0][at])[0])
    H.eq("mean of the last period", h["past_mean_weight"][at], past[at])
    for n, v in (("buffered_FP_weight", buf), ("running_mean_weight", run), ("past_mean_weight", past), ("hidden_weights_1", c.w[1])):
        H.eq("other lines are kept", h[n][ot], v[ot])
    H.eq("the fast member is kept", h["hidden_weights_0"], c.w[0])
    ch, sw = c.get("in_chopper"), c.get("in_chopper_switched")
    H.ensure("the line switches at the end of the period", (ch[1], sw[1]) == ((1, 1) if cnt == 3 else (0, 0)) and (ch[0], sw[0]) == (0, 0))
