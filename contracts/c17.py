"""C17 pulse trains encode the rank-one update."""
import math
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.parameters.training import UpdateParameters
from aihwkit.simulator.parameters.enums import PulseType
from .devices import plain
from .c06 import neutral

TYPES = {"Stochastic": PulseType.STOCHASTIC, "StochasticCompressed": PulseType.STOCHASTIC_COMPRESSED, "MeanCount": PulseType.MEAN_COUNT,
         "DeterministicImplicit": PulseType.DETERMINISTIC_IMPLICIT}


def up(typ="StochasticCompressed", bl=2, fixed=1, um=0, ubl=0, sto=0):
    return [cc.enum("PulseType")[typ], bl, fixed, um, ubl, sto]


def upr(scale=1.0, res=0.0, xres=0.0, dres=0.0):
    return [scale, res, xres, dres]


def manage(u, ur, managed, x, d, lr, g):
    o, (bl,) = cc.run("manage", [int(managed)] + u, ur + [x, d, lr, g])
    return o[0], o[1], bl


MAN = [dict(bl=b, fixed=f, um=m, ubl=u, scaled=s) for b in (1, 2, 5) for f in (0, 1) for m in (0, 1) for u in (0, 1) for s in (0, 1)
       if not (s and not (m or u))]


@contract("C17", cases=MAN, timeout=120)
def management(H, bl, fixed, um, ubl, scaled):
    """length and probabilities multiply to the learning rate over the granularity"""
    x, d = H.real("x", gt=0, flo=0.05, fhi=2), H.real("d", gt=0, flo=0.05, fhi=2)
    lr, g = H.real("lr", gt=0, flo=0.01, fhi=0.5), H.real("g", gt=0, flo=0.1, fhi=0.3)
    s = H.real("s", gt=0, flo=0.3, fhi=2) if scaled else 1.0
    um_on = um or ubl            # length management includes the scaling
    k = lr * x * d * s / g
    H.assume(k <= 6)
    H.assume(lr <= 6 * g)
    a, b, n = manage(up(bl=bl, fixed=fixed, um=um, ubl=ubl), upr(s), um_on, x, d, lr, g)
    H.ensure("at least one pulse for a desired change", n >= 1)
    one = not fixed and not ubl
    if one and not um_on:
        long = bool(lr > g * bl)
        if long:
            H.eq("saturated probabilities when the change needs a longer train", torch.stack([a, b]), torch.stack([a, b]) * 0 + 1)
            H.within("length covers the change", lr / g, n + 0 * lr, lr / g + 1)
            return
    elif one:
        if bool(lr > g * bl):
            H.within("length covers the change", lr / g, n + 0 * lr, lr / g + 1)
            H.eq("scaling keeps the product of the probabilities", a * b, 0 * a + 1)
            return
    H.ensure("never longer than the configured length", n <= bl)
    H.eq("length times probabilities is learning rate over granularity", a * b * n, lr / g)
    if ubl:
        H.ensure("shortest sufficient length", bool((n == bl) | (k <= n)) if not H.sym else (0 * k + n >= k) | (n == bl))
        H.ensure("not longer than needed", (0 * k + n < k + 1))
    if um_on and not one:
        H.eq("rows and columns saturate together", b * x, a * d * s, when=(k <= bl))
        H.le("no saturation while the change fits the train", b * x, 1 + 0 * k, when=(k <= n))
        if not scaled:
            H.le("no saturation while the change fits the train", a * d, 1 + 0 * k, when=(k <= n))


@contract("C17", cases=[dict(zero=z, managed=m, ubl=u) for z in ("x", "d", "lr") for m in (0, 1) for u in (0, 1) if m or z == "lr"])
def nothing_to_do(H, zero, managed, ubl):
    x, d, lr, g = [H.real(n, gt=0, flo=0.1, fhi=1) for n in ("x", "d", "lr", "g")]
    x, d, lr = [0 * v if n == zero else v for n, v in (("x", x), ("d", d), ("lr", lr))]
    H.assume(lr <= 6 * g)
    H.assume(lr * x * d <= 6 * g)
    a, b, n = manage(up(um=managed, ubl=ubl), upr(), managed, x, d, lr, g)
    H.ensure("no pulses", n == 0)


def parse(o, bl):
    """[(x pulses, d pulses)] per slot"""
    sep, o, out = o[0], list(o[1:]), []
    for _ in range(bl):
        v = []
        for _ in range(3):
            n = o.pop(0)
            v.append([o.pop(0) for _ in range(n)])
        out.append(v)
    return sep, out


def disc(v, res, u=None):
    if not res:
        return v
    r = 1.0 / res if res > 1 else res
    return torch.round(v / r + (u - 0.5 if u is not None else 0)) * r


TR = [dict(typ=t, nx=x, nd=d, bl=b, res=r, sto=s, um=0, warm=w) for t in ("Stochastic", "StochasticCompressed") for x, d, b, r, s, w in
      ((2, 1, 1, 0, 0, 0), (1, 2, 1, 0, 0, 1), (1, 1, 2, 0, 0, 0), (1, 1, 3, 0, 0, 2), (1, 1, 1, 0.25, 0, 0), (1, 1, 1, 0.25, 1, 0),
       (1, 1, 1, 4, 0, 0), (1, 1, 1, 8, 1, 1))] + \
     [dict(typ=t, nx=1, nd=1, bl=2, res=0, sto=0, um=1, warm=0) for t in ("Stochastic", "StochasticCompressed")]


@contract("C17", cases=TR, timeout=90)
def trains(H, typ, nx, nd, bl, res, sto, um, warm):
    """a pulse occurs exactly when its draw is below the probability of its line, with the sign of the entry"""
    x, d = H.tensor("x", nx), H.tensor("d", nd)
    H.assume(x != 0)
    H.assume(d != 0)
    lr, g = H.real("lr", gt=0, flo=0.01, fhi=0.5), H.real("g", gt=0, flo=0.1, fhi=0.3)
    u, ur = up(typ, bl=bl, um=um, sto=sto), upr(res=res)
    a, b, n = manage(u, ur, um, x.abs().max(), d.abs().max(), lr, g)
    big = torch.ones(nx + nd, dtype=torch.float64) * 4096.0
    H.assume(lr >= g / 65536)
    m = cc.mark()
    o, i = cc.run("trains", [1 + warm, nx, nd, 1, 1] + u, ur + [lr, g] + [big] * warm + [x, d])
    dr = list(cc.drawn(m))
    dr = dr[warm * (nx + nd) * (bl + (1 if res and sto else 0)):]
    for v in dr:
        H.assume(v > 0)
        H.assume(v < 1)
    H.ensure("length as managed", i[0] == n)
    sep, slots = parse(i[3:], n)
    for what, v, p, sign_split in (("x", x, b, sep), ("d", d, a, 0)):
        for j in range(len(v)):
            q = v[j].abs() * p
            if res:
                if sto:
                    q = disc(q, res, dr.pop(0))
                else:
                    q = disc(q, res)
                if bool(q == 0):
                    for s in slots:
                        H.ensure("no pulse at probability zero", all(abs(e) != j + 1 for e in (s[0] + s[1] if what == "x" else s[2])))
                    continue
            neg = bool(v[j] < 0)
            for k in range(n):
                s = slots[k]
                lst = s[0] + s[1] if what == "x" else s[2]
                here = [e for e in lst if abs(e) == j + 1]
                H.ensure("at most one pulse per slot", len(here) <= 1)
                uu = dr.pop(0)
                if here:
                    H.ensure("pulse only below the probability", uu < q)
                    H.ensure("sign of the entry", (here[0] < 0) == neg)
                    if what == "x" and sep:
                        H.ensure("negative entries in the train of their own", (here[0] in s[1]) == neg)
                else:
                    H.ensure("pulse whenever below the probability", uu >= q)
    for s in slots:
        H.ensure("only existing lines", all(1 <= abs(e) <= nx for e in s[0] + s[1]) and all(1 <= abs(e) <= nd for e in s[2]))


@contract("C17", cases=[dict(typ=t, sto=s, res=r) for t in ("Stochastic", "StochasticCompressed") for s in (0, 1) for r in (0, 0.5)], max_paths=1500)
def zero_entries(H, typ, sto, res):
    """zero entries never pulse and are counted"""
    x, d = H.tensor("x", 1), H.tensor("d", 1)
    H.assume(x != 0)
    H.assume(x.abs() <= 1)
    H.assume(d.abs() <= 1)
    H.assume(d != 0)
    lr, g = H.real("lr", gt=0, flo=0.01, fhi=0.5), H.real("g", gt=0, flo=0.1, fhi=0.3)
    H.assume(lr <= 1.5 * g)
    z = torch.zeros(1, dtype=torch.float64)
    m = cc.mark()
    o, i = cc.run("trains", [1, 2, 3, 1, 1] + up(typ, bl=1, sto=sto), upr(res=res) + [lr, g, z, x, z, d, z])
    for v in cc.drawn(m):       # ties of the stochastic rounding
        H.assume(v > 0)
        H.assume(v < 1)
    sep, slots = parse(i[3:], i[0])
    for s in slots:
        H.ensure("no pulse of a zero entry", all(abs(e) == 2 for e in s[0] + s[1] + s[2]))
    if not res:
        H.ensure("zero entries counted", (i[1], i[2]) == (1, 2))


def rsign(v):
    return torch.where(v < 0, -1.0 + 0 * v, 1.0 + 0 * v)


DN = [dict(typ=t, bl=b, sign=s, res=r, sto=q, um=u, nx=1) for t in ("MeanCount", "DeterministicImplicit") for b, s, r, q, u in
      ((2, 1, 0, 0, 0), (2, -1, 0, 0, 0), (1, 1, 0, 0, 0), (2, 1, 0.25, 0, 0), (2, 1, 4, 0, 0), (1, 1, 0.5, 1, 0), (1, 1, 0, 0, 1), (1, -1, 0, 0, 1))]
DN.append(dict(typ="MeanCount", bl=1, sign=1, res=0, sto=0, um=0, nx=2))


@contract("C17", cases=DN, timeout=120, max_paths=600)
def dense(H, typ, bl, sign, res, sto, um, nx):
    """deterministic pulse numbers: rounded expected coincidences with the sign of the desired change"""
    x, d = H.tensor("x", nx), H.tensor("d", 1)
    H.assume(x.abs() <= (2 if um else 1.5))
    H.assume(d.abs() <= (2 if um else 1.5))
    lr, g = H.real("lr", gt=0, flo=0.05, fhi=1), H.real("g", gt=0, flo=0.1, fhi=0.5)
    H.assume(lr <= 1.5 * g)
    H.assume(x != 0)            # zero: dense_zero
    H.assume(d != 0)
    sx, sd = [1 if bool(v > 0) else -1 for v in x], 1 if bool(d[0] > 0) else -1
    u = up(typ, bl=bl, um=um, sto=sto)
    ur = upr(res=res) if typ == "MeanCount" else upr(xres=res, dres=res)
    a, b, n = manage(u, ur, um, x.abs().max(), d.abs().max(), lr, g)
    m = cc.mark()
    o, i = cc.run("coincidences", [1, nx, 1, 1, 1] + u, ur + [lr * sign, g, x, d])
    dr = list(cc.drawn(m))
    q = []
    for v, p in list((v, b) for v in x) + [(d[0], a)]:
        c = v.abs() * p
        c = disc(c, res, dr.pop(0)) if res and sto else disc(c, res)
        one = 1.0 + 0 * c
        q.append(torch.minimum(torch.round(c * n), one * n) / n if typ == "MeanCount" else torch.minimum(c, one))
    for j in range(nx):
        want = q[j] * q[-1] * n
        H.within("expected number of coincidences, rounded", want - 0.5, abs(i[j]) + 0 * want, want + 0.5)
        H.ensure("sign of the desired change", sx[j] * sd * sign * i[j] >= 0)
        H.ensure("not more than the length of the train", abs(i[j]) <= n)


@contract("C17", cases=[dict(typ=t, um=u, first=f) for t in ("MeanCount", "DeterministicImplicit") for u in (0, 1) for f in (0, 1)], max_paths=300)
def dense_zero(H, typ, um, first):
    """zero entries never pulse, whatever was generated before"""
    x, d = H.tensor("x", 1), H.tensor("d", 1)
    H.assume(x.abs() <= 1.5)
    H.assume(d.abs() <= 1.5)
    z = torch.zeros(1, dtype=torch.float64)
    o, i = cc.run("coincidences", [1 + first, 2, 2, 1, 1] + up(typ, bl=2, um=um), upr() + [0.25, 0.125] + [torch.ones(4, dtype=torch.float64)] * first + [z, x, z, d])
    H.ensure("no pulse of a zero entry", i[:3] == [0, 0, 0])


def tile(H, typ, x, d, **kw):
    c = SingleRPUConfig(device=plain("Constant", dw_min=0.0625), forward=neutral(), backward=neutral())
    c.update = UpdateParameters(pulse_type=typ, update_management=False, update_bl_management=False, **kw)
    t = cc.analog_tile(c, x, d)
    w = H.tensor("w", d, x, flo=-0.25, fhi=0.25)
    H.assume(w.abs() <= 0.25)
    t("poke_weights", reals=[w])
    return t, w


@contract("C17", cases=[dict(typ=t, bl=b) for t in ("Stochastic", "StochasticCompressed") for b in (1, 2)], max_paths=900)
def applied(H, typ, bl):
    """coincident pulses move the crosspoint by one step each, in the direction of the desired change"""
    t, w = tile(H, TYPES[typ], 1, 1, desired_bl=bl)
    x, d = H.tensor("x", 1), H.tensor("d", 1)
    H.assume(x != 0)
    H.assume(d != 0)
    lr = H.real("lr", gt=0, flo=0.01, fhi=0.5)
    t("set_lr", reals=[lr])
    m = cc.mark()
    t("update", 0, 1, 0, 0, reals=[x, d])
    u = cc.drawn(m)
    p = torch.sqrt(0 * x[0] + lr / (0.0625 * bl))
    n = 0
    for k in range(bl):
        n += int(bool(u[k] < x[0].abs() * p) and bool(u[bl + k] < d[0].abs() * p))
    down = bool(x[0] > 0) == bool(d[0] > 0)
    H.eq("one step per coincidence", t.raw()[0, 0], w[0, 0] - 0.0625 * n * (1 if down else -1))


@contract("C17", cases=[dict(typ=t) for t in ("MeanCount", "DeterministicImplicit")], max_paths=400)
def applied_dense(H, typ):
    t, w = tile(H, TYPES[typ], 1, 1, desired_bl=2)
    x, d = H.tensor("x", 1), H.tensor("d", 1)
    H.assume(x.abs() <= 4)
    H.assume(d.abs() <= 4)
    t("set_lr", reals=[0.125])           # probability one per unit
    t("update", 0, 1, 0, 0, reals=[x, d])
    a, b = torch.minimum(x[0].abs(), 1 + 0 * x[0]), torch.minimum(d[0].abs(), 1 + 0 * d[0])
    if typ == "MeanCount":
        a, b = torch.round(a * 2) / 2, torch.round(b * 2) / 2
    n = (w[0, 0] - t.raw()[0, 0]) / 0.0625
    want = a * b * 2 * rsign(x[0]) * rsign(d[0])
    H.within("one step per coincidence", want - 0.5, n, want + 0.5)
    H.grid("whole steps", n, 1.0)


@contract("C17", cases=[dict(typ=t, neg=n, m=m) for t in (PulseType.NONE, PulseType.NONE_WITH_DEVICE) for n in (0, 1) for m in (1, 2) if not (n and t == PulseType.NONE_WITH_DEVICE)])
def not_pulsed(H, typ, neg, m):
    """without pulses the exact rank-one update, limited by the device when it is kept"""
    c = SingleRPUConfig(device=plain("Constant", dw_min=0.0625, w_max=0.5, w_min=-0.5), forward=neutral(), backward=neutral())
    c.update = UpdateParameters(pulse_type=typ)
    t = cc.analog_tile(c, 2, 2)
    w = H.tensor("w", 2, 2, flo=-0.25, fhi=0.25)
    H.assume(w.abs() <= 0.25)
    t("poke_weights", reals=[w])
    x, d = H.tensor("x", m, 2), H.tensor("d", m, 2)
    lr = H.real("lr", gt=0, flo=0.01, fhi=0.5)
    t("set_lr", reals=[-lr if neg else lr])
    t("update", 0, m, 0, 0, reals=[x, d])
    s = -lr if neg else lr
    for b in range(m):
        w = w - d[b].reshape(2, 1) * x[b].reshape(1, 2) * s
        if typ == PulseType.NONE_WITH_DEVICE:
            w = torch.minimum(torch.maximum(w, 0 * w - 0.5), 0 * w + 0.5)
    H.eq("exact update", t.raw(), w)


@contract("C17", cases=[dict(typ=t, how=h) for t in TYPES for h in (0, 1, 2, 3)], max_paths=600)
def copied(H, typ, how):
    """a copied or moved tile updates like the original"""
    t, w = tile(H, TYPES[typ], 1, 1, desired_bl=1)
    t("set_lr", reals=[0.0625])
    one = torch.ones(1, dtype=torch.float64)
    t("update", 0, 1, 0, 0, reals=[one * 2, one * 2])
    t = t.copy(how)
    t("poke_weights", reals=[w])
    t("update", 0, 1, 0, 0, reals=[one * 2, one * -2])
    H.eq("one step", t.raw(), w + 0.0625)
