"""C13 weight modifiers produce valid noisy copies."""
import torch
from pyvc.harness import contract
from pyvc import cc
import aihwkit.simulator.parameters.enums as en
from aihwkit.simulator.parameters.inference import WeightModifierParameter
from aihwkit.simulator.tiles.torch_tile import TorchSimulatorTile
from .common import cfg, tile

NOISY = ("MultNormal", "AddNormal", "Poly", "ProgNoise", "DiscretizeAddNormal")
GRID = ("Discretize", "DoReFa", "DiscretizeAddNormal")
SUPPORTED = ("Copy", "Discretize", "MultNormal", "AddNormal", "DiscretizeAddNormal", "DoReFa", "Poly", "DropConnect", "ProgNoise")


def run(H, w, typ, std=0.0, res=0.0, clip=0.5, pdrop=0.0, wmax=1.0, gmax=25.0, coeffs=(), sto=0, last=0, rel=0, test=0, batch=0, w0=None):
    d, x = w.shape
    o, _ = cc.run("modify", [cc.enum("WeightModifierType")[typ], x, d, int(w0 is not None), sto, last, rel, test, batch, len(coeffs)],
                  [std, res, clip, pdrop, wmax, gmax] + list(coeffs) + ([w0] if w0 is not None else []) + [w])
    return o.reshape(3, d, x)


def flags():
    return [dict(last=l, rel=r, test=t, warm=wm) for l, r, t, wm in ((0, 0, 0, 0), (1, 1, 0, 0), (0, 1, 1, 0), (1, 0, 1, 1))]


def amax_of(H, w, rel, last, wmax):
    if not rel:
        return wmax
    a = 0.0
    for i in range(w.shape[0]):
        for j in range(w.shape[1] - last):
            v = abs(w[i, j])
            if v > a:
                a = v
    return a if a > 0 else 1.0


def frame(H, o, w, test, last):
    """what holds for every modifier"""
    H.eq("persistent weights untouched", o[1], w)
    H.eq("test mode uses the modified weights only when asked to", o[2], o[0] if test else w)
    if last:
        H.eq("excluded column untouched", o[0][:, -1], w[:, -1])


@contract("C13", cases=[dict(typ=t, **f) for t in SUPPORTED for f in flags()])
def zero_strength(H, typ, last, rel, test, warm):
    w = H.tensor("w", 2, 2)
    w0 = H.tensor("w0", 2, 2) if warm else None
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    co = [H.real("c%d" % i) for i in range(2)]
    o = run(H, w, typ, wmax=wmax, coeffs=co, last=last, rel=rel, test=test, w0=w0, sto=last)
    H.eq("strength zero: modified weights equal the original ones", o[0], w)
    frame(H, o, w, test, last)


@contract("C13", cases=[dict(typ=t, sto=s, **f) for t in GRID for s in (0, 1) for f in flags() if not (t == "DoReFa" and f["warm"])])
def on_grid(H, typ, sto, last, rel, test, warm):
    rows = 1 if rel and not last else 2
    w = H.tensor("w", rows, 2, flo=-1, fhi=1)
    w0 = H.tensor("w0", rows, 2) if warm else None
    res = H.real("res", gt=0, flo=0.05, fhi=0.6)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    if typ == "DoReFa":
        rel = 0
    a = amax_of(H, w, rel, last, wmax)
    o = run(H, w, typ, res=res, wmax=wmax, sto=sto, last=last, rel=rel, test=test, w0=w0)
    frame(H, o, w, test, last)
    y, v = (o[0][:, :-1], w[:, :-1]) if last else (o[0], w)
    if typ == "DoReFa":
        H.grid("modified weights lie on the grid", y, res)
        return
    step = a * res
    H.grid("modified weights lie on the grid", y, step)
    H.le("no further from the original than one rounding", (y - v).abs(), step if sto else step * 0.5)


@contract("C13", cases=[dict(typ=t, n=n, rel=r) for t in NOISY for n in ((0, 2) if t in ("Poly", "ProgNoise") else (0,)) for r in (0, 1)])
def noise_scales(H, typ, n, rel):
    """for the same draws the deviation is proportional to the strength"""
    w = H.tensor("w", 1, 2)
    s1, s2 = H.real("s1", gt=0, flo=0.05, fhi=1), H.real("s2", gt=0, flo=0.05, fhi=1)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    co = [H.real("c%d" % i) for i in range(n)]
    m = H.mark()
    a = run(H, w, typ, std=s1, wmax=wmax, coeffs=co, rel=rel)
    H.rewind(m)
    b = run(H, w, typ, std=s2, wmax=wmax, coeffs=co, rel=rel)
    frame(H, a, w, 0, 0)
    if typ == "ProgNoise":
        for i in range(2):
            H.le("noise never changes the sign of the weight", 0, a[0][0, i] * w[0, i])
        return
    H.eq("deviation proportional to the strength", (a[0] - w) * s2, (b[0] - w) * s1)
    if n == 0 and typ == "Poly":
        H.eq("no coefficients: no noise", a[0], w)
    if typ == "MultNormal":
        for i in range(2):
            H.eq("zero weights stay zero", a[0][0, i], 0 * w[0, i], when=w[0, i] == 0)


@contract("C13", cases=[dict(typ=t, last=l) for t in ("Copy", "DropConnect", "Discretize", "AddNormal") for l in (0, 1)])
def dropping(H, typ, last):
    w = H.tensor("w", 2, 2)
    p = H.real("p", gt=0, hi=1)
    m = H.mark()
    full = run(H, w, typ, std=0.25, res=0.25, last=last)
    H.rewind(m)
    c = cc.mark()
    o = run(H, w, typ, std=0.25, res=0.25, pdrop=p, last=last)
    frame(H, o, w, 0, last)
    y, v = (o[0][:, :-1], full[0][:, :-1]) if last else (o[0], full[0])
    k = [[y[i, j] == 0, y[i, j] == v[i, j]] for i in range(y.shape[0]) for j in range(y.shape[1])]
    for z, e in k:
        H.ensure("each weight is dropped to zero or kept", (z | e) if H.sym else bool(z) or bool(e))
    if last:
        return
    for z, e in k:
        H.ensure("probability one drops every weight", H.implies(p == 1, z))
    if typ in ("Copy", "DropConnect"):
        u = cc.drawn(c)
        one = lambda b: H.ite(b, 1, 0)      # noqa
        n = sum(one((v[i, j] != 0) & z if H.sym else bool(v[i, j] != 0) and bool(z)) for (z, e), (i, j) in zip(k, [(0, 0), (0, 1), (1, 0), (1, 1)]))
        H.ensure("as many weights dropped as draws below the probability",
                 H.implies((v != 0).all(), n == sum(one(x < p) for x in u)))


@contract("C13", cases=[dict(typ="PCMNoise", batch=0)] + [dict(typ=t, batch=1) for t in ("Discretize", "MultNormal", "AddNormal")])
def rejected(H, typ, batch):
    w = H.tensor("w", 2, 2)
    try:
        run(H, w, typ, std=0.25, res=0.25, batch=batch)
        H.ensure("unsupported modifier is rejected", False)
    except cc.CppError:
        H.ensure("unsupported modifier is rejected", True)


# ---------------------------------------------------------------------------------------- python tiles
@contract("C13", cases=[dict(typ="Discretize", last=l, test=t) for l in (0, 1) for t in (0, 1)] + [dict(typ="AddNormal", last=1, test=0)])
def inference_tile(H, typ, last, test):
    c = cfg("inference")
    c.mapping.digital_bias = False
    c.modifier = WeightModifierParameter(type=en.WeightModifierType.DISCRETIZE if typ == "Discretize" else en.WeightModifierType.ADD_NORMAL,
                                         std_dev=0.25, res=0.25, rel_to_actual_wmax=False, copy_last_column=bool(last), enable_during_test=bool(test))
    t = tile("inference", 2, 1, bias=True, config=c)
    for step in range(2):
        w = H.tensor("w%d" % step, 2, 2)
        t.tile.set_weights(w)
        t.post_update_step()
        H.eq("stored weights untouched by the modifier", t.tile.get_weights(), w)
        H.eq("logical weights untouched by the modifier", t.get_weights()[0], w[:, :1])
        zero = torch.zeros(1, 1, dtype=torch.float64)
        b = t.tile.forward(zero, True, False, False, False)[0]
        if last:
            H.eq("bias used in the forward pass untouched", b, w[:, 1])
        elif typ == "Discretize":
            H.grid("bias on the grid", b, 0.25)
        e = t.tile.forward(zero + 1, True, False, False, True)[0]
        f = t.tile.forward(zero + 1, True, False, False, False)[0]
        H.eq("test mode", e, f if test else w[:, 0] + w[:, 1])


def mod(H, typ, std, res, rel, batch, wmax, sto=False):
    return WeightModifierParameter(type=getattr(en.WeightModifierType, typ), std_dev=std, res=res, rel_to_actual_wmax=bool(rel),
                                   per_batch_sample=bool(batch), assumed_wmax=wmax, sto_round=bool(sto))


TYPES = {"NONE": 0, "COPY": 0, "MULT_NORMAL": 1, "ADD_NORMAL": 1}


@contract("C13", cases=[dict(typ=t, rel=r, batch=b) for t in TYPES for r in (0, 1) for b in (0, 1)])
def torch_zero(H, typ, rel, batch):
    w = H.tensor("w", 2, 2)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    w1 = H.clone(w)
    y = TorchSimulatorTile.modify_weight(w1, mod(H, typ, 0.0, 0.25, rel, batch, wmax), 3)
    H.eq("strength zero: modified weights equal the original ones", y + w * 0, w + y * 0)
    H.eq("persistent weights untouched", w1, w)


@contract("C13", cases=[dict(typ=t, rel=r, batch=b) for t in ("MULT_NORMAL", "ADD_NORMAL") for r in (0, 1) for b in (0, 1)])
def torch_noise(H, typ, rel, batch):
    w = H.tensor("w", 1, 2)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    s1, s2 = H.real("s1", gt=0, flo=0.05, fhi=1), H.real("s2", gt=0, flo=0.05, fhi=1)
    w1 = H.clone(w)
    m = H.mark()
    a = TorchSimulatorTile.modify_weight(w1, mod(H, typ, s1, 0.25, rel, batch, wmax), 2)
    H.rewind(m)
    b = TorchSimulatorTile.modify_weight(w1, mod(H, typ, s2, 0.25, rel, batch, wmax), 2)
    H.eq("persistent weights untouched", w1, w)
    H.ensure("one copy per sample when asked for", tuple(a.shape) == ((2, 1, 2) if batch else (1, 2)))
    H.eq("deviation proportional to the strength", (a - w) * s2, (b - w) * s1)


@contract("C13", cases=[dict(rel=r, batch=b, sto=s) for r in (0, 1) for b in (0, 1) for s in (0, 1)])
def torch_grid(H, rel, batch, sto):
    w = H.tensor("w", 1 if rel else 2, 2, flo=-1, fhi=1)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    res = H.real("res", gt=0, hi=1.0, flo=0.05, fhi=0.6)
    w1 = H.clone(w)
    a = amax_of(H, w, rel, 0, wmax)
    y = TorchSimulatorTile.modify_weight(w1, mod(H, "DISCRETIZE", 0.0, res, rel, batch, wmax, sto), 2)
    H.eq("persistent weights untouched", w1, w)
    step = a * res * 2
    H.ensure("one copy per sample when asked for", tuple(y.shape) == ((2,) + tuple(w.shape) if batch else tuple(w.shape)))
    H.grid("modified weights lie on the grid", y, step)
    H.le("no further from the original than one rounding", (y - w).abs(), step if sto else step * 0.5)


@contract("C13", cases=[dict(typ=t, train=tr) for t in ("MULT_NORMAL", "ADD_NORMAL", "DISCRETIZE") for tr in (0, 1)])
def torch_tile(H, typ, train):
    c = cfg("torch")
    c.modifier = mod(H, typ, 0.25, 0.25, 0, 0, 1.0)
    t = tile("torch", 2, 2, config=c)
    t.train(bool(train))
    w = H.tensor("w", 2, 2)
    t.tile.set_weights(w)
    x = H.tensor("x", 1, 2)
    for _ in range(2):
        y = t(x)
        H.eq("stored weights untouched by the modifier", t.tile.get_weights(), w)
        t.post_update_step()
        H.eq("stored weights untouched by the optimizer step", t.tile.get_weights(), w)
        if not train:
            H.eq("no modification during test", y, torch.matmul(x, w.t()))
