"""C14 remapping keeps the logical weights."""
import torch
from pyvc.harness import contract
from pyvc import cc
import aihwkit.simulator.parameters.enums as en
from aihwkit.simulator.parameters.inference import WeightRemapParameter
from .common import cfg, tile


def run(H, typ, w, s, b, clip=1, limit=0.0, ref=0.0, norm=1.0, wmax=1.0, pre=None):
    d, x = w.shape
    o, _ = cc.run("remap", [cc.enum("WeightRemapType")[typ], x, d, int(pre is not None), clip],
                  [limit, ref, norm, wmax] + (list(pre) if pre is not None else []) + [w, s, b])
    n = d * x
    return o[:n].reshape(d, x), o[n:n + d], o[n + d:]


def inputs(H, d, x, warm, big=None):
    w = H.tensor("w", d, x)
    s = H.tensor("s", d, flo=0.1, fhi=2)
    b = H.tensor("b", d)
    H.assume(s > 0)
    pre = [H.tensor("w0", d, x), H.tensor("s0", d, flo=0.1, fhi=2), H.tensor("b0", d)] if warm else None
    if warm:
        H.assume(pre[1] > 0)
    if big:
        for t in [w, s] + (pre or []):
            H.assume(t.abs() <= big)
    return w, s, b, pre


def logical(H, w, s, b, w1, s1, b1):
    H.eq("logical weights unchanged", w1 * s1.reshape(-1, 1) + b1.reshape(-1, 1), w * s.reshape(-1, 1) + b.reshape(-1, 1))
    H.ensure("scales stay positive", s1 > 0)


def group_max(H, what, grp, m, old):
    """largest magnitude of the group is m, unless the group was zero"""
    H.le(what + ": nothing above the configured maximum", grp.abs(), m)
    H.eq(what + ": the maximum is reached", grp.abs().max(), m + grp.abs().max() * 0, when=old.abs().max() > 0)


SH = [(2, 2), (1, 3), (3, 1)]


@contract("C14", cases=[dict(d=d, x=x, warm=0) for d, x in SH] + [dict(d=1, x=2, warm=1)])
def layerwise(H, d, x, warm):
    w, s, b, pre = inputs(H, d, x, warm)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    w1, s1, b1 = run(H, "LayerwiseSymmetric", w, s, b, wmax=wmax, pre=pre)
    logical(H, w, s, b, w1, s1, b1)
    H.eq("biases untouched", b1, b)
    group_max(H, "layer", w1, wmax, w)


@contract("C14", cases=[dict(d=d, x=x, warm=0) for d, x in SH] + [dict(d=2, x=2, warm=1)], timeout=120)
def channelwise(H, d, x, warm):
    w, s, b, pre = inputs(H, d, x, warm)
    wmax = H.real("wmax", gt=0, flo=0.2, fhi=2)
    w1, s1, b1 = run(H, "ChannelwiseSymmetric", w, s, b, wmax=wmax, pre=pre)
    logical(H, w, s, b, w1, s1, b1)
    H.eq("biases untouched", b1, b)
    for i in range(d):
        group_max(H, "row", w1[i], wmax, w[i])


@contract("C14", cases=[dict(d=2, x=1, ref=0), dict(d=2, x=1, ref=1), dict(d=1, x=2, ref=0)])
def limited(H, d, x, ref):
    """with a limiting maximum scale"""
    w, s, b, pre = inputs(H, d, x, 0, big=1e9)
    limit = H.real("limit", gt=0, flo=0.5, fhi=4)
    r = H.real("ref", gt=0, flo=0.2, fhi=2) if ref else 0.0
    w1, s1, b1 = run(H, "ChannelwiseSymmetric", w, s, b, limit=limit, ref=r)
    logical(H, w, s, b, w1, s1, b1)
    m = s.min()
    if ref:
        m = torch.maximum(m, torch.ones_like(m) * r)
    H.le("scales bounded by the maximum range", s1, m * limit)
    for i in range(d):
        a = w[i].abs().max()
        free = a * s[i] <= m * limit
        H.eq("scales that are not limited map the row maximum to one", w1[i].abs().max(), 1 + 0 * a, when=(free & (a > 0)) if H.sym else bool(free) and bool(a > 0))


@contract("C14", cases=[dict(clip=c, d=d, x=x) for c in (0, 1) for d, x in ((1, 2), (2, 1), (2, 2))])
def norm(H, clip, d, x):
    w, s, b, pre = inputs(H, d, x, 0)
    rn = H.real("rn", gt=0, flo=0.3, fhi=2)
    w1, s1, b1 = run(H, "ChannelwiseNorm", w, s, b, clip=clip, norm=rn)
    if clip:
        H.eq("clipping leaves the scales alone", s1, s)
    else:
        logical(H, w, s, b, w1, s1, b1)
    for i in range(d):
        n2 = (w[i] * w[i]).sum()
        H.le("row norm bounded", (w1[i] * w1[i]).sum(), rn * rn)
        H.eq("rows with admissible norm are not changed", w1[i], w[i], when=(n2 <= rn * rn) & (n2 > 0) if H.sym else bool(n2 <= rn * rn) and bool(n2 > 0))
        for j in range(x):
            H.le("rows are only shrunk", w1[i, j].abs(), w[i, j].abs())


@contract("C14", cases=[dict(d=1, x=2, warm=0), dict(d=2, x=2, warm=0), dict(d=1, x=2, warm=1)])
def asymmetric(H, d, x, warm):
    w, s, b, pre = inputs(H, d, x, warm, big=1e9)
    w1, s1, b1 = run(H, "ChannelwiseAsymmetric", w, s, b, pre=pre)
    logical(H, w, s, b, w1, s1, b1)
    for i in range(d):
        H.le("mapped into the range", w1[i].abs(), 1)
        H.eq("reaches the range", w1[i].abs().max(), 1 + 0 * s[i])


@contract("C14", cases=[dict(typ="None", rej=False), dict(typ="ChannelwiseExceeded", rej=True), dict(typ="LayerwiseAsymmetric", rej=True),
                        dict(typ="ChannelwiseSymmetric", rej=True)])
def other(H, typ, rej):
    w, s, b, pre = inputs(H, 2, 2, 0)
    try:
        w1, s1, b1 = run(H, typ, w, s, b, limit=2.0, wmax=0.5)
        H.ensure("unsupported remapping is rejected", not rej)
        H.eq("no remapping", w1, w)
        H.eq("no remapping (scales)", s1, s)
    except cc.CppError:
        H.ensure("only unsupported remapping is rejected", rej)


SWA = [dict(every=0, trans=0, start=0, it=4), dict(every=2, trans=0, start=4, it=4), dict(every=2, trans=0, start=0, it=3),
       dict(every=2, trans=0, start=0, it=2), dict(every=2, trans=0, start=2, it=8), dict(every=2, trans=2, start=2, it=6),
       dict(every=2, trans=2, start=2, it=8), dict(every=1, trans=1, start=0, it=3)]


@contract("C14", cases=[dict(scales=sc, **c) for c in SWA for sc in (0, 1)])
def averaging(H, every, trans, start, it, scales):
    d, x = 2, 2
    w, s, b, _ = inputs(H, d, x, 0)
    a = H.tensor("a", d, x)
    o, (r,) = cc.run("swa", [cc.enum("WeightRemapType")["LayerwiseSymmetric" if scales else "None"], x, d, scales, every, trans, start, it],
                     [w, a, s, b])
    w1, a1, s1 = o[:4].reshape(d, x), o[4:8].reshape(d, x), o[8:10]
    due = every > 0 and it > start and it % every == 0
    lw = w * s.reshape(-1, 1) if scales else w
    if not due:
        H.eq("average unchanged", a1, a)
        H.eq("weights unchanged", w1, w)
        H.eq("scales unchanged", s1, s)
        H.ensure("not reported", r == 0)
        return
    n = (it - start) // every - 1
    H.eq("average includes the present logical weights", a1 * (n + 1), a * n + lw)
    move = trans > 0 and (n + 1) % trans == 0
    H.ensure("reported when the weights were replaced", bool(r) == move)
    l1 = w1 * s1.reshape(-1, 1) if scales else w1
    H.eq("logical weights are the average after a transfer, unchanged otherwise", l1, a1 if move else lw)


# ---------------------------------------------------------------------------------------- python tiles
def conf(kind, typ, wmax=1.0, limit=0.0, **m):
    c = cfg(kind, **m)
    c.remap = WeightRemapParameter(type=getattr(en.WeightRemapType, typ), remapped_wmax=wmax, max_scale_range=limit)
    return c


MAPS = [dict(), dict(weight_scaling_omega=0.5, weight_scaling_columnwise=True), dict(weight_scaling_omega=0.5),
        dict(learn_out_scaling=True, weight_scaling_omega=0.5, weight_scaling_columnwise=True), dict(learn_out_scaling=True, out_scaling_columnwise=True)]


@contract("C14", cases=[dict(kind=k, typ=t, m=i, bias=b) for k in ("inference", "torch") for t in ("LAYERWISE_SYMMETRIC", "CHANNELWISE_SYMMETRIC")
                        for i in range(len(MAPS)) for b in ((0, 1) if k == "inference" and i < 2 else (0,))], max_paths=200)
def tiles(H, kind, typ, m, bias):
    """remapping at the end of each optimizer step"""
    c = conf(kind, typ, **MAPS[m])
    if bias:
        c.mapping.digital_bias = False
    t = tile(kind, 2, 1 if bias else 2, bias=bool(bias), config=c)
    w = H.tensor("w", 2, 2)
    if t.mapping_scales is not None:
        ms = H.tensor("ms", *t.mapping_scales.shape, flo=0.1, fhi=3)
        H.assume(ms > 0)
        t.mapping_scales = H.clone(ms)
    if t.out_scaling_alpha is not None:
        al = H.tensor("alpha", *t.out_scaling_alpha.shape, flo=0.2, fhi=2)
        H.assume(al > 0)
        H.put(t, "out_scaling_alpha", al)
    t.tile.set_weights(H.clone(w))
    l0, b0 = t.get_weights(apply_weight_scaling=True)
    l0 = H.clone(l0)
    t.post_update_step()
    l1, b1 = t.get_weights(apply_weight_scaling=True)
    H.eq("logical weights unchanged", l1, l0)
    if bias:
        H.eq("logical bias unchanged", b1, b0)
    st = t.tile.get_weights()
    if typ == "LAYERWISE_SYMMETRIC":
        group_max(H, "layer", st, 1.0, w)
    else:
        for i in range(2):
            group_max(H, "row", st[i], 1.0, w[i])


@contract("C14", cases=[dict(kind=k) for k in ("inference", "torch")])
def tiles_off(H, kind):
    t = tile(kind, 2, 2, config=conf(kind, "NONE", weight_scaling_omega=0.5))
    w = H.tensor("w", 2, 2)
    t.tile.set_weights(H.clone(w))
    s0 = t.get_scales()
    s0 = None if s0 is None else s0.clone()
    t.post_update_step()
    H.eq("no remapping configured: weights unchanged", t.tile.get_weights(), w)
    if s0 is not None:
        H.eq("no remapping configured: scales unchanged", t.get_scales(), s0)


@contract("C14", cases=[dict(kind=k, omega=o, m=i, bias=b) for k in ("analog", "inference", "fp", "torch") for o in (1.0, 0.5) for i in (0, 1, 2, 3)
                        for b in ((0, 1) if k == "inference" else (0,)) if k in ("inference", "analog") or i == 1])
def remap_weights(H, kind, omega, m, bias):
    """TileWithPeriphery.remap_weights"""
    t = tile(kind, 2, 2, bias=bool(bias), config=cfg(kind, **MAPS[m]))
    w = H.tensor("w", 2, 2)
    if t.mapping_scales is not None:
        ms = H.tensor("ms", *t.mapping_scales.shape, flo=0.1, fhi=3)
        H.assume(ms > 0)
        t.mapping_scales = H.clone(ms)
    t.tile.set_weights(H.clone(w))
    if bias:
        H.put(t, "bias", H.tensor("b", 2))
    H.assume(w.abs().amax(1) > 0)
    l0, b0 = t.get_weights(apply_weight_scaling=True)
    l0, b0 = H.clone(l0), (None if b0 is None else H.clone(b0))
    t.remap_weights(omega)
    l1, b1 = t.get_weights(apply_weight_scaling=True)
    H.eq("logical weights unchanged", l1, l0)
    if bias:
        H.eq("logical bias unchanged", b1, b0)
    st = t.tile.get_weights()
    if t.rpu_config.mapping.weight_scaling_columnwise:
        for i in range(2):
            group_max(H, "row", st[i], omega, w[i])
    elif t.rpu_config.mapping.weight_scaling_omega > 0:
        group_max(H, "layer", st, omega, w)
