"""C04 noise-free tiles compute exact products and gradients."""
import torch
from pyvc.harness import contract, last_ctx
import aihwkit.nn as ann
from .common import cfg, tile, stored, linear
from .c03 import conv_ref, tup

MAPS = [dict(), dict(weight_scaling_omega=0.7), dict(weight_scaling_omega=0.7, weight_scaling_columnwise=True),
        dict(weight_scaling_omega=0.7, weight_scaling_columnwise=True, learn_out_scaling=True, out_scaling_columnwise=True),
        dict(learn_out_scaling=True), dict(weight_scaling_omega=0.7, weight_scaling_lr_compensation=True)]
SHAPES = {1: (2,), 2: (2, 2), 3: (2, 1, 2)}


def scales(H, t, out):
    """arbitrary non-zero digital scales on top of whatever the write determined"""
    if t.mapping_scales is not None:
        s = H.tensor("ms", *t.mapping_scales.shape, flo=0.1, fhi=3)
        H.assume(s > 0)
        t.mapping_scales = H.clone(s)
    if t.out_scaling_alpha is not None:
        a = H.tensor("alpha", *t.out_scaling_alpha.shape)
        H.put(t, "out_scaling_alpha", a)


def raw(H, t, out, inp, bias):
    """arbitrary stored weights"""
    w = H.tensor("wt", out, inp + (1 if t.analog_bias else 0))
    t.tile.set_weights(w)
    b = None
    if t.digital_bias:
        b = H.tensor("b", out)
        H.put(t, "bias", b)
    return w, b


def cases():
    out = []
    for k in ("analog", "fp", "inference", "torch", "custom"):
        for i in range(len(MAPS)):
            for bias, digital in ((False, True), (True, True), (True, False)):
                if k in ("torch", "custom") and bias and not digital:
                    continue
                if k != "analog" and (i + bias) % 2:
                    continue
                out.append(dict(kind=k, m=i, bias=bias, digital=digital))
    return out


def ms_of(t, out):
    s = t.mapping_scales
    return None if s is None else s.reshape(-1)


@contract("C04", cases=cases(), max_paths=300)
def forward(H, kind, m, bias, digital):
    t = tile(kind, 3, 2, bias=bias, digital_bias=digital, **MAPS[m])
    scales(H, t, 3)
    wt, b = raw(H, t, 3, 2, bias)
    wt0 = H.clone(wt)
    s = t.get_scales()
    w = wt[:, :2]
    ab = wt[:, 2] if t.analog_bias else None
    if s is not None:
        w = w * s.reshape(-1, 1)
        ab = ab * s.reshape(-1) if ab is not None else None
    for mode in ("eval", "train"):
        getattr(t, mode)()
        for nd, sh in SHAPES.items():
            if kind in ("analog", "fp", "inference") and nd == 1 and False:
                continue
            x = H.tensor("x%d%s" % (nd, mode[0]), *sh)
            x0 = H.clone(x)
            y = t(x)
            r = linear(x0, w, ab)
            if b is not None:
                r = r + b
            H.eq("forward is the matrix product (%s, %d-d)" % (mode, nd), y, r)
            H.eq("input unchanged", x, x0)
    H.eq("stored weights unchanged", stored(t), wt0)


@contract("C04", cases=[c for c in cases() if c["kind"] != "torch"], max_paths=300)
def backward_update(H, kind, m, bias, digital):
    """gradients of the analog map: input gradient, recorded pair, and the update of the stored weights"""
    t = tile(kind, 3, 2, bias=bias, digital_bias=digital, **MAPS[m])
    scales(H, t, 3)
    wt, b = raw(H, t, 3, 2, bias)
    ms = t.mapping_scales
    ms = None if ms is None else ms.reshape(-1)
    w = wt[:, :2] if ms is None else wt[:, :2] * ms.reshape(-1, 1)
    for nd, sh in SHAPES.items():
        t.tile.set_weights(H.clone(wt))
        d = H.tensor("d%d" % nd, *(sh[:-1] + (3,)))
        d0 = H.clone(d)
        g = t.backward(d)
        H.eq("input gradient is the transposed product (%d-d)" % nd, g, torch.matmul(d0, w))
        H.eq("gradient unchanged", d, d0)
        x = H.tensor("x%d" % nd, *sh)
        before = H.clone(stored(t))
        lr = H.real("lr%d" % nd, gt=0, flo=0.01, fhi=0.5)
        t.set_learning_rate(lr)
        H.eq("learning rate reads back", t.get_learning_rate(), lr)
        t.update(x, d)
        after = stored(t)
        x2, d2 = x.reshape(-1, 2), d0.reshape(-1, 3)
        exp = torch.matmul(d2.t(), x2)
        dw = after[:, :2] - before[:, :2]
        H.eq("weight step times the scales is the outer product gradient", dw if ms is None else dw * ms.reshape(-1, 1), exp * (-lr))
        if t.analog_bias:
            db = after[:, 2] - before[:, 2]
            H.eq("bias step", db if ms is None else db * ms, d2.sum(0) * (-lr))
        H.eq("gradient unchanged by the update", d, d0)


@contract("C04", cases=[dict(kind=k, m=m, nd=nd) for k in ("analog", "fp", "custom") for m in (0, 2) for nd in (1, 2, 3)])
def recorded_gradient(H, kind, m, nd):
    """the autograd function records exactly the input and output gradient of this map"""
    t = tile(kind, 3, 2, **MAPS[m])
    scales(H, t, 3)
    wt, b = raw(H, t, 3, 2, False)
    ms = t.mapping_scales
    w = wt if ms is None else wt * ms.reshape(-1, 1)
    x = H.tensor("x", *SHAPES[nd])
    d = H.tensor("d", *(SHAPES[nd][:-1] + (3,)))
    t.train()
    ctx = t.get_analog_ctx()
    if H.sym:
        t(x)
        fn, c = last_ctx[-1]
        g = fn.backward(c, d)[2]
    else:
        xx = x.clone().requires_grad_()
        y = t(xx)
        y.backward(d)
        g = xx.grad
    H.eq("input gradient", g, torch.matmul(d, w))
    H.ensure("one record", len(ctx.analog_input) == 1 and len(ctx.analog_grad_output) == 1)
    H.eq("recorded input", ctx.analog_input[0], x)
    H.eq("recorded gradient", ctx.analog_grad_output[0], d)
    H.eq("weights untouched before the optimizer step", stored(t), wt)


@contract("C04", cases=[dict(kind=k, bias=b) for k in ("analog", "fp") for b in (False, True)])
def transposed(H, kind, bias):
    """transposed tile layouts give the same map"""
    c = cfg(kind, digital_bias=False, weight_scaling_omega=0.5, weight_scaling_columnwise=True)
    w, b, x, d = H.tensor("w", 3, 2), (H.tensor("b", 3) if bias else None), H.tensor("x", 2, 2), H.tensor("d", 2, 3)
    for it in (False, True):
        for ot in (False, True):
            t = c.tile_class(3, 2, c, bias=bias, in_trans=it, out_trans=ot)
            t.set_weights(w, b)
            y = t.joint_forward(x.t() if it else x)
            r = linear(x, w, b)
            H.eq("forward in layout %d%d" % (it, ot), y, r.t() if ot else r)
            g = t.backward(d.t() if ot else d)
            rg = torch.matmul(d, w)
            H.eq("backward in layout %d%d" % (it, ot), g, rg.t() if it else rg)


@contract("C04", cases=[dict(m=m, bias=b) for m in (0, 1, 2) for b in (False, True)])
def shared_weight_gradient(H, m, bias):
    """tiles updated by torch hand the outer-product gradient to the optimizer"""
    t = tile("inference", 3, 2, bias=bias, digital_bias=False, **MAPS[m])
    scales(H, t, 3)
    wt = H.tensor("wt", 3, 3 if bias else 2)
    if H.sym:
        t.tile.set_weights(wt)
    else:
        t.tile.set_weights(wt)
    ms = t.mapping_scales
    ms = None if ms is None else ms.reshape(-1)
    x, d = H.tensor("x", 2, 2), H.tensor("d", 2, 3)
    t.train()
    if H.sym:
        t(x)
        fn, c = last_ctx[-1]
        r = fn.backward(c, d)
        g, sg = r[2], r[3]
        if sg is None:
            H.ensure("shared gradient returned", False)
            return
    else:
        xx = x.clone().requires_grad_()
        y = t(xx)
        y.backward(d)
        g, sg = xx.grad, t.shared_weights.grad
    w = wt[:, :2] if ms is None else wt[:, :2] * ms.reshape(-1, 1)
    H.eq("input gradient", g, torch.matmul(d, w))
    exp = torch.matmul(d.t(), x)
    H.eq("weight gradient times the scales", sg[:, :2] if ms is None else sg[:, :2] * ms.reshape(-1, 1), exp)
    if bias:
        H.eq("bias gradient times the scales", sg[:, 2] if ms is None else sg[:, 2] * ms, d.sum(0))
    H.eq("weights untouched by the gradient", stored(t), wt)
    ctx = t.get_analog_ctx()
    H.ensure("nothing recorded for an analog update", not ctx.analog_input and not ctx.analog_grad_output)


@contract("C04", cases=[dict(dim=d, p=p, m=m) for d, p in ((1, dict(img=(3,), k=2, padding=1)), (2, dict(img=(2, 3), k=(2, 1), stride=(1, 2))),
                        (3, dict(img=(2, 1, 2), k=(2, 1, 1)))) for m in (0, 2)])
def indexed_gradient(H, dim, p, m):
    """input gradient and weight step of an indexed convolution"""
    cls = {1: ann.AnalogConv1d, 2: ann.AnalogConv2d, 3: ann.AnalogConv3d}[dim]
    kw = dict(use_indexed=True) if dim == 2 else {}
    c = cfg("analog", **MAPS[m])
    stride, padding = tup(p.get("stride", 1), dim), tup(p.get("padding", 0), dim)
    layer = cls(2, 2, p["k"], stride=stride, padding=padding, bias=False, rpu_config=c, **kw)
    t = next(layer.analog_tiles())
    ks = tup(p["k"], dim)
    w = H.tensor("w", 2, 2, *ks)
    x = H.tensor("x", 1, 2, *p["img"])
    layer.set_weights(w)
    layer.train()
    if H.sym:
        y = layer(x)
        d = H.tensor("d", *y.shape)
        fn, cx = last_ctx[-1]
        g = fn.backward(cx, d)[2]
    else:
        xx = x.clone().requires_grad_()
        y = layer(xx)
        d = H.tensor("d", *y.shape)
        y.backward(d)
        g = xx.grad
    lr = H.real("lr", gt=0, flo=0.01, fhi=0.5)
    t.set_learning_rate(lr)
    ctx = t.get_analog_ctx()
    before, _ = layer.get_weights()
    t.update_indexed(ctx.analog_input[0], ctx.analog_grad_output[0])
    after, _ = layer.get_weights()
    # linear maps: the gradient of <d, conv(x, w)>
    dx = [conv_ref(_unit(x, i), w, None, stride, padding, (1,) * dim) for i in range(x.numel())]
    H.eq("input gradient", g.reshape(-1), torch.stack([(d * q).sum() for q in dx]))
    dw = [conv_ref(x, _unit(w, i), None, stride, padding, (1,) * dim) for i in range(w.numel())]
    H.eq("weight step", (after - before).reshape(-1), torch.stack([(d * q).sum() for q in dw]) * (-lr))


def _unit(x, i):
    e = torch.zeros(x.numel(), dtype=x.dtype)
    e[i] = 1.0
    return e.reshape(x.shape)


@contract("C04", cases=[dict(scalecols=c) for c in (False, True)], samples=40, note="bounded: gradients of torch's own autograd, concrete only")
def autograd_torch_tile(H, scalecols):
    t = tile("torch", 3, 2, bias=True, weight_scaling_omega=0.7, weight_scaling_columnwise=scalecols)
    if H.sym:
        H.ensure("evaluated concretely", True)
        return
    w, b, x, d = H.tensor("w", 3, 2), H.tensor("b", 3), H.tensor("x", 2, 2), H.tensor("d", 2, 3)
    t.set_weights(w, b)
    t.train()
    xx = x.clone().requires_grad_()
    t(xx).backward(d)
    H.eq("input gradient", xx.grad, torch.matmul(d, w))
    H.eq("bias gradient", t.bias.grad, d.sum(0))
    ms = t.get_scales()
    g = t.tile.weight.grad
    H.eq("weight gradient times the scales", g * (1.0 if ms is None else ms.reshape(-1, 1)), torch.matmul(d.t(), x))
