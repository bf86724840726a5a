"""C03 analog convolutions."""
import itertools
import torch
from pyvc.harness import contract
import aihwkit.nn as ann
from .common import cfg

PLAIN = {1: ann.AnalogConv1d, 2: ann.AnalogConv2d, 3: ann.AnalogConv3d}
MAPPED = {1: ann.AnalogConv1dMapped, 2: ann.AnalogConv2dMapped, 3: ann.AnalogConv3dMapped}


def tup(v, n):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * n


def conv_ref(x, w, b, stride, padding, dilation):
    """direct sum over kernel positions and channels; x: [N, C, *image], w: [O, C, *kernel]"""
    n = w.ndim - 2
    ks = tuple(w.shape[2:])
    img = tuple(x.shape[2:])
    out = tuple((img[i] + 2 * padding[i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1 for i in range(n))
    batches = []
    for nb in range(x.shape[0]):
        rows = []
        for o in range(w.shape[0]):
            vals = []
            for pos in itertools.product(*[range(v) for v in out]):
                acc = None
                for c in range(w.shape[1]):
                    for k in itertools.product(*[range(v) for v in ks]):
                        q = tuple(pos[i] * stride[i] + k[i] * dilation[i] - padding[i] for i in range(n))
                        if any(q[i] < 0 or q[i] >= img[i] for i in range(n)):
                            continue
                        t = w[(o, c) + k] * x[(nb, c) + q]
                        acc = t if acc is None else acc + t
                if acc is None:
                    acc = w[(o, 0) + (0,) * n] * 0.0
                vals.append(acc + b[o] if b is not None else acc)
            rows.append(torch.stack(vals).reshape(out))
        batches.append(torch.stack(rows))
    return torch.stack(batches)


def make(H, dim, mapped, ci, co, k, stride, padding, dilation, bias, indexed, kind, mapping):
    c = cfg(kind, **mapping)
    kw = dict(stride=stride, padding=padding, dilation=dilation, bias=bias, rpu_config=c)
    if indexed is not None and dim == 2:
        kw["use_indexed"] = indexed
    return (MAPPED if mapped else PLAIN)[dim](ci, co, k, **kw)


def run(H, dim, mapped, imgs, ci=2, co=2, k=2, stride=1, padding=0, dilation=1, bias=True, indexed=None, kind="analog",
        batch=1, **mapping):
    layer = make(H, dim, mapped, ci, co, k, stride, padding, dilation, bias, indexed, kind, mapping)
    ks = tup(k, dim)
    w = H.tensor("w", co, ci, *ks)
    b = H.tensor("b", co) if bias else None
    layer.set_weights(w, b)
    rw, rb = layer.get_weights()
    H.eq("weights read back", rw.reshape(w.shape), w)
    if bias:
        H.eq("bias read back", rb, b)
    layer.eval()
    for j, img in enumerate(imgs):
        x = H.tensor("x%d" % j, batch, ci, *img)
        y = layer(x)
        ref = conv_ref(x, w, b, tup(stride, dim), tup(padding, dim), tup(dilation, dim))
        H.eq("convolution of image %s" % (img,), y, ref)
    return layer, w, b


P1 = [dict(imgs=[(4,), (5,)]), dict(imgs=[(5,)], stride=2), dict(imgs=[(4,)], padding=1), dict(imgs=[(5,)], stride=2, padding=2, k=3),
      dict(imgs=[(4,)], bias=False, ci=3, k=2), dict(imgs=[(3,), (4,), (3,)], ci=1, batch=2), dict(imgs=[(4,)], k=1, co=3),
      dict(imgs=[(4,)], digital_bias=False), dict(imgs=[(3,)], digital_bias=False, padding=1)]
P2 = [dict(imgs=[(3, 3)]), dict(imgs=[(3, 4), (4, 3)], ci=1), dict(imgs=[(3, 4)], stride=(2, 1), ci=1), dict(imgs=[(2, 3)], padding=(1, 0)),
      dict(imgs=[(4, 3)], k=(2, 1), dilation=(2, 1), ci=1), dict(imgs=[(3, 3)], k=2, dilation=2, padding=1, ci=1),
      dict(imgs=[(3, 3)], k=(1, 2), stride=2, padding=(0, 1), bias=False), dict(imgs=[(2, 2)], k=2, co=3, batch=2),
      dict(imgs=[(2, 3)], digital_bias=False), dict(imgs=[(3, 2), (2, 3)], k=(2, 1), ci=2, digital_bias=False),
      dict(imgs=[(2, 2)], k=1, padding=(0, 1), stride=(1, 2)), dict(imgs=[(4, 3)], ci=1, k=(3, 2), stride=(1, 2), padding=(1, 1))]
P3 = [dict(imgs=[(2, 2, 2)], ci=1), dict(imgs=[(2, 3, 1), (1, 3, 2)], k=(1, 2, 1)), dict(imgs=[(2, 2, 3)], stride=(1, 2, 2), padding=(0, 1, 0), ci=1),
      dict(imgs=[(2, 1, 2)], k=(2, 1, 2), padding=(0, 0, 1), bias=False), dict(imgs=[(2, 2, 2)], k=(2, 1, 1), digital_bias=False, ci=1),
      dict(imgs=[(1, 2, 3)], k=(1, 2, 2), padding=(1, 0, 0), ci=1)]


def cases():
    out = []
    for mapped in (False, True):
        for p in P1:
            out.append(dict(dim=1, mapped=mapped, indexed=None, p=p))
        for p in P2:
            for ix in (False, True):
                out.append(dict(dim=2, mapped=mapped, indexed=ix, p=p))
        for p in P3:
            out.append(dict(dim=3, mapped=mapped, indexed=None, p=p))
    out = [c for c in out if not (c["mapped"] and c["p"].get("digital_bias") is False)]
    return out


@contract("C03", cases=cases(), samples=6)
def convolution(H, dim, mapped, indexed, p):
    run(H, dim, mapped, indexed=indexed, **p)


@contract("C03", cases=[dict(indexed=ix, mi=mi, mo=mo, ci=ci, dim=d) for d, ix in ((1, None), (2, False), (2, True))
                        for ci, mi, mo in ((3, 4, 2), (2, 2, 1), (3, 5, 0), (2, 0, 1), (4, 6, 2))], samples=6)
def mapped_convolution(H, indexed, mi, mo, ci, dim):
    """channels distributed over several tiles"""
    layer, w, b = run(H, dim, True, [(3,) + (1,) * (dim - 1), (2,) + (2,) * (dim - 1)], ci=ci, co=3, k=(2,) + (1,) * (dim - 1),
                      indexed=indexed, max_input_size=mi, max_output_size=mo)
    tiles = list(layer.analog_tiles())
    for t in tiles:
        H.ensure("tile within limits", (mi <= 0 or t.in_size <= mi) and (mo <= 0 or t.out_size <= mo))
    H.ensure("channels distributed", sum(layer.in_sizes) == ci and min(layer.in_sizes) >= 1 and max(layer.in_sizes) - min(layer.in_sizes) <= 1)
    H.ensure("outputs distributed", sum(layer.out_sizes) == 3 and max(layer.out_sizes) - min(layer.out_sizes) <= 1)


@contract("C03", cases=[dict(dim=d, indexed=ix, mapped=m, learn=l) for d, ix in ((1, None), (2, False), (2, True), (3, None))
                        for m in (False, True) for l in (False, True)], samples=6, max_paths=300)
def scaled_convolution(H, dim, indexed, mapped, learn):
    """with column-wise digital scales"""
    run(H, dim, mapped, [(2,) + (1,) * (dim - 1)], ci=1, co=2, k=(2,) + (1,) * (dim - 1), indexed=indexed,
        weight_scaling_omega=0.6, weight_scaling_columnwise=True, learn_out_scaling=learn, out_scaling_columnwise=True)


@contract("C03", cases=[dict(p=p, kind=k) for p in (P2[1], P2[3], P2[5]) for k in ("torch", "inference", "fp")], samples=6)
def other_tiles(H, p, kind):
    run(H, 2, False, kind=kind, indexed=False, **p)
    if kind != "torch":
        H.mode


@contract("C03", cases=[dict(pad=p, stride=s) for p in (0, 1) for s in (1, 2)], samples=6)
def unbatched(H, pad, stride):
    """an unfolded two-dimensional layer accepts a single image"""
    c = cfg("analog")
    layer = ann.AnalogConv2d(2, 2, (2, 1), stride=stride, padding=pad, rpu_config=c)
    w, b, x = H.tensor("w", 2, 2, 2, 1), H.tensor("b", 2), H.tensor("x", 2, 3, 2)
    layer.set_weights(w, b)
    layer.eval()
    ref = conv_ref(x.reshape(1, 2, 3, 2), w, b, (stride,) * 2, (pad,) * 2, (1, 1))
    H.eq("convolution of a single image", layer(x), ref[0])
