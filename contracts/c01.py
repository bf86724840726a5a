"""C01 weight write / read back."""
import torch
from pyvc.harness import contract
from .common import cfg, tile, stored

KINDS = ["analog", "fp", "inference", "torch"]
MAPS = [dict(), dict(weight_scaling_omega="sym"), dict(weight_scaling_omega="sym", weight_scaling_columnwise=True),
        dict(weight_scaling_omega="sym", weight_scaling_columnwise=True, learn_out_scaling=True, out_scaling_columnwise=True),
        dict(weight_scaling_omega="sym", learn_out_scaling=True),
        dict(learn_out_scaling=True, out_scaling_columnwise=True),
        dict(weight_scaling_omega="sym", weight_scaling_lr_compensation=True)]


def cases():
    out = []
    for k in KINDS:
        for bias, digital in ((False, True), (True, True), (True, False)):
            if k == "torch" and bias and not digital:
                continue
            for i, m in enumerate(MAPS):
                # every mapping with the compiled tile, a spread over the others
                if k == "analog" or (i in (1, 3) and bias) or (i == 2 and not bias):
                    out.append(dict(kind=k, bias=bias, digital=digital, m=i))
    return out


def build(H, kind, bias, digital, m, shape=(3, 2), **extra):
    mp = dict(MAPS[m])
    if mp.get("weight_scaling_omega") == "sym":
        mp["weight_scaling_omega"] = H.real("omega", gt=0, flo=0.1, fhi=3)
    return tile(kind, shape[0], shape[1], bias=bias, digital_bias=digital, **mp, **extra)


def logical(H, t, digital, bias):
    """weights and bias that the documentation derives from the stored weights and the digital scales"""
    w = stored(t)
    s = t.get_scales()
    b = None
    if bias and not digital:
        w, b = w[:, :-1], w[:, -1]
    if s is not None:
        w = w * s.view(-1, 1)
        b = b * s if b is not None else None
    if bias and digital:
        b = t.bias.detach()
    return w, b


def check_scales(H, t, m):
    s = t.get_scales()
    mp = MAPS[m]
    if s is None:
        return
    n = 3 if (mp.get("weight_scaling_columnwise") and mp.get("weight_scaling_omega")) else 1
    if not (mp.get("out_scaling_columnwise")):
        H.ensure("scale shape", s.numel() in (n, 3) and s.numel() == n)
    H.ensure("scales non-zero", s != 0)


def check_read(H, t, w, b, digital, bias):
    rw, rb = t.get_weights()
    H.eq("weights read back", rw, w)
    if bias:
        H.eq("bias read back", rb, b)
    else:
        H.ensure("no bias", rb is None)
    lw, lb = logical(H, t, digital, bias)
    H.eq("scales times stored weights", lw, w)
    if bias:
        H.eq("bias is scaled stored bias", lb, b)


@contract("C01", cases=cases(), max_paths=400)
def write_read(H, kind, bias, digital, m):
    """write, read back, write again"""
    t = build(H, kind, bias, digital, m)
    w = H.tensor("w", 3, 2)
    b = H.tensor("b", 3) if bias else None
    w0, b0 = H.clone(w), H.clone(b) if bias else None
    t.set_weights(w, b)
    H.eq("argument unchanged", w, w0)
    check_read(H, t, w0, b0, digital, bias)
    check_scales(H, t, m)
    # reading does not alias the stored weights
    before = H.clone(stored(t))
    rw, rb = t.get_weights()
    rw.mul_(3.0).add_(1.0)
    H.eq("read back is a copy", stored(t), before)
    omega = t.rpu_config.mapping.weight_scaling_omega
    mp = MAPS[m]
    if mp.get("weight_scaling_omega"):
        H.le("stored magnitude at most omega", abs(stored(t)), omega)


@contract("C01", cases=[dict(kind=k, bias=bias, digital=digital, m=i) for k, bias, digital, i in [
    ("analog", True, False, 2), ("analog", True, True, 3), ("analog", False, True, 4), ("inference", True, False, 1),
    ("torch", True, True, 3), ("fp", True, False, 5), ("analog", True, True, 6)]], max_paths=400)
def rewrite(H, kind, bias, digital, m):
    """a second write on a tile that already carries scales (arbitrary learned scales as well)"""
    t = build(H, kind, bias, digital, m, shape=(2, 2))
    w1, w = H.tensor("w1", 2, 2), H.tensor("w", 2, 2)
    b = H.tensor("b", 2) if bias else None
    t.set_weights(w1, b)
    if t.out_scaling_alpha is not None:
        a = H.tensor("alpha", *t.out_scaling_alpha.shape)
        H.assume(a != 0)
        H.put(t, "out_scaling_alpha", a)
    lw, lb = logical(H, t, digital, bias)
    rw, rb = t.get_weights()
    H.eq("read back with learned scales", rw, lw)
    t.set_weights(w, b)
    check_read(H, t, w, b, digital, bias)


@contract("C01", cases=[dict(kind=k, bias=bias, digital=digital, m=i) for k, bias, digital, i in [
    ("analog", True, False, 2), ("analog", True, True, 0), ("inference", False, True, 3), ("torch", True, True, 1),
    ("analog", False, True, 4)]], max_paths=400)
def raw_access(H, kind, bias, digital, m):
    """apply_weight_scaling=False writes and reads the stored weights themselves"""
    t = build(H, kind, bias, digital, m, shape=(2, 2))
    w0, w = H.tensor("w0", 2, 2), H.tensor("w", 2, 2)
    b = H.tensor("b", 2) if bias else None
    t.set_weights(w0, b)
    s0 = t.get_scales()
    s0 = H.clone(s0) if s0 is not None else None
    t.set_weights(w, b, apply_weight_scaling=False)
    if s0 is not None:
        H.eq("scales untouched", t.get_scales(), s0)
    rw, rb = t.get_weights(apply_weight_scaling=False)
    H.eq("raw weights read back", rw, w)
    if bias:
        H.eq("raw bias read back", rb, b)
    H.eq("raw weights stored", stored(t)[:, :2], w)


@contract("C01", cases=[dict(kind=k, bias=bias, digital=digital, m=i) for k, bias, digital, i in [
    ("analog", True, False, 2), ("analog", True, True, 0), ("inference", False, True, 3), ("torch", True, True, 1),
    ("analog", False, True, 4)]], max_paths=500)
def remap(H, kind, bias, digital, m):
    """redistributing weights and scales keeps the logical weights and bounds the stored ones"""
    t = build(H, kind, bias, digital, m, shape=(2, 2))
    w = H.tensor("w", 2, 2)
    b = H.tensor("b", 2) if bias else None
    t.set_weights(w, b)
    om = H.real("new_omega", gt=0, flo=0.1, fhi=2)
    t.remap_weights(weight_scaling_omega=om)
    check_read(H, t, w, b, digital, bias)
    H.le("stored magnitude at most omega", abs(stored(t)), om)


@contract("C01", cases=[dict(kind="analog", bias=b) for b in (False, True)])
def layer_interface(H, kind, bias):
    """the layer passes weights through, for a linear layer with a 2-D weight matrix"""
    from aihwkit.nn import AnalogLinear
    c = cfg(kind, weight_scaling_omega=0.6, weight_scaling_columnwise=True, digital_bias=False)
    with H.setup():
        pass
    layer = AnalogLinear(2, 2, bias, c)
    w, b = H.tensor("w", 2, 2), (H.tensor("b", 2) if bias else None)
    layer.set_weights(w, b)
    rw, rb = layer.get_weights()
    H.eq("layer weights read back", rw, w)
    if bias:
        H.eq("layer bias read back", rb, b)
    else:
        H.ensure("no bias", rb is None)


@contract("C01", cases=[dict(kind=k, bias=bias, digital=digital, m=i) for k, bias, digital, i in [
    ("analog", True, False, 2), ("analog", True, True, 0), ("inference", False, True, 3), ("torch", True, True, 1),
    ("analog", False, True, 4), ("torch", False, True, 5)]], max_paths=500)
def unscaled_write(H, kind, bias, digital, m):
    """weights written without weight scaling read back as well, whatever scales the tile carried"""
    t = build(H, kind, bias, digital, m, shape=(2, 2))
    w0, w = H.tensor("w0", 2, 2), H.tensor("w", 2, 2)
    b = H.tensor("b", 2) if bias else None
    t.set_weights(w0, b)
    if t.out_scaling_alpha is not None:
        a = H.tensor("alpha", *t.out_scaling_alpha.shape)
        H.assume(a != 0)
        H.put(t, "out_scaling_alpha", a)
    t.set_weights(w, b, weight_scaling_omega=0.0)
    check_read(H, t, w, b, digital, bias)
    H.eq("stored unscaled", stored(t)[:, :2], w)


@contract("C01", cases=[dict(columnwise=c, learn=l) for c in (False, True) for l in (False, True)])
def scale_setters(H, columnwise, learn):
    """set_scales(s) makes get_scales() return s whatever scales were there before, so that read weights follow"""
    t = tile("analog", 2, 2, weight_scaling_omega=1.0, weight_scaling_columnwise=columnwise, learn_out_scaling=learn,
             out_scaling_columnwise=columnwise)
    w = H.tensor("w", 2, 2)
    t.set_weights(w)
    s = H.tensor("s", 2 if columnwise else 1)
    before = H.clone(stored(t))
    t.set_scales(s)
    H.eq("scales as set", t.get_scales(), s)
    H.eq("stored weights untouched", stored(t), before)
    rw, _ = t.get_weights()
    H.eq("weights follow scales", rw, before * s.view(-1, 1))
    f = H.real("f")
    t.set_scales(f)
    H.eq("scalar scale as set", t.get_scales(), f, shape=False)
    rw, _ = t.get_weights()
    H.eq("weights follow the scalar scale", rw, before * f)
