"""C29 analog parameters: what optimizers and users see of the weights, and that the weights are not written through them."""
import copy
import math
import torch
from torch.utils._pytree import tree_map
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.parameters.enums import AnalogContextDataViewMode as Mode
from pyvc.harness import contract
from .common import cfg, tile, stored

KINDS = ("analog", "fp", "inference", "torch", "custom")
MAPS = [dict(), dict(weight_scaling_omega=0.7), dict(weight_scaling_omega=0.7, weight_scaling_columnwise=True),
        dict(weight_scaling_omega=0.7, weight_scaling_columnwise=True, learn_out_scaling=True, out_scaling_columnwise=True),
        dict(learn_out_scaling=True)]
BIAS = ((False, True), (True, True), (True, False))
OUT, IN = 3, 2


def combos(kinds=KINDS, maps=range(len(MAPS)), **extra):
    out = []
    for k in kinds:
        for m in maps:
            for bias, digital in BIAS:
                if k in ("torch", "custom") and bias and not digital:
                    continue
                if k not in ("analog", "torch") and (m + bias) % 2:
                    continue
                out.append(dict(kind=k, m=m, bias=bias, digital=digital, **extra))
    return out


def new(H, kind, m, bias, digital, square=False):
    """a tile with arbitrary stored weights and scales, and its parameter"""
    o = IN if square else OUT
    t = tile(kind, o, IN, bias=bias, digital_bias=digital, **MAPS[m])
    put_scales(H, t)
    if kind == "custom":
        t.get_analog_ctx()._replace_raw_data(t.tile._analog_weight.data)    # storage replaced by tile()
    w = H.tensor("w", o, IN + (1 if t.analog_bias else 0), flo=-1, fhi=1)
    t.tile.set_weights(H.clone(w))
    return t, t.get_analog_ctx(), w


def put_scales(H, t, tag=""):
    if t.mapping_scales is not None:
        s = H.tensor("ms" + tag, *t.mapping_scales.shape, flo=0.1, fhi=3)
        H.assume(s > 0)
        t.mapping_scales = H.clone(s)
    if t.out_scaling_alpha is not None:
        H.put(t, "out_scaling_alpha", H.tensor("alpha" + tag, *t.out_scaling_alpha.shape, flo=0.2, fhi=2))


def logical(t, w):
    """the weights of the layer: stored weights without the bias column, times the scales of their row"""
    w = w[:, :t.in_size]
    for s in (t.mapping_scales, t.out_scaling_alpha):
        if s is not None:
            w = w * s.reshape(-1, 1)
    return w


@contract("C29", cases=combos())
def data_view(H, kind, m, bias, digital):
    """reading the parameter gives the weights of the layer: after every change of weights or scales"""
    t, p, w = new(H, kind, m, bias, digital)
    H.ensure("returns the parameter", p.enable_data_view() is p)
    H.eq("data", p.data, logical(t, w))
    H.eq("data are the weights of the layer", p.data, t.get_weights()[0])
    H.eq("copy of the data", p.get_data(), logical(t, w))
    H.eq("sum", torch.sum(p), logical(t, w).sum())
    H.eq("product", p * 2, logical(t, w) * 2)
    H.eq("transposed", torch.t(p), logical(t, w).t())
    H.eq("square norm", (p * p).sum(), (logical(t, w) * logical(t, w)).sum())
    H.ensure("shape", tuple(p.shape) == (OUT, IN) and tuple(p.size()) == (OUT, IN))
    w2 = H.tensor("w2", *w.shape, flo=-1, fhi=1)
    t.tile.set_weights(H.clone(w2))
    H.eq("after a write", p.data, logical(t, w2))
    put_scales(H, t, "2")
    H.eq("after new scales", p.data, logical(t, w2))
    H.eq("stored weights", stored(t), w2)


@contract("C29", cases=combos(kinds=("analog", "fp", "inference"), maps=(0, 3)))
def update(H, kind, m, bias, digital):
    """the parameter follows an update of the tile"""
    t, p, w = new(H, kind, m, bias, digital)
    p.enable_data_view()
    t.set_learning_rate(0.5)
    n = t.in_size
    t.update(H.tensor("x", 1, n), H.tensor("d", 1, OUT))
    H.eq("data", p.data, logical(t, stored(t)))


@contract("C29", cases=[dict(op=o, m=m) for o in ("clip", "clip gauss", "remap", "remap rows") for m in (0, 1, 2)])
def processed(H, op, m):
    """the parameter of a python tile follows the processing of weights after a step"""
    from aihwkit.simulator.parameters.enums import WeightClipType as CT, WeightRemapType as RT
    t, p, w = new(H, "torch", m, False, True)
    p.enable_data_view()
    if op.startswith("clip"):
        t.rpu_config.clip.type = CT.LAYER_GAUSSIAN if "gauss" in op else CT.FIXED_VALUE
        t.rpu_config.clip.fixed_value, t.rpu_config.clip.sigma = (0.0, 1.0) if "gauss" in op else (0.25, 0.0)
    else:
        if t.mapping_scales is None:
            t.mapping_scales = torch.ones(OUT, dtype=w.dtype)
        H.assume(w.abs().max() > 0)
        t.rpu_config.remap.type = RT.CHANNELWISE_SYMMETRIC if "rows" in op else RT.LAYERWISE_SYMMETRIC
        if "rows" in op:
            H.assume(w.abs().max(1)[0] > 0)
            if m == 1:
                return H.ensure("needs a scale per row", True)
    t.post_update_step()
    H.eq("data", p.data, logical(t, stored(t)))
    H.eq("weights read", p.data, t.get_weights()[0])
    if op == "clip":
        H.eq("clipped", stored(t), torch.minimum(torch.maximum(w, 0 * w - 0.25), 0 * w + 0.25))


@contract("C29", cases=[dict(n=n) for n in (1, 2)])
def custom_update(H, n):
    """the parameter of the custom tile follows its updates"""
    t, p, w = new(H, "custom", 0, False, True)
    p.enable_data_view()
    t.set_learning_rate(0.5)
    for k in range(n):
        x, d = H.tensor("x%d" % k, 2, IN), H.tensor("d%d" % k, 2, OUT)
        t.update(x, d)
        w = w - 0.5 * torch.matmul(d.t(), x)
        H.eq("weights", stored(t), w)
        H.eq("data", p.data, w)


@contract("C29", cases=combos(square=False) + combos(kinds=("analog", "torch"), maps=(0,), square=True))
def buffer(H, kind, m, bias, digital, square):
    """the buffer: zero, of the shape of the weights, independent of the tile both ways"""
    t, p, w = new(H, kind, m, bias, digital, square)
    o = IN if square else OUT
    H.ensure("returns the parameter", p.enable_buffer() is p)
    H.ensure("shape", tuple(p.shape) == tuple(p.data.shape) == (o, IN))
    H.eq("zero", p.data, torch.zeros(o, IN))
    v = H.tensor("v", o, IN)
    p.data.add_(v)
    H.eq("written", p.data, v)
    H.eq("tile not written", stored(t), w)
    with torch.no_grad():
        p.add_(v)
        torch.Tensor.mul_(p, 2)
    H.eq("written through the parameter", p.data, v * 4)
    H.eq("read through the parameter", p + 1, v * 4 + 1)
    H.eq("read out", p.get_data(), v * 4)
    H.eq("tile not written through the parameter", stored(t), w)
    w2 = H.tensor("w2", *w.shape, flo=-1, fhi=1)
    t.tile.set_weights(H.clone(w2))
    if not H.sym:
        p._replace_raw_data(t._get_tile_weights_ref())
        p.to("cpu")
    H.eq("kept when the tile is written", p.data, v * 4)
    p.enable_data_view()
    H.eq("weights after leaving the buffer", p.data, logical(t, w2))
    p.enable_buffer()
    H.eq("zero again", p.data, torch.zeros(o, IN))


@contract("C29", cases=combos(kinds=("analog", "fp")))
def gradient_steps(H, kind, m, bias, digital):
    """the mode has no influence on the training of the tile, and training none on the buffer"""
    t, p, w = new(H, kind, m, bias, digital)
    x = H.tensor("x", 2, IN)
    d = H.tensor("d", 2, OUT)
    res = []
    for mode in Mode:
        t.tile.set_weights(H.clone(w))
        p.data_view_mode = mode
        opt = AnalogSGD([p], lr=0.5)
        opt.zero_grad()
        opt.regroup_param_groups()
        t.train()
        y = t(x) if H.sym else t(x.clone().requires_grad_())
        if H.sym:
            from pyvc.harness import last_ctx
            fn, c = last_ctx[-1]
            fn.backward(c, d)
        else:
            y.backward(d)
        H.ensure("recorded (%s)" % mode.name, p.has_gradient() and len(p.analog_input) == 1)
        t.set_learning_rate(0.5)
        opt.step()
        res.append(stored(t).clone())
        H.ensure("records used (%s)" % mode.name, not p.has_gradient())
        if mode == Mode.BUFFER:
            H.eq("buffer", p.data, torch.zeros(OUT, IN))
    for r, mode in zip(res[1:], list(Mode)[1:]):
        H.eq("stored weights (%s)" % mode.name, r, res[0])


# ---------------------------------------------------------------- real tensors: every operation of torch
def real_tile(H, kind, m, bias, digital):
    t, p, w = new(H, kind, m, bias, digital)
    return t, p, stored(t).clone()


SKIP = {"__class__", "__init__", "__new__", "__setattr__", "__delattr__", "__getattribute__", "__init_subclass__", "__subclasshook__",
        "__setstate__", "__del__", "__dir__", "__doc__", "__module__", "__dict__", "__torch_function__", "__torch_dispatch__", "backward",
        "cuda", "xpu", "ipu", "mtia", "pin_memory", "share_memory_", "register_hook", "register_post_accumulate_grad_hook", "record_stream",
        "module_load", "_make_subclass", "_make_wrapper_subclass", "_make_dtensor", "as_subclass", "__sizeof__", "__hash__", "__weakref__",
        "__format__", "__repr__", "__str__", "_typed_storage", "__dlpack__", "new", "data_ptr", "__reduce__", "__reduce_ex__", "_reduce_ex_internal",
        "__deepcopy__", "__cuda_array_interface__", "_cdata", "_version", "is_shared", "refine_names", "_clear_non_serializable_cached_data",
        "exponential_", "geometric_", "log_normal_", "cauchy_", "unflatten", "_use_count", "__array_wrap__", "retain_grad", "storage",
        "untyped_storage", "_post_accumulate_grad_hooks", "numpy_force", "to_mkldnn", "_storage", "__contains__", "type", "type_as"}


def names():
    ignored = {getattr(f, "__name__", "") for f in torch.overrides.get_ignored_functions() if getattr(torch.Tensor, getattr(f, "__name__", ""), None) is f}
    out = []
    for n in sorted(dir(torch.Tensor)):
        f = getattr(torch.Tensor, n)
        if n in SKIP or n in ignored or not callable(f):
            continue
        out.append(n)
    return out


def arguments(v):
    """argument lists tried for a method of a tensor v [3, 2]"""
    i = torch.tensor([[0, 1], [1, 0], [0, 0]])
    mask = torch.tensor([[True, False], [False, True], [True, True]])
    o = torch.full_like(v, 2.0)
    return [(), (0,), (1.0,), (2, 0), (0, 1), (o,), (o, o), (o.t(),), (0, i), (0, i, o), (mask,), (mask, 1.0), (mask, o), (1, 0), (0, torch.tensor([0, 1])),
            (0, torch.tensor([0, 1]), 5.0), ((torch.tensor([0]), torch.tensor([1])), torch.tensor(3.0)), (0, 0, 1), ((3, 2), (2, 1)), ((2, 3),),
            (torch.float64,), (0, torch.tensor([0, 1, 2]), o)]


def tensors(r):
    out = []
    tree_map(lambda a: out.append(a) if isinstance(a, torch.Tensor) else None, r)
    return out


def value(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("error", type(e))


def alike(a, b):
    """equal results (tensors by shape and contents)"""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return (type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype
                and (torch.equal(a, b) or torch.allclose(a.double(), b.double(), equal_nan=True) if not a.is_complex() else torch.equal(a, b)))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if type(a).__module__ == "numpy":
        import numpy as np
        return type(a) is type(b) and np.array_equal(a, b)
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


PART = 8


def part(k):
    ns = names()
    return [n for i, n in enumerate(ns) if i % PART == k]


def writes_into(r):
    """write into everything that was returned"""
    for x in tensors(r):
        x = x.detach() if type(x).__name__ != "PlaceholderDataView" else x
        for how in (lambda: x.fill_(7), lambda: x.__setitem__(Ellipsis, 7), lambda: x.data.fill_(7), lambda: x.numpy().fill(7)):
            value(how)


@contract("C29", cases=[dict(kind=k, m=m, mode=mo.name, k=j) for k, m in (("fp", 0), ("torch", 0), ("analog", 1)) for mo in Mode for j in range(PART)], samples=1)
def not_written(H, kind, m, mode, k):
    """no operation on the parameter, on its data or on what they return writes the weights of the tile"""
    if H.sym:
        H.ensure("bounded: every method of torch.Tensor with the listed arguments, on one random tile", True)
        return
    t, p, w = real_tile(H, kind, m, False, True)
    p.data_view_mode = Mode[mode]
    n = 0
    for name in part(k):
        for a in arguments(torch.zeros(OUT, IN)):
            for target in (lambda: p, lambda: p.data, lambda: p.detach(), lambda: p.get_data()):
                st, obj = value(target)
                if st != "ok":
                    continue
                with torch.no_grad():
                    st, r = value(lambda: getattr(obj, name)(*a))
                    if st == "ok":
                        writes_into(r)
                        n += 1
                if not torch.equal(stored(t), w):
                    t.tile.set_weights(w)
                    H.ensure("not written by %s%s" % (name, tuple(type(x).__name__ for x in a)), False)
                if p._raw_data().shape != w.shape or p._raw_data().data_ptr() != t._get_tile_weights_ref().data_ptr():
                    H.ensure("still the parameter of the tile after %s" % name, False)
    H.ensure("operations carried out: %s" % (n > 0 or mode == "PLACEHOLDER"), n > 0 or mode == "PLACEHOLDER")


@contract("C29", cases=[dict(kind=k, m=m, mode=mo, how=h) for k, m in (("fp", 0), ("torch", 0), ("analog", 1)) for mo in ("PLACEHOLDER", "DATA_VIEW")
                        for h in ("parameter", "data")], samples=1)
def write_refused(H, kind, m, mode, how):
    """in-place operations, output arguments and assignments are refused with an error and change nothing"""
    if H.sym:
        H.ensure("bounded: the listed operations, on one random tile", True)
        return
    t, p, w = real_tile(H, kind, m, False, True)
    p.data_view_mode = Mode[mode]
    one = torch.ones(OUT, IN)
    obj = (lambda: p) if how == "parameter" else (lambda: p.data)
    ops = dict(
        setitem=lambda: obj().__setitem__(0, 1.0), setitem2=lambda: obj().__setitem__((0, 0), 1.0), setslice=lambda: obj().__setitem__(slice(None), one),
        data=lambda: setattr(p, "data", one), out=lambda: torch.add(one, one, out=obj()), out_mul=lambda: torch.mul(one, 2.0, out=obj()),
        out_of_max=lambda: torch.max(torch.stack([one, one]), 0, out=(obj(), torch.zeros(OUT, IN, dtype=torch.long))),
        out_clamp=lambda: torch.clamp(one, 0, 0.5, out=obj()), iadd=lambda: obj().__iadd__(1.0), imul=lambda: obj().__imul__(2.0),
        normal=lambda: torch.nn.init.normal_(obj()), zeros=lambda: torch.nn.init.zeros_(obj()), relu=lambda: torch.relu_(obj()))
    for n in names():
        if n.endswith("_") and not n.endswith("__") and n not in ("requires_grad_", "detach_", "rename_", "resize_as_sparse_"):
            for a in arguments(one):
                plain = torch.full((OUT, IN), 0.5)
                if value(lambda: getattr(plain, n)(*a))[0] == "ok":
                    ops["%s %d" % (n, len(a))] = lambda n=n, a=a: getattr(obj(), n)(*a)
    for name, f in ops.items():
        with torch.no_grad():
            st, r = value(f)
        H.ensure("refused: " + name, st == "error" and r is RuntimeError)
        H.ensure("nothing written: " + name, torch.equal(stored(t), w))


@contract("C29", cases=[dict(kind=k, m=m, k=j) for k, m in (("fp", 0), ("torch", 3), ("analog", 1)) for j in range(PART)], samples=1)
def placeholder(H, kind, m, k):
    """the placeholder gives the shape, type and device; whatever depends on values raises RuntimeError"""
    if H.sym:
        H.ensure("bounded: every method of torch.Tensor with the listed arguments, on one random tile", True)
        return
    t, p, w = real_tile(H, kind, m, k % 2 == 1, k % 4 != 3 or kind == "torch")
    H.ensure("default mode", p.data_view_mode == Mode.PLACEHOLDER)
    u = torch.full((OUT, IN), 0.25, dtype=p.dtype)
    v = torch.arange(1.0, 1 + OUT * IN).reshape(OUT, IN).to(p.dtype) / 16
    for name in part(k):
        for a in arguments(v):
            with torch.no_grad():
                ra, rb = (value(lambda x=x: getattr(x.clone(), name)(*a)) for x in (u, v))
                if ra[0] != "ok" or rb[0] != "ok":
                    continue
                depends = not alike(ra[1], rb[1])
                if not depends:
                    continue
                for how, obj in (("parameter", p), ("data", p.data), ("detached", p.detach())):
                    if name == "to" and obj is p:
                        continue    # moves the parameter itself
                    st, r = value(lambda: getattr(obj, name)(*a))
                    if st == "ok" and (r is p or type(r).__name__ == "PlaceholderDataView"):
                        continue    # still no values
                    H.ensure("%s of the %s is refused" % (name, how), st == "error" and r is RuntimeError)
    for name in ("T", "mT", "H", "mH", "real", "imag"):
        for how, obj in (("parameter", p), ("data", p.data), ("data of the data", p.data.data), ("detached", p.detach())):
            st, r = value(lambda: getattr(obj, name))
            H.ensure("%s of the %s is refused" % (name, how), st == "error" and r is RuntimeError)
    st, r = value(p.get_data)
    H.ensure("get_data is refused", st == "error" and r is RuntimeError)
    for f in (torch.abs, torch.norm, torch.sum, torch.flatten, torch.clone, lambda x: torch.stack([x, x]), lambda x: torch.cat([x]),
              lambda x: torch.nn.functional.linear(torch.ones(1, IN, dtype=x.dtype), x), lambda x: x[0], lambda x: x + 1, lambda x: 1 - x, lambda x: x @ x.t(), float, lambda x: list(x), bool,
              lambda x: torch.where(x > 0, 1, 0), lambda x: torch.equal(x, x), lambda x: x.tolist(), lambda x: x.numpy()):
        for obj in (p, p.data):
            st, r = value(lambda: f(obj))
            H.ensure("function is refused", st == "error" and r is RuntimeError)
    H.ensure("weights as before", torch.equal(stored(t), w))


@contract("C29", cases=combos(maps=(0, 3)), samples=1)
def metadata(H, kind, m, bias, digital):
    """shape, type and device are those of the weights in each mode; the gradient and its flag are those of the parameter"""
    if H.sym:
        H.ensure("bounded: the listed attributes, on one random tile", True)
        return
    t, p, w = real_tile(H, kind, m, bias, digital)
    ref = torch.empty(OUT, IN, dtype=t.get_weights()[0].dtype if kind != "custom" else p.dtype)
    for mode in Mode:
        for spelled in (mode, mode.value, mode.name, mode.name.lower()):
            p.data_view_mode = spelled
            H.ensure("mode %s" % spelled, p.data_view_mode == mode)
        for o, how in ((p, "parameter"), (p.data, "data")):
            for n in ("shape", "dtype", "device", "ndim", "layout", "is_cuda", "is_sparse"):
                H.ensure("%s of the %s in %s" % (n, how, mode.name), getattr(o, n) == getattr(ref, n))
            for n in ("dim", "size", "numel", "nelement", "element_size", "is_floating_point", "is_complex", "ndimension", "__len__", "stride", "is_contiguous",
                      "storage_offset"):
                H.ensure("%s of the %s in %s" % (n, how, mode.name), getattr(o, n)() == getattr(ref, n)())
        H.ensure("is a parameter and a leaf", isinstance(p, torch.nn.Parameter) and p.is_leaf and p.grad_fn is None)
        H.ensure("needs gradient", p.requires_grad is True)
        H.ensure("flag off", p.requires_grad_(False) is p and p.requires_grad is False)
        H.ensure("flag on", p.requires_grad_() is p and p.requires_grad is True)
        p.requires_grad = False
        H.ensure("flag assigned", p.requires_grad is False)
        p.requires_grad = True
        H.ensure("no gradient yet", p.grad is None)
        g = torch.ones_like(t._get_tile_weights_ref())
        p.grad = g
        H.ensure("gradient kept", p.grad is not None and torch.equal(p.grad, g))
        p.grad = None
        H.ensure("completion lists the tensor methods", {"shape", "size", "data_view_mode", "norm"} <= set(dir(p)))
    for bad in ("view", "", 1, None, "DATA"):
        st, r = value(lambda: setattr(p, "data_view_mode", bad))
        H.ensure("other modes are refused", st == "error" and r is ValueError)
    H.ensure("mode unchanged by a refusal", p.data_view_mode == list(Mode)[-1])
    H.ensure("weights as before", torch.equal(stored(t), w))


@contract("C29", cases=[dict(kind=k, m=m, mode=mo.name, bias=b) for k in ("analog", "fp", "inference", "torch") for m in (0, 3) for mo in Mode for b in (False, True)], samples=1)
def checkpoint(H, kind, m, mode, bias):
    """saving, loading, copying and moving in each mode keep the weights"""
    if H.sym:
        H.ensure("bounded: one random layer", True)
        return

    def layer():
        c = cfg(kind, digital_bias=kind == "torch", **MAPS[m])
        return AnalogLinear(IN, OUT, bias=bias, rpu_config=c)
    a, b = layer(), layer()
    ta, tb = a.analog_module, b.analog_module
    pa, pb = ta.get_analog_ctx(), tb.get_analog_ctx()
    w = stored(ta).clone()
    ref = a.get_weights()[0].clone()
    other = stored(tb).clone()
    pa.data_view_mode = mode
    pb.data_view_mode = mode
    sd = a.state_dict()
    H.ensure("saving leaves the weights", torch.equal(stored(ta), w))
    b.load_state_dict(copy.deepcopy(sd))
    pb = tb.get_analog_ctx()
    H.ensure("loaded", torch.equal(stored(tb), w) and torch.equal(b.get_weights()[0], ref))
    H.ensure("loading leaves the source", torch.equal(stored(ta), w))
    pb.enable_data_view()
    H.ensure("data are the loaded weights", torch.equal(pb.data.as_subclass(torch.Tensor), b.get_weights()[0].to(pb.dtype)))
    c = copy.deepcopy(a)
    tc = c.analog_module
    H.ensure("copied", torch.equal(stored(tc), w))
    pc = tc.get_analog_ctx()
    H.ensure("copy has its own parameter", pc is not pa and pc.analog_tile is tc and ta.get_analog_ctx().analog_tile is ta)
    tc.tile.set_weights(torch.zeros_like(w))
    H.ensure("copies are independent", torch.equal(stored(ta), w))
    pc.enable_data_view()
    H.ensure("the parameter of the copy shows the copy", float(abs(pc.data).max()) == 0.0)
    a.to("cpu")
    a.cpu()
    H.ensure("moving to the same device keeps all", torch.equal(stored(ta), w) and ta.get_analog_ctx().data_view_mode == Mode[mode])
    n = [q for q in a.parameters() if q is ta.get_analog_ctx()]
    H.ensure("listed once", len(n) == 1)
    a.requires_grad_(False)
    H.ensure("frozen", ta.get_analog_ctx().requires_grad is False)
