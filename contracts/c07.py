"""C07 input ranges."""
import torch
from pyvc.harness import contract, Ctx
from aihwkit.simulator.tiles.inference_torch import InputRangeForward
from aihwkit.simulator.configs import QuantizedTorchInferenceRPUConfig
from aihwkit.simulator.parameters.pre_post import InputRangeParameter
from aihwkit.simulator.parameters.enums import NoiseManagementType as NM, BoundManagementType as BM, RPUDataType
from .common import cfg, tile, linear

KINDS = ("analog", "inference", "torch", "custom", "fp")


def make(kind, learn=True, perfect=True, out=3, inp=2, **kw):
    m = kw.pop("mapping", {})
    if kind == "quantized":
        c = QuantizedTorchInferenceRPUConfig()
        c.runtime.data_type = RPUDataType.DOUBLE
        c.forward.is_perfect = True
        c.pre_post.periph_quant.n_bits = 0
        c.act_quant_config = None
        for k, v in m.items():
            setattr(c.mapping, k, v)
    else:
        c = cfg(kind, perfect, **m)
    ir = c.pre_post.input_range
    ir.enable, ir.learn_input_range = True, learn
    ir.init_from_data = 0
    for k, v in kw.items():
        if not hasattr(ir, k):
            raise AttributeError(k)
        setattr(ir, k, v)
    t = tile(kind, out, inp, config=c)
    return t, ir


def set_range(H, t, r):
    """the range parameter holds the value r"""
    v = torch.stack([r]) if isinstance(r, torch.Tensor) else H.const([1.0]) * r
    H.put(t, "input_range", v)


def record(t):
    seen = []
    orig = t.tile.forward

    def fwd(x, *a, **k):
        seen.append(x.clone() if isinstance(x, torch.Tensor) else x)
        return orig(x, *a, **k)
    t.tile.forward = fwd
    return seen


def clip(x, r):
    o = torch.ones_like(x) * r
    return torch.minimum(torch.maximum(x, -o), o)


@contract("C07", cases=[dict(kind=k, learn=l, mode=m, ms=s, nd=nd) for k in KINDS + ("quantized",) for l in (False, True)
                        for m in ("eval", "train") for s in (0, 1, 2) for nd in (1, 2, 3)
                        if not (nd != 2 and (s or not l)) and not (k == "quantized" and (nd != 2 or s == 2))])
def forward(H, kind, learn, mode, ms, nd):
    t, ir = make(kind, learn, mapping=dict() if not ms else dict(weight_scaling_omega=0.7, weight_scaling_columnwise=ms == 2,
                                                               learn_out_scaling=ms == 2, out_scaling_columnwise=ms == 2))
    w = H.tensor("w", 3, 2)
    t.set_weights(w)
    lw, _ = t.get_weights()
    r = H.real("r", gt=0.0, flo=0.1, fhi=3)
    set_range(H, t, r)
    getattr(t, mode)()
    seen = record(t)
    x = H.tensor("x", *{1: (2,), 2: (2, 2), 3: (2, 1, 2)}[nd], flo=-4, fhi=4)
    x0 = H.clone(x)
    y = t(x)
    H.ensure("one analog product", len(seen) == 1)
    H.within("value entering the product has magnitude at most one", -1.0, seen[0], 1.0)
    H.eq("value entering the product is the clipped input over the range", seen[0], clip(x0, r) / r)
    H.eq("output is the product of the clipped input", y, linear(clip(x0, r), lw.to(x.dtype)))
    H.eq("input unchanged", x, x0)
    H.eq("range unchanged", t.input_range, r, shape=False)
    if kind in ("analog", "inference", "fp", "custom") and nd == 2:
        seen_u = []
        ou = t.tile.update
        t.tile.update = lambda a, b, *k, **kw: seen_u.append(a) or ou(a, b, *k, **kw)
        t.update(x, H.tensor("d", 2, 3))
        H.eq("the update sees the same clipped and scaled input", seen_u[0], clip(x0, r) / r)


@contract("C07", cases=[dict(kind=k, learn=l, first=f) for k in ("inference", "torch", "custom") for l in (False, True) for f in (0, 1)])
def init_from_data(H, kind, learn, first):
    """running average of alpha times the standard deviation over the first batches; constant batches do not count"""
    t, ir = make(kind, learn, init_from_data=2, init_std_alpha=2.5)
    r = H.real("r", gt=0.0, flo=0.1, fhi=3)
    set_range(H, t, r)
    t.train()
    t.tile.set_weights(H.tensor("w", 3, 2))
    n, cur = 0, r
    for i in range(3):
        x = H.tensor("x%d" % i, 1, 2)
        if first and i == 0:
            x = x * 0.0
        t(x)
        s = x.std()
        if n < 2 and not (first and i == 0):
            H.assume(s > 0)
            cur = (cur * n + 2.5 * s) / (n + 1)
            n += 1
        H.eq("range after batch %d" % i, t.input_range.reshape(-1)[0], cur)
        H.ensure("range stays positive", t.input_range.reshape(-1)[0] > 0)
    t.eval()
    t(H.tensor("xe", 1, 2))
    H.eq("no change in evaluation mode", t.input_range.reshape(-1)[0], cur)
    H.eq("number of batches used", t.input_range_update_idx.reshape(-1)[0], float(n))


@contract("C07", cases=[dict(kind=k, shape=s, nan=i) for k in ("inference", "torch") for s in ((1, 1), (1, 2), (3, 1)) for i in (0, 1)],
          note="single element batches have no standard deviation")
def init_degenerate(H, kind, shape, nan):
    if H.sym:
        H.ensure("bounded: evaluated on concrete batches only", True)
        return
    t, ir = make(kind, True, init_from_data=3, inp=shape[1])
    t.train()
    t.tile.set_weights(H.tensor("w", 3, shape[1]))
    x = H.tensor("x", *shape)
    if nan:
        x = x * 0
    for _ in range(2):
        y = t(x)
        H.ensure("range stays positive and finite", bool((t.input_range > 0).all()) and bool(torch.isfinite(t.input_range).all()))
        H.ensure("output is finite", bool(torch.isfinite(y).all()))


@contract("C07", cases=[dict(kind=k, init=i) for k in ("inference", "torch", "custom") for i in (0, 5)])
def sign_restored(H, kind, init):
    """whatever the optimizer did to the parameter, the next training forward uses a positive range"""
    t, ir = make(kind, True, init_from_data=init)
    r = H.real("r", flo=-3, fhi=3)
    H.assume(abs(r) > 0)
    set_range(H, t, r)
    t.train()
    w = H.tensor("w", 3, 2)
    t.set_weights(w)
    lw, _ = t.get_weights()
    seen = record(t)
    x = torch.ones(2, 2, dtype=H.float_dtype) * H.real("x")
    y = t(x)
    a = abs(r)
    H.eq("range is the magnitude", t.input_range.reshape(-1)[0], a)
    H.within("value entering the product has magnitude at most one", -1.0, seen[0], 1.0)
    H.eq("output is the product of the clipped input", y, linear(clip(x, a), lw.to(x.dtype)))


def expected_gradient(H, x, d, r, ir):
    z = torch.zeros_like(d)
    g = torch.where(x >= r, torch.minimum(d, z), z).sum() - torch.where(x <= -r, torch.maximum(d, z), z).sum()
    if ir.gradient_relative:
        g = g * r
    g = g * ir.gradient_scale
    if ir.decay > 0:
        inside = torch.where(x.abs() < r, torch.ones_like(x), z).mean()
        g = g + torch.where(inside > ir.input_min_percentage, torch.ones_like(inside), torch.zeros_like(inside)) * (ir.decay * r)
    return g


GR = [dict(rel=a, scale=s, decay=d) for a in (False, True) for s in (1.0, 0.25) for d in (0.0, 0.125)]


@contract("C07", cases=[dict(kind=k, **g) for k in ("inference", "analog") for g in GR] + [dict(kind="function", **g) for g in GR])
def gradient(H, kind, rel, scale, decay):
    """gradient of the range: outward errors of clipped inputs, relative and scaled as configured, plus decay"""
    r = H.real("r", gt=0.0, flo=0.1, fhi=3)
    x = H.tensor("x", 1, 2, flo=-4, fhi=4)
    if kind == "function":
        ir = InputRangeParameter(gradient_relative=rel, gradient_scale=scale, decay=decay, input_min_percentage=0.5)
        d = H.tensor("d", 1, 2)
        ctx = Ctx()
        rt = H.const([1.0]) * r
        y = InputRangeForward.forward(ctx, x, rt, ir)
        H.eq("forward passes its input", y, x)
        dx, g, _ = InputRangeForward.backward(ctx, d)
        H.eq("input gradient passes", dx, d)
    else:
        t, ir = make(kind, True, out=1, gradient_relative=rel, gradient_scale=scale, decay=decay, input_min_percentage=0.5)
        w = H.tensor("w", 1, 2)
        t.tile.set_weights(w)
        set_range(H, t, r)
        t.train()
        ctx = Ctx()
        ctx.saved_analog_tensors = [x]
        t.joint_forward(x, False, ctx)
        do = H.tensor("d", 1, 1)
        t.input_range.grad = None
        d = t.backward(do, ctx)
        g1 = H.clone(t.input_range.grad)
        H.eq("input gradient passes", d, torch.matmul(do, w))
        H.eq("range gradient", g1.reshape(-1)[0], expected_gradient(H, x, d, r, ir))
        t.backward(do, ctx)
        H.eq("gradients accumulate", t.input_range.grad, g1 * 2.0)
        return
    H.eq("range gradient", g.reshape(-1)[0], expected_gradient(H, x, d, r, ir))


@contract("C07", cases=[dict(n=n, dec=d) for n in (0, 1, 3) for d in (0.0, 0.125)])
def output_clipping(H, n, dec):
    """manage_output_clipping: the range grows by the share of clipped outputs when too many outputs clip"""
    c = cfg("inference", False)
    c.forward.noise_management, c.forward.bound_management = NM.NONE, BM.NONE
    ir = c.pre_post.input_range
    ir.enable, ir.init_from_data, ir.decay, ir.manage_output_clipping, ir.output_min_percentage = True, 0, dec, True, 0.75
    t = tile("inference", 4, 2, config=c)
    r = H.real("r", gt=0.0, flo=0.1, fhi=3)
    set_range(H, t, r)
    x = H.tensor("x", 1, 2)
    ctx = Ctx()
    mask = torch.zeros(1, 4, dtype=torch.bool)
    mask[0, :n] = True
    ctx.saved_analog_tensors = [x, mask]
    d = H.tensor("d", 1, 2)
    t.input_range.grad = None
    t.post_backward(d, 1, ctx)
    g = t.input_range.grad.reshape(-1)[0]
    e = expected_gradient(H, x, d, r, ir)
    share = n / 4.0
    if 1 - share < 0.75:
        e = e - share * r
    H.eq("range gradient with output clipping", g, e)


@contract("C07", cases=[dict(kind=k, learn=l, tens=a) for k in ("inference", "torch") for l in (False, True) for a in (False, True)])
def set_input_range(H, kind, learn, tens):
    t, ir = make(kind, learn)
    v = H.real("v")
    if tens:
        t.set_input_range(H.const([1.0]) * v)
    else:
        t.set_input_range(v)
    H.eq("range is the magnitude of the value", t.input_range.reshape(-1)[0], abs(v))
    if not H.sym:
        H.ensure("kind of parameter kept", isinstance(t.input_range, torch.nn.Parameter) == learn)


@contract("C07", cases=[dict(typ=k, en=e) for k in ("Max", "MovingStd", "CacheQuantile", "MovingQuantile") for e in (False, True)], samples=4,
          note="bounded: calibration is evaluated on concrete data only")
def calibration(H, typ, en):
    if H.sym:
        H.ensure("bounded: calibration is evaluated on concrete data only", True)
        return
    import aihwkit.nn as ann
    from aihwkit.inference.calibration.calibration import calibrate_input_ranges, InputRangeCalibrationType as CT
    c = cfg("torch", False)
    c.forward.noise_management = NM.NONE
    c.pre_post.input_range.enable = en
    model = ann.AnalogSequential(ann.AnalogLinear(2, 3, rpu_config=c))
    w = H.tensor("w", 3, 2)
    model[0].set_weights(w, torch.zeros(3, dtype=torch.float64))
    data = [H.tensor("x%d" % i, 3, 2) for i in range(3)]
    for x in data:
        H.assume(bool((x.std() > 0) and (x.abs().sum(1) > 0).all()))
    calibrate_input_ranges(model, CT(typ), [((x,), {}) for x in data], quantile=1.0, max_samples=100)
    t = next(model.analog_tiles())
    r = t.input_range.reshape(-1)[0]
    allx = torch.cat(data)
    H.ensure("range positive and finite", bool(r > 0) and bool(torch.isfinite(r)))
    if typ == "Max":
        H.eq("range is the largest magnitude", r, allx.abs().max())
    elif typ == "CacheQuantile":
        H.eq("range is the quantile", r, allx.max().abs())
    elif typ == "MovingStd":
        a = t.rpu_config.pre_post.input_range.init_std_alpha
        H.eq("range is the mean of the scaled deviations", r, a * sum(x.std() for x in data) / 3)
    else:
        H.eq("range is the mean of the quantiles", r, sum(x.abs().max() for x in data) / 3)
    H.ensure("converters restored", not t.rpu_config.forward.is_perfect)
    H.eq("weights kept", t.get_weights()[0].to(torch.float64), w)
