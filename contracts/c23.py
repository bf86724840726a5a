"""C23 digital quantizers, range estimators and their manager."""
import copy
import itertools
import math
import numpy as np
import torch
from torch import nn
from pyvc.harness import contract
from contracts.c24 import refused
from aihwkit.simulator.digital_low_precision.quantizers import AsymmetricUniformQuantizer, SymmetricUniformQuantizer, QMethods, QuantizerNotInitializedError
from aihwkit.simulator.digital_low_precision.range_estimators import (
    AllMinMaxEstimator, CurrentMinMaxEstimator, RunningMinMaxEstimator, MSE_Estimator, CrossEntropyEstimator, OptMethod, RangeEstimators)
from aihwkit.simulator.tiles.utils import UniformQuantize
from aihwkit.nn.low_precision_modules.quantized_base_modules import QuantConv2d, QuantLinear
from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager, Qstates

KIND = dict(sym=SymmetricUniformQuantizer, asym=AsymmetricUniformQuantizer)


def ranges(H, n, signed, name="r", wide=True):
    """arbitrary valid ranges: n channels (None: one for the tensor); "mixed": one channel has no negative values"""
    if signed == "mixed":
        a, b = ranges(H, 1, False, name + "0"), ranges(H, 1, True, name + "1")
        return tuple(torch.cat([x, y]) for x, y in zip(a, b))
    shape = (n,) if n else (1,)
    lo = H.tensor(name + ".min", *shape, flo=-2, fhi=-0.05) if signed else H.tensor(name + ".min", *shape, flo=0, fhi=0.5)
    hi = H.tensor(name + ".max", *shape, flo=0.05, fhi=2)
    H.assume(lo < 0 if signed else lo >= 0)
    H.assume(hi > 0.001)
    H.assume(lo <= hi)
    return lo, hi


def make(H, kind, bits, domain, n=None, axis=None):
    """a quantizer that had another range before"""
    with H.setup():
        q = KIND[kind](bits, scale_domain=domain, per_channel=n is not None and axis is None, axis=axis).double()
        one = torch.ones(n if n else 1, dtype=H.float_dtype)
        q.set_quant_range(-0.5 * one, 1.5 * one)
        if H.sym:
            fields = {k: getattr(q, k).detach().tolist() for k in ("_delta", "_zero_float") if getattr(q, k, None) is not None}
    if H.sym:
        for k, v in fields.items():
            H.put(q, k, torch.tensor(v, dtype=H.float_dtype))
    return q


def grid_limits(kind, bits, signed):
    if kind == "asym":
        return 0, 2 ** bits - 1
    return (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)


SHAPES = {None: (3,), "channel": (2, 2), "axis1": (1, 2, 2)}
CASES = [dict(kind=k, bits=b, signed=s, domain=d, per=p) for k in KIND for b in (2, 3, 8) for s in (True, False) for d in ("linear", "log") for p in SHAPES
         if not (p and b == 3)]
MIXED = [dict(kind=k, bits=b, signed="mixed", domain=d, per=p) for k in KIND for b in (2, 8) for d in ("linear", "log") for p in ("channel", "axis1")]


@contract("C23", cases=CASES + MIXED, samples=4, tol=1e-6)
def set_range(H, kind, bits, signed, domain, per):
    """the representable range covers the given range with the full number of steps, whatever the range was before"""
    n = None if per is None else 2
    q = make(H, kind, bits, domain, n, 1 if per == "axis1" else None)
    lo, hi = ranges(H, n, signed)
    lo0, hi0 = H.clone(lo), H.clone(hi)
    q.set_quant_range(lo, hi)
    H.eq("the given minimum is not modified", lo, lo0)
    H.eq("the given maximum is not modified", hi, hi0)
    a, b = grid_limits(kind, bits, signed)
    H.ensure("smallest integer", float(q.int_min) == a)
    H.ensure("largest integer", float(q.int_max) == b)
    H.ensure("initialised", bool(q.is_initialized))
    z = torch.zeros_like(lo)
    m = torch.minimum(lo, z)
    if kind == "asym":
        H.eq("scale", q.scale.flatten(), (hi - m) / b, tol=1e-6)
        zp = q.zero_point.flatten()
        H.le("zero point from below", 0.0 * zp, zp)
        H.le("zero point from above", zp, b + 0.0 * zp)
        H.grid("zero point is an integer", zp, 1.0 + 0.0 * zp)
        H.within("zero point is the nearest one", -0.5 * q.scale.flatten(), zp * q.scale.flatten() + m, 0.5 * q.scale.flatten(), tol=1e-6)
        H.eq("length of the range", (q.x_max - q.x_min).flatten(), hi - m, tol=1e-6)
    else:
        big = torch.maximum(m.abs(), hi)
        H.eq("scale", q.scale.flatten(), big / b, tol=1e-6)
        H.eq("largest value", q.x_max.flatten(), big, tol=1e-6)
        H.le("smallest value", q.x_min.flatten(), m, tol=1e-6)
        H.eq("zero point", q.zero_point, 0.0)


def prepared(H, kind, bits, signed, domain, per):
    """a quantizer with arbitrary scale and zero point (any state set_quant_range can leave behind)"""
    n = None if per is None else 2
    q = make(H, kind, bits, domain, n, 1 if per == "axis1" else None)
    sign = torch.ones(n if n else 1, dtype=H.float_dtype)
    q.set_quant_range(-sign if signed else 0.0 * sign, sign)
    if domain == "log":
        d = H.tensor("delta", n if n else 1, flo=-3, fhi=-0.3)
    else:
        d = H.tensor("delta", n if n else 1, flo=0.05, fhi=0.7)
        H.assume(d > 0.001)
    H.put(q, "_delta", H.clone(d))
    if kind == "asym":
        a, b = grid_limits(kind, bits, signed)
        zf = H.tensor("zero", n if n else 1, flo=0, fhi=b)
        H.assume(zf >= 0)
        H.assume(zf <= float(b))
        H.put(q, "_zero_float", H.clone(zf))
    return q


def spread(q, per, v):
    return v.reshape(dict(channel=(2, 1), axis1=(1, 2, 1)).get(per, (1,)))


def same_scale(H, q, x):
    return q.scale + 0.0 * x


@contract("C23", cases=CASES, samples=6, tol=1e-6)
def quantize(H, kind, bits, signed, domain, per):
    """values on the grid, in the representable range, nearest within it, zero kept"""
    q = prepared(H, kind, bits, signed, domain, per)
    x = H.tensor("x", *SHAPES[per], flo=-3, fhi=3)
    x0 = H.clone(x)
    y = q(x)
    H.eq("the given tensor is not modified", x, x0)
    H.ensure("shape", tuple(y.shape) == tuple(x.shape))
    s = q.scale + 0.0 * x
    lo, hi = q.x_min + 0.0 * x, q.x_max + 0.0 * x
    a, b = grid_limits(kind, bits, signed)
    H.grid("multiple of the scale", y, s, tol=1e-6)
    H.within("in the representable range", lo, y, hi, tol=1e-6)
    H.eq("number of steps", hi - lo, (b - a) * s, tol=1e-6)
    for xi, yi, li, hi_, si in zip(*(v.flatten() for v in (x, y, lo, hi, s))):
        inside = (xi >= li) & (xi <= hi_)
        H.within("at most half a step off inside the range", -0.5 * si, yi - xi, 0.5 * si, tol=1e-6, when=inside)
        H.eq("smallest value below the range", yi, li, tol=1e-6, when=xi < li)
        H.eq("largest value above the range", yi, hi_, tol=1e-6, when=xi > hi_)
    z = q(0.0 * x)
    H.eq("zero is kept", z, 0.0 * x)


PLAIN = [c for c in CASES if c["per"] is None]


@contract("C23", cases=CASES, samples=4, tol=1e-6)
def idempotent(H, kind, bits, signed, domain, per):
    """every representable value (on the grid, in the range) is kept, so quantizing twice is quantizing once"""
    q = prepared(H, kind, bits, signed, domain, per)
    a, b = grid_limits(kind, bits, signed)
    x = H.tensor("x", *SHAPES[per], flo=-3, fhi=3)
    y = q(x)
    if not H.sym:
        H.eq("twice is once", q(y), y, tol=1e-6)
    k = torch.stack([0.0 * x.flatten()[0] + H.int("k%d" % i, a, b) for i in range(x.numel())]).reshape(x.shape)
    v = q.scale * (k - q.zero_point)
    H.eq("representable values are kept", q(v), v, tol=1e-6)
    H.ensure("shape", tuple(v.shape) == tuple(x.shape))


@contract("C23", cases=PLAIN, samples=10, tol=1e-6)
def monotone(H, kind, bits, signed, domain, per):
    """a larger value never gets the smaller result"""
    q = prepared(H, kind, bits, signed, domain, per)
    x = H.tensor("x", 2, flo=-3, fhi=3)
    H.assume(x[0] <= x[1])
    y = q(x)
    H.le("order kept", y[0], y[1], tol=1e-6)


@contract("C23", cases=[dict(c, nd=nd) for c in CASES if c["per"] and c["bits"] == 2 for nd in ((2, 3, 4) if c["per"] == "channel" else (2, 3))], samples=4, tol=1e-6)
def channels(H, kind, bits, signed, domain, per, nd):
    """each channel is quantized with its own range as if it was alone, also after inputs with other dimensions"""
    axis = 1 if per == "axis1" else None
    dim = axis or 0
    q = make(H, kind, bits, domain, 2, axis)
    lo, hi = ranges(H, 2, signed)
    q.set_quant_range(lo, hi)
    shape = {0: (2, 1, 1, 1), 1: (1, 2, 1, 1)}[dim][:nd]
    other = {0: (2, 2, 1), 1: (2, 2, 1, 1)}[dim]
    q(torch.zeros(other, dtype=H.float_dtype))
    x = H.tensor("x", *shape, flo=-3, fhi=3)
    y = q(x)
    H.ensure("shape", tuple(y.shape) == tuple(shape))
    for c in range(2):
        p = make(H, kind, bits, domain)
        p.set_quant_range(lo[c:c + 1], hi[c:c + 1])
        H.eq("channel %d" % c, y.select(dim, c), p(x.select(dim, c)), tol=1e-6)


@contract("C23", cases=[c for c in CASES if c["bits"] == 2], samples=4, tol=1e-6)
def history(H, kind, bits, signed, domain, per):
    """a quantizer whose range was set before, was used, and was reset behaves as a new one"""
    n, axis = None if per is None else 2, 1 if per == "axis1" else None
    lo, hi = ranges(H, n, signed)
    lo2, hi2 = ranges(H, n, not signed, "o")
    x = H.tensor("x", *SHAPES[per], flo=-3, fhi=3)
    p = make(H, kind, bits, domain, n, axis)
    p.set_quant_range(lo, hi)
    y = p(x)
    q = make(H, kind, bits, domain, n, axis)
    q.set_quant_range(lo2, hi2)
    q(x)
    q.set_quant_range(lo, hi)
    H.eq("range set again", q(x), y)
    if not H.sym:
        q.set_quant_range(lo2, hi2)
        q.make_range_trainable()
        q.set_quant_range(lo, hi)
        H.eq("range set while it is learned", q(x).detach(), y)
        H.ensure("it is still learned", q._delta.requires_grad)
        r = make(H, kind, bits, domain, n, axis)
        r.load_state_dict(p.state_dict())
        H.eq("state loaded", r(x), y)
        fresh = KIND[kind](bits, scale_domain=domain, per_channel=n is not None and axis is None, axis=axis)
        fresh.load_state_dict(p.state_dict())
        H.eq("state loaded into a new quantizer", fresh(x), y, tol=1e-6)
        p.set_quant_range(lo2, hi2)
        H.eq("the loaded state does not follow the saved quantizer", r(x), y)
        d = copy.deepcopy(r)
        r.set_quant_range(lo2, hi2)
        H.eq("the copy does not follow the original", d(x), y)
        q.reset()
        H.ensure("reset", not bool(q.is_initialized))
        H.ensure("not initialised", refused(lambda: q(x), (QuantizerNotInitializedError, AssertionError)))
        q.set_quant_range(lo, hi)
        H.eq("range set after a reset", q(x), y, tol=1e-6)


@contract("C23", cases=[dict(kind=k, domain=d) for k in KIND for d in ("linear", "log")], samples=10, tol=1e-6)
def bad_ranges(H, kind, domain):
    """constant and empty data: the range is never empty and zero is always in it"""
    q = make(H, kind, 4, domain)
    x = H.real("x", flo=-2, fhi=2)
    v = torch.zeros(1, dtype=H.float_dtype) + x
    q.set_quant_range(v, v)
    s = q.scale.flatten()
    H.ensure("the scale is positive", bool((s > 0).all()))
    y = q(v)
    H.within("range of the result", q.x_min.flatten(), y, q.x_max.flatten(), tol=1e-6)
    H.within("error", -0.501 * s - 1e-6, y - v, 0.501 * s + 1e-6, tol=1e-6)
    H.eq("zero", q(0.0 * v), 0.0 * v)
    if not H.sym:
        H.ensure("a tensor of ranges is refused without channels", refused(lambda: q.set_quant_range(torch.zeros(2), torch.ones(2)), ValueError))
        H.ensure("axis and channel", refused(lambda: KIND[kind](4, per_channel=True, axis=1), AssertionError))
        H.ensure("unknown domain", refused(lambda: KIND[kind](4, scale_domain="x"), AssertionError))


# ------------------------------------------------------------------------- range estimators
def groups(x, axis, per_channel, n_groups):
    """the elements each range has to cover"""
    if axis is not None:
        rows = [x.select(axis, i).reshape(-1) for i in range(x.shape[axis])]
        if n_groups:
            k = len(rows) // n_groups
            return [torch.cat(rows[(i // k) * k:(i // k + 1) * k]) for i in range(len(rows))]
        return rows
    if per_channel:
        return [r.reshape(-1) for r in x]
    return [x.reshape(-1)]


def extremes(g):
    return g.min(), g.max()


MODES = [dict(axis=None, per=False, ng=None), dict(axis=None, per=True, ng=None), dict(axis=0, per=False, ng=None), dict(axis=1, per=False, ng=None),
         dict(axis=1, per=False, ng=2), dict(axis=0, per=False, ng=1)]
EST = [dict(m, est=e, batches=b) for e in ("current", "all", "running") for m in MODES for b in (1, 2, 3) if not (e == "all" and m["axis"] is not None)]


def estimator(est, axis, per, ng, **kw):
    cls = dict(current=CurrentMinMaxEstimator, all=AllMinMaxEstimator, running=RunningMinMaxEstimator)[est]
    return cls(per_channel=per, axis=axis, n_groups=ng, **kw)


def one(H, v, i):
    return v.reshape(-1)[i]


@contract("C23", cases=EST, samples=6, tol=1e-6)
def estimators(H, est, axis, per, ng, batches):
    """current: the last batch; all: every batch since the start; running: the running average, weights momentum and 1 - momentum"""
    kw = {}
    mom = 0.9
    if est == "running":
        mom = H.real("momentum", lo=0, hi=1)
        kw = dict(momentum=mom)
    e = estimator(est, axis, per, ng, **kw)
    shape = (1, 2, 2) if ng == 2 or axis is None else (2, 2)
    want = None

    def feed(name, want):
        x = H.tensor(name, *shape, flo=-2, fhi=2)
        x0 = H.clone(x)
        lo, hi = e(x)
        H.eq("the batch is not modified", x, x0)
        now = [extremes(g) for g in groups(x, axis, per, ng)]
        if est == "current" or want is None:
            want = now
        elif est == "all":
            want = [(torch.minimum(a, c), torch.maximum(b, d)) for (a, b), (c, d) in zip(want, now)]
        else:
            want = [(mom * a + (1 - mom) * c, mom * b + (1 - mom) * d) for (a, b), (c, d) in zip(want, now)]
        H.ensure("number of ranges", lo.numel() == len(want) and hi.numel() == len(want))
        for i, (a, b) in enumerate(want):
            H.eq("minimum", one(H, lo, i), a, tol=1e-6)
            H.eq("maximum", one(H, hi, i), b, tol=1e-6)
            if est != "running":
                H.le("minimum is not above the maximum", one(H, lo, i), one(H, hi, i), tol=1e-6)
        H.eq("remembered minimum", e.current_xmin, lo)
        H.eq("remembered maximum", e.current_xmax, hi)
        return want

    for k in range(batches):
        want = feed("x%d" % k, want)
    e.reset()
    H.ensure("reset", e.current_xmin is None and e.current_xmax is None)
    feed("y", None)


@contract("C23", cases=[dict(est=e, per=p) for e in ("current", "all", "running") for p in (False, True)], samples=6, tol=1e-6)
def saved_estimators(H, est, per):
    """a restored estimator continues as the saved one, and neither follows the other"""
    if H.sym:
        H.ensure("bounded: state dictionaries", True)
        return
    kw = dict(momentum=0.75) if est == "running" else {}
    a, b = (estimator(est, None, per, None, **kw) for _ in range(2))
    x, y, z = (H.tensor(n, 2, 3, flo=-2, fhi=2) for n in "xyz")
    a(x)
    b(z)
    st = a.state_dict()
    b.load_state_dict(st)
    H.eq("minimum", b.current_xmin, a.current_xmin)
    H.eq("maximum", b.current_xmax, a.current_xmax)
    c = copy.deepcopy(a)
    ra, rb, rc = a(y), b(y), c(y)
    for i in range(2):
        H.eq("restored", ra[i], rb[i])
        H.eq("copied", ra[i], rc[i])
    f = estimator(est, None, per, None, **kw)
    a.load_state_dict(st)
    f.load_state_dict(a.state_dict())
    lo = f.current_xmin.clone()
    f.current_xmin.add_(1)
    H.eq("the saved one does not follow", a.current_xmin, lo)


@contract("C23", cases=[dict(first=f) for f in ("none", "one", "two")], samples=10, tol=1e-6)
def learned_groups(H, first):
    """channels of similar range are put in the same group; each channel's range covers its whole group"""
    e = CurrentMinMaxEstimator(axis=1, n_groups=2)
    want = None
    e.per_group_range_estimation = True
    n = dict(none=0, one=1, two=2)[first]
    for k in range(n):
        x = H.tensor("g%d" % k, 2, 4, flo=-2, fhi=2)
        H.ensure("nothing returned", e(x) is None)
        now = torch.stack([x[:, i].max() - x[:, i].min() for i in range(4)])
        want = now if want is None else 0.1 * now + 0.9 * want
        H.eq("ranges", e.ranges, want, tol=1e-6)
    e.per_group_range_estimation = False
    if H.sym:
        return
    x = H.tensor("x", 2, 4, flo=-2, fhi=2)
    lo, hi = e(x)
    order = [0, 1, 2, 3] if want is None else np.argsort(want.numpy(), kind="stable").tolist()
    for g in (order[:2], order[2:]):
        for c in g:
            H.eq("minimum", lo[c], x[:, g].min(), tol=1e-6)
            H.eq("maximum", hi[c], x[:, g].max(), tol=1e-6)


@contract("C23", cases=[dict(p=p, per=per) for p in (0.5, 5.0, 20.0) for per in (False, True)], samples=10, tol=1e-5)
def percentiles(H, p, per):
    """at most p percent of the values are outside at a bounded side, and some value is outside unless interpolated to it"""
    if H.sym:
        H.ensure("bounded: percentiles", True)
        return
    e = CurrentMinMaxEstimator(percentile=p, per_channel=per)
    e(H.tensor("w", 4, 50, flo=-3, fhi=3).float())
    x = H.tensor("x", 4, 50, flo=-2, fhi=2).float()
    lo, hi = e(x)
    for g, a, b in zip(x if per else [x], lo.reshape(-1), hi.reshape(-1)):
        n = g.numel()
        below, above = int((g < a).sum()), int((g > b).sum())
        H.ensure("values below", below <= p / 100 * n + 1)
        H.ensure("values at most", int((g <= a + 1e-5).sum()) >= int(p / 100 * (n - 1) - 1e-6))
        H.ensure("values above", above <= (p / 100 * n + 1 if per else 0))
        if not per:
            H.eq("largest value", b, g.max())


OPT = [dict(kind=k, opt=o, per=p, sided=s, loss=l) for k in KIND for o in ("grid", "golden_section") for p in (False, True) for s in ("one", "two") for l in ("mse", "ce")
       if not (l == "ce" and p) and not (o == "golden_section" and l == "ce")]


@contract("C23", cases=OPT, samples=2, tol=1e-5)
def searched(H, kind, opt, per, sided, loss):
    """grid: no candidate has a smaller loss over all batches since the reset; golden section: no worse than the widest range"""
    if H.sym:
        H.ensure("bounded: search for the range of smallest loss", True)
        return
    bits = 3
    q = KIND[kind](bits, per_channel=per)
    cls = MSE_Estimator if loss == "mse" else CrossEntropyEstimator
    N = 8
    e = cls(per_channel=per, quantizer=q, num_candidates=N, opt_method=OptMethod[opt])

    def data(name, sided=sided):
        x = H.tensor(name, 2, 6, flo=-1.5, fhi=2).float()
        return x.abs() + 0.01 if sided == "one" else torch.cat([x, -0.5 + 0.0 * x[:, :1]], 1)

    def error(x, lo, hi):
        t = KIND[kind](bits)
        if lo or hi:
            t.set_quant_range(lo, hi)
        y = t(x)
        if loss == "ce":
            return float((-torch.softmax(x, 1) * torch.log_softmax(y, 1)).sum())
        return float(((x - y) ** 2).sum())

    for start in range(2):
        use = sided if start == 1 else ("two" if sided == "one" else "one")
        e.reset()
        q.reset()
        batches = []
        for k in range(2):
            x = data("x%d%d" % (start, k), use)
            lo, hi = e(x)
            batches.append(x)
            H.ensure("number of ranges", tuple(lo.shape) == (2 if per else 1,) == tuple(hi.shape))
            H.le("order", lo, hi)
            if use == "one":
                H.eq("no negative values", lo, torch.zeros_like(lo), when=True)
            elif kind == "sym":
                H.eq("symmetric", lo, -hi)
        one_d = use == "one" or kind == "sym"
        x0 = batches[0]
        if one_d:
            top = float(x0.abs().max()) + 0.5
            cand = [((0 if use == "one" else -top * i / N), top * i / N) for i in range(1, N + 1)]
        else:
            a, b = float(x0.min()) - 0.5, float(x0.max()) + 0.5
            top = max(abs(a), abs(b))
            cand = []
            for i in range(1, N + 1):
                for sh in range(2 ** bits // 4):
                    for sg in (1, -1):
                        d = sg * sh * 2 * top * i / N / (2 ** bits - 1)
                        cand.append((max(-top * i / N + d, a), min(top * i / N + d, b)))
        for c in range(2 if per else 1):
            seg = [x[c:c + 1] if per else x for x in (batches if opt == "grid" else batches[-1:])]
            got = sum(error(x, float(lo[c]), float(hi[c])) for x in seg)
            if opt == "grid":
                best = min(sum(error(x, l, h) for x in seg) for l, h in cand)
                H.ensure("smallest loss", got <= best * (1 + 1e-3) + 1e-5, lambda: "%g > %g" % (got, best))
            else:
                H.ensure("range inside the search range", float(hi[c]) - float(lo[c]) <= 2 * top + 1e-4 if one_d else True)
                zero = sum(float((x ** 2).sum()) for x in seg)
                H.ensure("better than no output", got <= zero + 1e-5, lambda: "%g > %g" % (got, zero))


# ------------------------------------------------------------------------- manager
MAN = [dict(kind=k, est=e, per=p) for k in ("symmetric_uniform", "asymmetric_uniform") for e in ("current_minmax", "allminmax", "running_minmax") for p in (False, True)]


@contract("C23", cases=MAN, samples=5, tol=1e-6)
def manager(H, kind, est, per):
    """which batches change the range: estimating ones; fixed, learned and (in evaluation) training ranges stay"""
    if H.sym:
        H.ensure("bounded: states of the manager", True)
        return
    def mk():
        return QuantizationManager(QMethods[kind], RangeEstimators[est], per_channel=per, qparams=dict(n_bits=4))
    m = mk()
    ref = RangeEstimators[est].cls(per_channel=per)
    cls = QMethods[kind].cls
    new = lambda name: H.tensor(name, 2, 3, flo=-2, fhi=2).float()

    def direct(x, r):
        t = cls(n_bits=4, per_channel=per)
        t.set_quant_range(*r)
        return t(x)

    H.ensure("not initialised", refused(lambda: mk().eval()(new("e")), (QuantizerNotInitializedError, AssertionError)))
    H.ensure("cannot be fixed before it is initialised", refused(lambda: mk().fix_ranges(), QuantizerNotInitializedError))
    r = None
    steps = [("train", None), ("train", None), ("eval", None), ("eval", "estimate_ranges"), ("train", "estimate_ranges_train"), ("train", "fix_ranges"), ("eval", "estimate_ranges_train"),
             ("train", "learn_ranges"), ("train", "estimate_ranges"), ("train", "reset_ranges"), ("eval", "fix_ranges"), ("train", "estimate_ranges_train")]
    for k, (mode, call) in enumerate(steps):
        m.train(mode == "train")
        if call:
            getattr(m, call)()
        if call == "reset_ranges":
            ref.reset()
        if call:
            state = dict(reset_ranges="estimate_ranges_train").get(call, call)
        elif k == 0:
            state = "estimate_ranges_train"
        x = new("x%d" % k)
        if state == "estimate_ranges" or (state == "estimate_ranges_train" and mode == "train"):
            r = tuple(v.clone() for v in ref(x))
        H.eq("output in step %d (%s, %s)" % (k, mode, state), m(x).detach(), direct(x, r), tol=1e-6)
        H.ensure("state", m.state == Qstates[state] and m.is_learning() == (state == "learn_ranges"))
    f = QuantizationManager(QMethods[kind], RangeEstimators[est], x_min=-0.5, x_max=1.0, qparams=dict(n_bits=4))
    want = cls(n_bits=4)
    want.set_quant_range(-0.5, 1.0)
    for k, mode in enumerate(("train", "eval", "estimate", "reset")):
        f.train(mode != "eval")
        if mode == "estimate":
            f.estimate_ranges()
        if mode == "reset":
            f.reset_ranges()
        x = new("f%d" % k)
        H.eq("range given by the user (%s)" % mode, f(x), want(x))
    H.ensure("bits", f.n_bits == 4)


@contract("C23", cases=[dict(sto=s, res=r) for s in (False, True) for r in (0.25, 5.0)], samples=8, tol=1e-6)
def uniform_quantize(H, sto, res):
    """the converters' quantization: on the grid, at most half a step (stochastic: one step) off, order and grid values kept"""
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3)
    st = 2.0 * B * (1.0 / res if res > 1.0 else res)
    x = H.tensor("x", 2, flo=-3, fhi=3)
    H.assume(x[0] <= x[1])
    x0 = H.clone(x)
    y = UniformQuantize.apply(x, res, B, sto)
    H.eq("the given tensor is not modified", x, x0)
    H.grid("on the grid", y, st)
    t = st if sto else st / 2
    H.within("error", x - t, y, x + t)
    if not sto:
        H.le("order kept", y[0], y[1])
    k = H.int("k", -20, 20)
    v = 0.0 * x + k * st
    H.eq("grid values are kept", UniformQuantize.apply(v, res, B, False), v)


@contract("C23", cases=[dict(layer=l, act=a) for l in ("linear", "conv") for a in (None, "relu")], samples=4, tol=1e-5)
def layers(H, layer, act):
    """a quantized layer computes with the quantized current weights and quantizes its activation, in every order of mode changes and loads"""
    if H.sym:
        H.ensure("bounded: quantized layers", True)
        return
    default = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    try:
        run_layers(H, layer, act)
    finally:
        torch.set_default_dtype(default)


def run_layers(H, layer, act):
    activation = nn.ReLU() if act else None
    kw = dict(n_bits=4, n_bits_act=5, activation=activation)
    mk = (lambda: QuantLinear(3, 2, **kw).float()) if layer == "linear" else (lambda: QuantConv2d(1, 2, 3, **kw).float())
    m = mk()
    H.ensure("state of a new layer", not m._quant_w and not m._quant_a)

    def weights(name, module):
        sd = {k: v for k, v in module.state_dict().items()}
        sd["weight"] = H.tensor(name, *module.weight.shape, flo=-1, fhi=1).float()
        sd["bias"] = H.tensor(name + "b", 2, flo=-1, fhi=1).float()
        return sd

    def q(x, bits, rng):
        t = AsymmetricUniformQuantizer(bits)
        t.set_quant_range(*rng)
        return t(x)

    rng = [None]

    def expected(x, w, b, quant, estimate):
        w = q(w, 4, (w.min(), w.max())) if quant else w
        y = nn.functional.linear(x, w, b) if layer == "linear" else nn.functional.conv2d(x, w, b)
        y = torch.relu(y) if act else y
        if not quant:
            return y
        if estimate:
            now = (y.min(), y.max())
            rng[0] = now if rng[0] is None else tuple(0.1 * a + 0.9 * o for a, o in zip(now, rng[0]))
        return q(y, 5, rng[0])

    m.quantized()
    quant, wq = True, False
    for k, op in enumerate(("train", "eval", "load", "train", "load", "eval", "full", "quantized", "load", "eval", "cache off", "load")):
        if op in ("train", "eval"):
            m.train(op == "train")
        if op == "load":
            m.load_state_dict(weights("w%d" % k, m))
            m.estimate_ranges_train() if m.training else m.weight_quantizer.estimate_ranges()
        if op == "full":
            m.full_precision()
        if op == "quantized":
            m.quantized()
        if op == "cache off":
            m.caching = False
        quant = op != "full"
        for i in range(2):
            x = H.tensor("x%d%d" % (k, i), *((2, 3) if layer == "linear" else (1, 1, 3, 4)), flo=-1, fhi=1).float()
            y = m(x)
            want = expected(x, m.weight.detach(), m.bias.detach(), quant, m.training)
            tol = 1e-5
            got, st = y.detach(), 0 if rng[0] is None else float(max(rng[0][1], torch.tensor(1e-8)) - min(rng[0][0], torch.tensor(0.0))) / 31
            if quant:
                H.le("output in step %d (%s)" % (k, op), (got - want).abs(), 1.01 * st * (((got - want).abs() > 1e-4).float().mean() < 0.4) + 1e-4)
            else:
                H.eq("output in step %d (%s)" % (k, op), got, want)
