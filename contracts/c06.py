"""C06 the compiled analog product respects converter range and resolution."""
import torch
from pyvc.harness import contract
from pyvc import cc
from aihwkit.simulator.configs import SingleRPUConfig
from aihwkit.simulator.parameters.io import IOParameters
from aihwkit.simulator.parameters.enums import NoiseManagementType as NM, BoundManagementType as BM, AnalogMVType, WeightNoiseType as WN
from .devices import plain
from .c05 import step, nm_scale

NMS = {"none": NM.NONE, "absmax": NM.ABS_MAX, "max": NM.MAX, "const": NM.CONSTANT}
DIR = ("forward", "backward")


def neutral(**kw):
    io = IOParameters(inp_bound=0.0, inp_res=-1, out_bound=0.0, out_res=-1, out_noise=0.0, v_offset_w_min=0.0,
                      noise_management=NM.NONE, bound_management=BM.NONE)
    for k, v in kw.items():
        if not hasattr(io, k):
            raise AttributeError(k)
        setattr(io, k, v)
    return io


class Array:
    """a tile used in one direction; symbolic converter settings are set on the bindings"""

    def __init__(self, H, dir, n_in, n_out, other=None, **io):
        self.H, self.dir, self.n_in, self.n_out = H, dir, n_in, n_out
        fwd = dir == "forward"
        conc = {k: v for k, v in io.items() if hasattr(IOParameters, k) and not torch.is_tensor(v) and not hasattr(v, "t")}
        sym = {k: v for k, v in io.items() if k not in conc}
        mine, oth = neutral(**conc), neutral(**(other or {}))
        self.io = mine
        c = SingleRPUConfig(device=plain("Constant"), forward=mine if fwd else oth, backward=oth if fwd else mine)
        x, d = (n_in, n_out) if fwd else (n_out, n_in)
        self.t = cc.analog_tile(c, x, d, fields={dir + "_io." + k: v for k, v in sym.items()})
        self.w = None

    def set(self, w):
        """w: [outputs, inputs] of the direction"""
        self.w = w
        self.t("poke_weights", reals=[w if self.dir == "forward" else w.t()])

    def __call__(self, v):
        """v: [batch, inputs]"""
        v = v if v.ndim == 2 else v.reshape(1, -1)
        m = v.shape[0]
        if self.dir == "forward":
            y = self.t.r("forward", 0, m, 0, 0, 0, reals=[v])
        else:
            y = self.t.r("backward", 0, m, 0, 0, reals=[v])
        return y.reshape(m, self.n_out)

    def state(self, **kw):
        """systematic values drawn at construction, set to given ones"""
        s = self.t.dump()
        for k, v in kw.items():
            key = [n for n in s if n.endswith(("fwd." if self.dir == "forward" else "bwd.") + k)]
            assert len(key) == 1, (k, list(s))
            s[key[0]] = v
        self.t.load(s)


def eye(H, n):
    return torch.eye(n, dtype=H.float_dtype)


def clip(v, b):
    return torch.minimum(torch.maximum(v, 0 * v - b), 0 * v + b)


def quant(v, st):
    return torch.round(v / st) * st


IN = [dict(dir=d, nm=nm, res=r, sto=s, thres=t) for d in DIR for nm in NMS for r in (4, 0.25, 0.1, 126, 0.3) for s in (False, True)
      for t in (0.0, 0.5) if not (t and (s or r != 4)) and not (nm != "absmax" and r in (0.1, 126))]


@contract("C06", cases=IN, tol=1e-6)
def fed_input(H, dir, nm, res, sto, thres):
    """what enters the array: inside the bound, on the grid, at most half a step from the scaled input"""
    n = 2
    x = H.tensor("x", n)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3) if nm == "none" else 1.0
    if nm == "max":
        H.assume((x[0] > 0) | (x[1] > 0))
    t = Array(H, dir, n, n, inp_bound=B, inp_res=res, inp_sto_round=sto, noise_management=NMS[nm], nm_thres=thres)
    t.set(eye(H, n))
    y = t(x)[0]
    a = nm_scale(H, nm, x, thres)
    fed, want = y / a, x / a
    st = step(res, B)
    H.within("fed input inside the input bound", 0 * fed - B, fed, 0 * fed + B)
    if res in (4, 0.25) or res in (126, 0.1) and not H.sym:
        H.grid("fed input on the input grid", fed, st)
    tolr = (st if sto else st / 2) * (1 + 2.0 ** -16)
    for i in range(n):
        ins = (want[i] <= B) & (want[i] >= -B)
        H.within("fed input within the rounding error of the scaled input", want[i] - tolr, fed[i], want[i] + tolr, when=ins)
        H.ensure("clipped at the bound", ((want[i] <= B) | (fed[i] >= B - tolr)) & ((want[i] >= -B) | (fed[i] <= -B + tolr)))
        if not sto:
            H.eq("zero stays zero", fed[i], 0.0 * fed[i], when=(x[i] == 0))


@contract("C06", cases=[dict(dir=d, nm=nm, thres=t, noise=z) for d in DIR for nm in NMS for t in (0.0, 0.5) for z in (0, 1)])
def fed_input_continuous(H, dir, nm, thres, noise):
    """without discretisation the fed input is exactly the clipped scaled input, plus the input noise"""
    x = H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3) if nm == "none" else 1.0
    if nm == "max" or noise and nm == "absmax":
        H.assume((x[0] > 0) | (x[1] > 0))
    s = H.real("s", gt=0.0, flo=0.01, fhi=1) if noise else 0.0
    t = Array(H, dir, 2, 2, inp_bound=B, noise_management=NMS[nm], nm_thres=thres, inp_noise=s)
    t.set(eye(H, 2))
    m = cc.mark()
    y = t(x)[0]
    a = nm_scale(H, nm, x, thres)
    want = clip(x / a, B)
    if noise:
        g = cc.drawn(m)
        want = want + s * torch.stack(list(g[:2]))
    H.eq("fed input is the clipped scaled input", y / a, want)


@contract("C06", cases=[dict(dir=d, batch=b) for d in DIR for b in (1, 2)])
def average_scale(H, dir, batch):
    """running average of the largest inputs of this direction"""
    k = H.real("decay", gt=0.0, flo=0.01, fhi=0.9)
    H.assume(k < 1)
    x = H.tensor("x", 3, 1, flo=0.1, fhi=1)
    H.assume(x.abs() > 0)
    other = H.tensor("other", 1, 1, flo=0.1, fhi=1)
    H.assume(other.abs() > 0)
    t = Array(H, dir, 1, 1, other=dict(inp_bound=1.0, noise_management=NM.AVERAGE_ABS_MAX), inp_bound=1.0,
              noise_management=NM.AVERAGE_ABS_MAX, nm_decay=k)
    t.set(eye(H, 1))
    avg, ys = None, []
    if batch == 2:
        ys = list(t(x[:2])) + [t(x[2:])[0]]
    else:
        for i in range(3):
            ys.append(t(x[i:i + 1])[0])
            t.t("backward" if dir == "forward" else "forward", *([0, 1, 0, 0] + ([0] if dir == "backward" else [])), reals=[other])
    for i in range(3):
        a = x[i].abs().max()
        avg = a if avg is None else avg * (1 - k) + a * k
        H.eq("scaled by the running average", ys[i], clip(x[i] / avg, 1.0) * avg)


OUT = [dict(dir=d, res=r, sto=s, noise=nz) for d in DIR for r in (8, 0.125, 510, 0.3) for s in (False, True)
       for nz in (0.0, 0.06) if not (nz and r != 8)]


@contract("C06", cases=OUT, tol=1e-6)
def output(H, dir, res, sto, noise):
    """what leaves the array: inside the output bound and on the output grid, times the digital rescaling"""
    w = H.tensor("w", 2, 2)
    x = H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.5, fhi=6)
    os = H.real("os", gt=0.0, flo=0.5, fhi=2)
    t = Array(H, dir, 2, 2, out_bound=B, out_res=res, out_sto_round=sto, out_noise=noise, out_scale=os)
    t.set(w)
    y = t(x)[0] / os
    H.eq("weights unchanged", t.t.raw(), w if dir == "forward" else w.t())
    st = step(res, B)
    H.within("output inside the output bound", 0 * y - B, y, 0 * y + B)
    if res == 510 and not H.sym or res in (8, 0.125):
        H.grid("output on the output grid", y, st)
    if noise:
        return
    z = torch.matmul(w, x)
    tolr = (st if sto else st / 2) * (1 + 2.0 ** -16)
    for i in range(2):
        ins = (z[i] <= B) & (z[i] >= -B)
        H.within("output within the rounding error of the exact product", z[i] - tolr, y[i], z[i] + tolr, when=ins)
        H.ensure("clipped at the output bound", ((z[i] <= B) | (y[i] >= B - tolr)) & ((z[i] >= -B) | (y[i] <= -B + tolr)))


@contract("C06", cases=[dict(dir=d, std=s, batch=b) for d in DIR for s in (0, 1) for b in (1, 2)])
def output_continuous(H, dir, std, batch):
    """without discretisation: clip(exact product + noise strength times the draw)"""
    n = 3 if batch == 1 else 2
    w, x = H.tensor("w", n, 2), H.tensor("x", batch, 2)
    B = H.real("bound", gt=0.0, flo=1, fhi=8)
    s = H.tensor("s", n, flo=0.01, fhi=1) if std else H.real("s1", gt=0.0, flo=0.01, fhi=1)
    t = Array(H, dir, 2, n, out_bound=B, **(dict(out_noise=0.5, out_noise_std=0.3) if std else dict(out_noise=s)))
    if std:
        t.state(out_noise_values=s)
    t.set(w)
    m = cc.mark()
    y = t(x)
    g = cc.drawn(m)
    z = torch.matmul(x, w.t()) + torch.stack(list(g[:n * batch])).reshape(batch, n) * s
    H.eq("output is the clipped noisy product", y, clip(z, B))


@contract("C06", cases=[dict(dir=d, what=w, pos=p) for d in DIR for w in ("plain", "noise", "perfect", "ideal") for p in ("one", "sep", "sum")
                        if w == "plain" or p == "one"])
def exact(H, dir, what, pos):
    """with all non-idealities disabled the exact product; a perfect array ignores all other settings"""
    w, x = H.tensor("w", 3, 2), H.tensor("x", 2, 2)
    os = H.real("os", gt=0.0, flo=0.5, fhi=2)
    kw = dict(out_scale=os)
    kw["mv_type"] = dict(one=AnalogMVType.ONE_PASS, sep=AnalogMVType.POS_NEG_SEPARATE, sum=AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM)[pos]
    if what in ("perfect", "ideal"):
        kw.update(inp_res=4, inp_bound=1.0, out_res=6, out_bound=2.0, out_noise=0.5, inp_noise=0.25, w_noise=0.5, ir_drop=1.0,
                  w_noise_type=WN.ADDITIVE_CONSTANT, noise_management=NM.ABS_MAX, bound_management=BM.ITERATIVE, r_series=0.5)
        if what == "perfect":
            kw["is_perfect"] = True
        else:
            kw["mv_type"] = AnalogMVType.IDEAL
    if what == "noise":       # noise types without strength
        kw["w_noise_type"] = WN.PCM_READ
    t = Array(H, dir, 2, 3, **kw)
    t.set(w)
    H.eq("exact product times the output scale", t(x), torch.matmul(x, w.t()) * os)


@contract("C06", cases=[dict(dir=d, nm=nm, nz=z) for d in DIR for nm in NMS for z in (0, 1)])
def rescaled(H, dir, nm, nz):
    """the scaling of the input is undone at the output: without bounds and grids the product stays exact"""
    w, x = H.tensor("w", 2, 2), H.tensor("x", 2, 2)
    if nm == "max":
        for r in x:
            H.assume((r[0] > 0) | (r[1] > 0))
    s = H.real("s", gt=0.0, flo=0.01, fhi=1) if nz else 0.0
    t = Array(H, dir, 2, 2, inp_bound=1.0 if nm != "none" else 0.0, noise_management=NMS[nm], out_noise=s)
    t.set(w)
    m = cc.mark()
    y = t(x)
    g = cc.drawn(m)
    for b in range(2):
        a = nm_scale(H, nm, x[b], 0.0)
        if nm == "const":          # limited to the input bound
            want = torch.matmul(w, clip(x[b], 1.0))
        elif nm == "max":
            want = torch.matmul(w, clip(x[b] / a, 1.0)) * a
        else:
            want = torch.matmul(w, x[b])
        if nz:
            if nm == "absmax":     # a zero row is not processed
                continue
            want = want + torch.stack(list(g[2 * b:2 * b + 2])) * s * a
        H.eq("rescaled output", y[b], want)


@contract("C06", cases=[dict(dir=d, nm=nm, bm=b, res=r) for d in DIR for nm in NMS for b in (0, 1) for r in (-1, 4)])
def zero_input(H, dir, nm, bm, res):
    n = 1 if bm else 2
    w = H.tensor("w", n, 2)
    x = H.tensor("x", 2)
    if bm:
        H.assume(x.abs() <= 2)
        H.assume(w.abs() <= 4)
    z = 0 * x
    t = Array(H, dir, 2, n, inp_bound=1.0, inp_res=res, out_bound=5.0, out_res=res, noise_management=NMS[nm],
              bound_management=BM.ITERATIVE if bm else BM.NONE)
    t.set(w)
    if nm == "max":
        H.assume((x[0] > 0) | (x[1] > 0))
    y = t(torch.stack([z, x]))
    H.eq("zero input gives zero output", y[0], 0 * y[0])
    H.eq("the other samples do not depend on it", y[1], t(x)[0])


@contract("C06", cases=[dict(nm=nm, maxf=f, neg=g) for nm in ("none", "absmax") for f in (1000, 4, 1) for g in (True, False)], max_paths=400)
def bound_management(H, nm, maxf, neg):
    """iterative bound management: smallest power of two that avoids clipping, unless the limit stops it"""
    a = H.tensor("a", 2)
    H.assume(a.abs() <= 30.0)
    wv = H.tensor("w", 2, flo=-8, fhi=8)
    H.assume(wv.abs() <= 8.0)
    B = 2.0
    inp = {} if nm == "none" else dict(inp_bound=1.0)
    t = Array(H, "forward", 2, 2, out_bound=B, bound_management=BM.ITERATIVE, noise_management=NMS[nm], max_bm_factor=maxf,
              bm_test_negative_bound=neg, **inp)
    w = torch.stack([wv, wv * -0.5])
    t.set(w)
    y = t(a)[0]
    s = nm_scale(H, nm, a, 0.0)
    z = torch.matmul(w, a) / s
    r, done, f = None, None, 1.0
    for k in range(12):
        cl = clip(z / f, B)
        ok = (z / f <= B).all()
        if neg:
            ok = ok & (z / f >= -B).all()
        if f > maxf:
            ok = ok | True
        if r is None:
            r, done = cl * f, ok
        else:
            r = torch.where(done, r, cl * f)
            done = done | ok
        if f > maxf:
            break
        f *= 2.0
    H.eq("output of the first passing round, rescaled", y, r * s)
    if maxf >= 1000 and neg:
        H.eq("no clipping remains", y, torch.matmul(w, a))


@contract("C06", cases=[dict(res=r, maxr=m) for r in (4, 16, 0.0625) for m in (0.25, 0.5, 1.0)], max_paths=400)
def bound_management_resolution(H, res, maxr):
    """the number of rounds is limited by the resolution of the input"""
    x = H.tensor("x", 1)
    H.assume(x.abs() <= 1)
    t = Array(H, "forward", 1, 1, inp_bound=1.0, inp_res=res, out_bound=2.0, bound_management=BM.ITERATIVE, max_bm_res=maxr)
    t.set(eye(H, 1) * 1024.0)
    y = t(x)[0]
    f = 1.0
    while not f > maxr / step(res, 1.0):
        f *= 2.0
    H.within("limited by the input resolution", 0 * y - 2.0 * f, y, 0 * y + 2.0 * f)


@contract("C06", cases=[dict(inner=n) for n in ("none", "absmax")], max_paths=400)
def bound_management_worst_case(H, inner):
    """worst case bound management: never clips, the exact product when inputs and outputs are continuous"""
    a = H.tensor("a", 2)
    H.assume(a.abs() <= 4.0)
    H.assume((a[0] != 0) | (a[1] != 0))
    wv = H.tensor("w", 2, flo=-1, fhi=1)
    H.assume(wv.abs() <= 1.0)
    t = Array(H, "forward", 2, 1, out_bound=1.0, inp_bound=0.0 if inner == "none" else 1.0, bound_management=BM.ITERATIVE_WORST_CASE, noise_management=NMS[inner])
    t.set(wv.reshape(1, 2))
    y = t(a)[0]
    H.eq("no clipping remains", y, torch.matmul(wv.reshape(1, 2), a))


@contract("C06", cases=[dict(dir=d, pos=p, a=a) for d in DIR for p in ("sep", "sum") for a in (0, 1)])
def pos_neg(H, dir, pos, a):
    """separate passes: each read-out is limited; the weight of the negative pass carries the read asymmetry"""
    w, x = H.tensor("w", 2, 2), H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.5, fhi=6)
    kw = dict(w_read_asymmetry_dtod=0.25) if a else {}
    t = Array(H, dir, 2, 2, out_bound=B, mv_type=dict(sep=AnalogMVType.POS_NEG_SEPARATE, sum=AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM)[pos], **kw)
    wn = w
    if a:
        f = H.tensor("f", 2, 2, flo=0.5, fhi=1.5)
        t.state(w_asymmetry=(f if dir == "forward" else f.t()).reshape(-1))
        wn = w * f
    t.set(w)
    y = t(x)[0]
    p, n = torch.matmul(w, torch.maximum(x, 0 * x)), torch.matmul(wn, torch.minimum(x, 0 * x))
    if pos == "sum":
        H.eq("sum of the limited passes", y, clip(p, B) + clip(n, B))
    else:
        H.eq("limited sum of the passes", y, clip(p + n, B))


@contract("C06", cases=[dict(dir=d, what=k) for d in DIR for k in ("inp", "out", "nl", "off", "offr", "offref", "offrefr", "wn", "pcm", "ir")], tol=1e-6)
def documented_nonideality(H, dir, what):
    """each simulated non-ideality follows its documented law and only it acts"""
    w, x = H.tensor("w", 2, 2), H.tensor("x", 2)
    H.assume(w.abs() <= 100)
    H.assume(x.abs() <= 100)
    r = H.real("r", gt=0.0, hi=10, flo=0.05, fhi=0.5)
    v = H.tensor("v", 2, flo=0.0, fhi=0.5)
    kw, st = {}, {}
    y = torch.matmul(w, x)
    g = H.real("gref", lo=-1, hi=1)
    m = 0
    if what == "inp":
        kw = dict(inp_asymmetry=r)
    elif what == "out":
        kw = dict(out_asymmetry=r)
    elif what == "nl":
        kw, st = dict(out_nonlinearity=0.25), dict(out_nonlinearity=v)
        H.assume(v >= 0)
    elif what == "off":
        kw, st = dict(v_offset_std=0.25), dict(v_offset=v)
    elif what == "offr":
        kw, st = dict(v_offset_std=0.25, r_series=r), dict(v_offset=v)
    elif what == "offref":
        kw, st = dict(v_offset_std=0.25, v_offset_w_min=g), dict(v_offset=v)
    elif what == "offrefr":
        kw, st = dict(v_offset_std=0.25, r_series=r, v_offset_w_min=g), dict(v_offset=v)
    elif what == "wn":
        kw = dict(w_noise=r, w_noise_type=WN.ADDITIVE_CONSTANT)
    elif what == "pcm":
        kw = dict(w_noise=r, w_noise_type=WN.PCM_READ)
    elif what == "ir":
        kw = dict(ir_drop=r)
    if "offref" in what:
        H.assume(g != 0)
    t = Array(H, dir, 2, 2, **kw)
    if st:
        t.state(**st)
    t.set(w)
    mk = cc.mark()
    got = t(x)[0]
    d = cc.drawn(mk)
    if what == "inp":
        want = torch.matmul(w, torch.where(x < 0, x * (1 - r), x))
    elif what == "out":
        want = torch.where(y < 0, y * (1 - r), y)
    elif what == "nl":
        want = y / (1 + v * y.abs())
    elif what == "off":
        want = y * (1 - v)
    elif what == "offr":
        want = y * (1 - v) / (1 + r * y.abs())
    elif what == "offref":
        want = (y - g * x.sum()) * (1 - v) - (1 + v) * (-g * x.sum())
    elif what == "offrefr":
        ref = -g * x.sum()
        want = (1 - v) * (y + ref) / (1 + r * (y + ref).abs()) - (1 + v) * ref / (1 + r * ref.abs())
    elif what == "wn":
        want = y + r * torch.sqrt((x * x).sum()) * torch.stack(list(d[:2]))
    elif what == "pcm":
        want = y + r * torch.sqrt(torch.matmul(w.abs(), x * x)) * torch.stack(list(d[:2]))
    else:
        n = 2
        cur = torch.matmul(w.abs(), x.abs()) * n / t.io.ir_drop_g_ratio
        c = cur * (cur * (0.05 * cur - 0.2) + 0.5)
        pos = torch.stack([x[j] * (1 - (1 - j / n) ** 2) for j in range(n)])
        want = y - r * c * torch.matmul(w, pos)
    H.eq("documented law", got, want)


@contract("C06", cases=[dict(dir=d, how=h) for d in DIR for h in range(4)])
def copies(H, dir, how):
    """copied and moved tiles keep the converters and the state of the scaling"""
    w, x = H.tensor("w", 2, 1), H.tensor("x", 1)
    H.assume(x.abs() > 0)
    v = H.tensor("v", 2, flo=0.05, fhi=0.5)
    k = H.real("decay", gt=0.0, flo=0.01, fhi=0.9)
    H.assume(k < 1)
    t = Array(H, dir, 1, 2, inp_bound=1.0, inp_res=-1, out_bound=3.0, out_noise=0.5, out_noise_std=0.25, noise_management=NM.AVERAGE_ABS_MAX, nm_decay=k)
    t.state(out_noise_values=v)
    t.set(w)
    x0 = H.tensor("x0", 1, flo=0.1, fhi=2)
    H.assume(x0.abs() > 0)
    t(x0)
    t.t = t.t.copy(how)
    m = cc.mark()
    y = t(x)[0]
    g = cc.drawn(m)
    a = x0.abs().max() * (1 - k) + x.abs().max() * k
    H.eq("same read-out", y, clip(torch.matmul(w, clip(x / a, 1.0)) + v * torch.stack(list(g[:2])), 3.0) * a)
