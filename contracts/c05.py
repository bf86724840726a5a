"""C05 python analog product: input and output stay in range and on grid."""
import torch
from pyvc.harness import contract
from aihwkit.simulator.tiles.analog_mvm import AnalogMVM
from aihwkit.simulator.tiles.analog_mvm_irdrop_t import AnalogMVMIRDropT
from aihwkit.simulator.tiles.utils import UniformQuantize
from aihwkit.simulator.parameters.io import IOParameters, IOParametersIRDropT
from aihwkit.simulator.parameters.enums import NoiseManagementType as NM, BoundManagementType as BM, AnalogMVType
from .common import cfg, tile

NMS = {"none": NM.NONE, "absmax": NM.ABS_MAX, "max": NM.MAX, "const": NM.CONSTANT}


def neutral(**kw):
    io = IOParameters(inp_bound=0.0, inp_res=-1, out_bound=0.0, out_res=-1, out_noise=0.0,
                      noise_management=NM.NONE, bound_management=BM.NONE)
    for k, v in kw.items():
        if not hasattr(io, k):
            raise AttributeError(k)
        setattr(io, k, v)
    return io


def step(res, bound):
    return 2.0 * bound * (1.0 / res if res > 1.0 else res)


def eye(H, n):
    return torch.eye(n, dtype=H.float_dtype)


def nm_scale(H, nm, x, thres):
    """documented noise management factor of one sample"""
    if nm == "none":
        return 1.0
    if nm == "const":
        return thres if thres > 0 else 1.0
    m = x.abs().max() if nm == "absmax" else x.max()
    if thres > 0:
        m = torch.minimum(m, torch.ones_like(m) * thres)
    return torch.where(m > 0, m, torch.ones_like(m))


IN = [dict(nm=nm, res=r, sto=s, thres=t) for nm in NMS for r in (4, 0.25, 0.1, 126, 0.3) for s in (False, True)
      for t in (0.0, 0.5) if not (t and (s or r != 4)) and not (nm != "absmax" and r in (0.1, 126))]  # noqa


@contract("C05", cases=IN, tol=1e-6)
def fed_input(H, nm, res, sto, thres):
    """what enters the array: inside the bound, on the grid, at most half a step from the scaled input"""
    n = 2
    x = H.tensor("x", n)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3)
    if nm == "max":
        # a non-positive maximum is documented to mean a zero input
        H.assume((x[0] > 0) | (x[1] > 0))
    io = neutral(inp_bound=B, inp_res=res, inp_sto_round=sto, noise_management=NMS[nm], nm_thres=thres)
    x0 = H.clone(x)
    y = AnalogMVM.matmul(eye(H, n), x, io)
    H.eq("input unchanged", x, x0)
    a = nm_scale(H, nm, x0, thres)
    fed, want = y / a, x0 / a
    st = step(res, B)
    H.within("fed input inside the input bound", -B, fed, B)
    if res in (4, 0.25) or res in (126, 0.1) and not H.sym:    # the bound is on the grid
        H.grid("fed input on the input grid", fed, st)
    inside = (want <= B) & (want >= -B)
    tolr = st if sto else st / 2
    for i in range(n):
        H.within("fed input within the rounding error of the scaled input", want[i] - tolr, fed[i], want[i] + tolr, when=inside[i])
        H.ensure("clipped at the bound", ((want[i] <= B) | (fed[i] >= B - tolr)) & ((want[i] >= -B) | (fed[i] <= -B + tolr)))
        H.eq("zero stays zero", fed[i], 0.0 * fed[i], when=(x0[i] == 0)) if not sto else None


@contract("C05", cases=[dict(nm=nm, thres=t) for nm in NMS for t in (0.0, 0.5)])
def fed_input_continuous(H, nm, thres):
    """without discretisation the fed input is exactly the clipped scaled input"""
    x = H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3)
    if nm == "max":
        H.assume((x[0] > 0) | (x[1] > 0))
    io = neutral(inp_bound=B, noise_management=NMS[nm], nm_thres=thres)
    y = AnalogMVM.matmul(eye(H, 2), x, io)
    a = nm_scale(H, nm, x, thres)
    want = x / a
    lim = torch.minimum(torch.maximum(want, -torch.ones_like(want) * B), torch.ones_like(want) * B)
    H.eq("fed input is the clipped scaled input", y / a, lim)


OUT = [dict(res=r, sto=s, trans=t, noise=nz) for r in (8, 0.125, 510, 0.3) for s in (False, True) for t in (False, True)
       for nz in (0.0, 0.06) if not (t and r != 8) and not (nz and r != 8)]


@contract("C05", cases=OUT, tol=1e-6)
def output(H, res, sto, trans, noise):
    """what leaves the array: inside the output bound and on the output grid, times the digital rescaling"""
    w = H.tensor("w", 2, 2)
    x = H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.5, fhi=6)
    os = H.real("os", gt=0.0, flo=0.5, fhi=2)
    io = neutral(out_bound=B, out_res=res, out_sto_round=sto, out_noise=noise, out_scale=os)
    w0 = H.clone(w)
    y = AnalogMVM.matmul(w, x, io, trans)
    H.eq("weights unchanged", w, w0)
    y = y / os
    st = step(res, B)
    H.within("output inside the output bound", -B, y, B)
    if res == 510 and not H.sym or res in (8, 0.125):
        H.grid("output on the output grid", y, st)
    if noise:
        return
    z = torch.matmul(x, w0 if trans else w0.t())
    tolr = st if sto else st / 2
    for i in range(2):
        inside = (z[i] <= B) & (z[i] >= -B)
        H.within("output within the rounding error of the exact product", z[i] - tolr, y[i], z[i] + tolr, when=inside)
        H.ensure("clipped at the output bound", ((z[i] <= B) | (y[i] >= B - tolr)) & ((z[i] >= -B) | (y[i] <= -B + tolr)))


@contract("C05", cases=[dict(asym=a, res=r, sto=s, noise=nz) for a in (0.25, -0.5) for r in (8, 0.125, 0) for s in (False, True)
                        for nz in (False, True) if not ((nz or not r) and s)], tol=1e-6)
def output_asymmetry(H, asym, res, sto, noise):
    """an asymmetry of the outputs acts on the analog value: the converted result stays in range and on the grid"""
    w = H.tensor("w", 2, 2)
    x = H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.5, fhi=6)
    y = AnalogMVM.matmul(w, x, neutral(out_bound=B, out_res=res, out_sto_round=sto, out_noise=0.0625 if noise else 0.0, out_asymmetry=asym))
    H.within("output inside the output bound", -B, y, B)
    if res:
        H.grid("output on the output grid", y, step(res, B))
    if noise:
        return
    z = torch.matmul(x, w.t())
    z = torch.where(z < 0, z * (1 - asym), z)
    if not res:
        H.eq("clipped", y, torch.minimum(torch.maximum(z, -torch.ones_like(z) * B), torch.ones_like(z) * B))
        return
    tolr = step(res, B) if sto else step(res, B) / 2
    for i in range(2):
        H.within("within the rounding error", z[i] - tolr, y[i], z[i] + tolr, when=(z[i] <= B) & (z[i] >= -B))
        H.ensure("clipped at the output bound", ((z[i] <= B) | (y[i] >= B - tolr)) & ((z[i] >= -B) | (y[i] <= -B + tolr)))


@contract("C05", cases=[dict(asym=a, res=r, noise=nz) for a in (0.25, -0.5) for r in (4, 0.25, 0) for nz in (False, True)], tol=1e-6)
def input_asymmetry(H, asym, res, noise):
    """the asymmetry of the inputs acts on the converted value (and its noise)"""
    x = H.tensor("x", 2)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3)
    nz = 0.125 if noise else 0.0
    m = H.mark()
    base = AnalogMVM.matmul(eye(H, 2), x, neutral(inp_bound=B, inp_res=res, inp_noise=nz))
    H.rewind(m)
    y = AnalogMVM.matmul(eye(H, 2), x, neutral(inp_bound=B, inp_res=res, inp_noise=nz, inp_asymmetry=asym))
    H.eq("negative values are scaled", y, torch.where(base < 0, base * (1 - asym), base))


@contract("C05", cases=[dict(trans=t, nd=nd, std=s) for t in (False, True) for nd in (1, 2, 3) for s in (False, True)])
def output_continuous(H, trans, nd, std):
    """without discretisation: clip(exact product + noise strength times the draw)"""
    sh = {1: (2,), 2: (2, 2), 3: (2, 2, 2)}[nd]
    w, x = H.tensor("w", 3, 2), H.tensor("x", *(sh[:-1] + ((3,) if trans else (2,))))
    B = H.real("bound", gt=0.0, flo=1, fhi=8)
    n_out = 2 if trans else 3
    s = H.tensor("s", n_out, lo=0) if std else H.real("s1", gt=0.0)
    kw = dict(out_noise_values=s) if std else {}
    io = neutral(out_bound=B, out_noise=1.0 if std else s)
    free = neutral(out_noise=1.0 if std else s)
    m = H.mark()
    y = AnalogMVM.matmul(w, x, io, trans, **kw)
    H.rewind(m)
    z = AnalogMVM.matmul(w, x, free, trans, **kw)
    H.rewind(m)
    one = neutral(out_noise=1.0)
    g = AnalogMVM.matmul(w * 0, x, one, trans)
    exact = torch.matmul(x, w if trans else w.t())
    H.eq("noise strength scales the output noise, output by output", z, exact + g * s)
    lim = torch.minimum(torch.maximum(z, -torch.ones_like(z) * B), torch.ones_like(z) * B)
    H.eq("output is the clipped noisy product", y, lim)


@contract("C05", cases=[dict(nd=nd, res=r, noise=z) for nd in (1, 2) for r in (-1, 4) for z in (0.0, 0.1) if nd == 1 or r < 0])
def homogeneous(H, nd, res, noise):
    """noise management by the absolute maximum: scaling the input scales the output"""
    x = H.tensor("x", *((2,) if nd == 1 else (2, 2)))
    w = H.tensor("w", 2, 2)
    c = H.real("c", gt=0.0, flo=0.01, fhi=100)
    if noise:
        H.assume([(r.abs() > 0).any() for r in x.reshape(-1, 2)])
    io = neutral(inp_bound=1.0, inp_res=res, out_bound=5.0, out_res=res, out_noise=noise, noise_management=NM.ABS_MAX)
    m = H.mark()
    y = AnalogMVM.matmul(w, x, io)
    H.rewind(m)
    z = AnalogMVM.matmul(w, x * c, io)
    H.eq("output scales with the input", z, y * c, tol=1e-4 if res < 0 else 10.0)


@contract("C05", cases=[dict(nm=nm, bm=b, nd=nd, res=r, sto=s) for nm in NMS for b in (False, True) for nd in (1, 2, 3)
                        for r in (-1, 4) for s in (False, True) if (nd == 2 or r > 0) and not (s and (r < 0 or nm in ("none", "const", "max")))])
def zero_input(H, nm, bm, nd, res, sto):
    """zero input gives zero output when there is neither noise nor offset"""
    sh = {1: (2,), 2: (2, 2), 3: (2, 1, 2)}[nd]
    w = H.tensor("w", 3, 2)
    x = torch.zeros(*sh, dtype=H.float_dtype)
    io = neutral(inp_bound=1.0, inp_res=res, inp_sto_round=sto, out_bound=5.0, out_res=res, noise_management=NMS[nm],
                 bound_management=BM.ITERATIVE if bm else BM.NONE)
    y = AnalogMVM.matmul(w, x, io)
    H.eq("zero output", y, torch.zeros(*(sh[:-1] + (3,)), dtype=H.float_dtype))


@contract("C05", cases=[dict(row=r) for r in (0, 1)])
def zero_row(H, row):
    """a zero sample in a batch gives zero whatever the other sample is"""
    x = H.tensor("x", 1, 2)
    w = H.tensor("w", 2, 2)
    z = torch.zeros(1, 2, dtype=H.float_dtype)
    io = neutral(inp_bound=1.0, inp_res=4, out_bound=5.0, out_res=8, noise_management=NM.ABS_MAX)
    y = AnalogMVM.matmul(w, torch.cat([z, x] if row == 0 else [x, z]), io)
    H.eq("zero output of the zero sample", y[row], torch.zeros(2, dtype=H.float_dtype))
    y2 = AnalogMVM.matmul(w, x, io)
    H.eq("samples are independent", y[1 - row], y2[0])


@contract("C05", cases=[dict(nm=nm, maxf=f, maxr=r, inp_res=ir) for nm in ("none", "absmax") for f, r, ir in
                        ((1000, 0.25, -1), (4, 0.25, -1), (1000, 0.25, 32), (1000, 0.25, 0.25), (0, 0.25, -1))], max_paths=400)
def bound_management(H, nm, maxf, maxr, inp_res):
    """iterative bound management: smallest power of two that avoids clipping, unless a limit stops it"""
    a = H.tensor("a", 2)
    H.assume((a.abs() <= 30.0).all() if not H.sym else [v <= 30.0 for v in a.abs()])
    wv = H.tensor("w", 2, flo=-8, fhi=8)
    H.assume([(v <= 8.0) & (v >= -8.0) for v in wv])
    B = 2.0
    io = neutral(out_bound=B, bound_management=BM.ITERATIVE, noise_management=NMS[nm], max_bm_factor=maxf, max_bm_res=maxr)
    if inp_res > 0:
        # the resolution only matters for the stop criterion: use an identity map of grid values
        io.inp_res, io.inp_bound = inp_res, 1.0
        return bm_limit(H, io, inp_res, maxf, maxr)
    w = torch.stack([wv, wv * 0.5])
    y = AnalogMVM.matmul(w, a, io)
    s = nm_scale(H, nm, a, 0.0)
    z = torch.matmul(a, w.t()) / s
    k, r, done = 0, None, None
    f = 1.0
    for k in range(12):
        cl = torch.clamp(z / f, -B, B)
        ok = (z / f <= B).all() & (z / f >= -B).all()
        if f > maxf:
            ok = ok | True
        if r is None:
            r, done = cl * f, ok
        else:
            r = torch.where(done, r, cl * f)
            done = done | ok
        f *= 2.0
        if f / 2 > maxf:
            break
    H.eq("output of the first passing round, rescaled", y, r * s)
    if maxf >= 1000:
        H.eq("no clipping remains", y, torch.matmul(a, w.t()))


def bm_limit(H, io, inp_res, maxf, maxr):
    x = H.tensor("x", 1)
    H.assume([(v <= 1.0) & (v >= -1.0) for v in x])
    w = torch.ones(1, 1, dtype=H.float_dtype) * 100.0
    y = AnalogMVM.matmul(w, x, io)
    st = step(inp_res, 1.0)
    lim = maxr / st
    # the largest factor that may be used is the first power of two beyond the limit
    f = 1.0
    while not f > lim:
        f *= 2.0
    H.within("limited by the input resolution", -f * io.out_bound, y, f * io.out_bound)
    one = AnalogMVM.matmul(w * 0.01, x, io)
    H.within("small outputs need no bound management", x - st / 2, one, x + st / 2, tol=1e-6) if io.noise_management == NM.NONE else None


@contract("C05", cases=[dict(kind="torch", mapped=m) for m in (False, True)] + [dict(kind="custom", mapped=False)])
def tile_level(H, kind, mapped):
    """the tile hands its configured converters to the product: output range and grid before the digital scales"""
    c = cfg(kind, perfect=False, weight_scaling_omega=0.5 if mapped else 0.0, learn_out_scaling=False)
    c.forward = neutral(inp_bound=1.0, inp_res=4, out_bound=3.0, out_res=6, noise_management=NM.NONE)
    if hasattr(c, "backward"):
        c.backward = neutral(inp_bound=1.0, inp_res=4, out_bound=3.0, out_res=6)
    t = tile(kind, 2, 2, config=c)
    w = H.tensor("w", 2, 2)
    t.set_weights(w)
    t.eval()
    x = H.tensor("x", 1, 2)
    y = t(x)
    s = t.get_scales()
    y = y if s is None else y / s.reshape(-1)
    H.within("output inside the output bound", -3.0, y, 3.0)
    H.grid("output on the output grid", y, 1.0)
    ref = AnalogMVM.matmul(t.tile.get_weights(), x, c.forward)
    H.eq("tile output is the analog product", y, ref)
    if kind == "custom":
        d = H.tensor("d", 1, 2)
        g = t.backward(d)
        g = g if s is None else g
        H.within("input gradient inside the output bound", -3.0, g, 3.0, when=(not mapped))
        H.grid("input gradient on the output grid", g, 1.0)


@contract("C05", cases=[dict(noise=z) for z in (False, True)])
def input_noise(H, noise):
    """input noise enters linearly after quantisation and clipping"""
    x = H.tensor("x", 2)
    s = H.real("s", gt=0.0, flo=0.01, fhi=1)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3)
    m = H.mark()
    y0 = AnalogMVM.matmul(eye(H, 2), x, neutral(inp_bound=B, inp_res=4))
    y1 = AnalogMVM.matmul(eye(H, 2), x, neutral(inp_bound=B, inp_res=4, inp_noise=s))
    H.rewind(m)
    g = AnalogMVM.matmul(eye(H, 2), x * 0, neutral(inp_bound=B, inp_res=4, inp_noise=1.0))
    H.eq("input noise adds its strength times the draw", y1 - y0, g * s)


@contract("C05", cases=[dict(mode=m, res=r) for m in ("split", "bit", "one") for r in (14, 30)], tol=1e-6)
def irdrop_modes(H, mode, res):
    """split and bit-wise input modes without IR drop: partial inputs recombine to the quantised input"""
    io = IOParametersIRDropT(inp_bound=1.0, inp_res=1.0 / res, out_bound=0.0, out_res=-1, out_noise=0.0, ir_drop=0.0,
                             noise_management=NM.NONE, bound_management=BM.NONE)
    io.mv_type = {"split": AnalogMVType.SPLIT_MODE, "bit": AnalogMVType.BIT_WISE, "one": AnalogMVType.ONE_PASS}[mode]
    io.split_mode_bit_shift = 2
    x = H.tensor("x", 1)
    H.assume([(v <= 1.2) & (v >= -1.2) for v in x])
    w = H.tensor("w", 1, 1)
    y = AnalogMVMIRDropT.matmul(w, x, io, phys_input_size=8, g_converter=None)
    ref = AnalogMVM.matmul(w, x, neutral(inp_bound=1.0, inp_res=1.0 / res))
    H.eq("recombined output equals the single pass product", y, ref)


@contract("C05", cases=[dict(res=r, sto=s) for r in (4, 0.25, 126) for s in (False, True)], tol=1e-6)
def quantize_function(H, res, sto):
    x = H.tensor("x", 2)
    x0 = H.clone(x)
    B = H.real("bound", gt=0.0, flo=0.2, fhi=3)
    y = UniformQuantize.apply(x, res, B, sto)
    st = step(res, B)
    H.eq("input unchanged", x, x0)
    H.grid("on grid", y, st)
    t = st if sto else st / 2
    H.within("rounding error", x0 - t, y, x0 + t)
