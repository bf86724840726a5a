"""C09 programming, drift and read noise of the inference noise models."""
import math
import torch
from pyvc.harness import contract
from aihwkit.inference.noise.pcm import PCMLikeNoiseModel, CustomDriftPCMLikeNoiseModel
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise.reram import ReRamWan2022NoiseModel, ReRamCMONoiseModel
from aihwkit.inference.converter.conductance import (
    SinglePairConductanceConverter, DualPairConductanceConverter, NPairConductanceConverter)

DRIFT = {"g_lst": [0.0, 8.0, 40.0], "nu_mean_lst": [0.125, 0.0625, 0.03125], "nu_std_lst": [0.0625, 0.03125, 0.0]}
COEFF = [0.25, 2.0, -1.125]
DEF = {"pcm": ([0.26348, 1.9650, -1.1731], 25.0),
       "hermes1": ([0.15781817, 2.32443916, -2.16310839, 0.68841818], 10.35),
       "hermes2": ([0.16603222, 4.71806468, -8.48101252, 4.68961419], 20.7),
       "indep": ([0.2, 0.0, 0.0], None)}
WAN = {1.0: [0.348, 16.030, -43.853, 45.393, -16.815], 86400.0: [0.701, 22.086, -50.773, 47.095, -16.458],
       172800.0: [0.782, 20.274, -43.507, 37.062, -11.934]}


def model(name, **kw):
    """a model that has been used before: nothing may depend on what it was applied to earlier"""
    M = fresh_model(name, **kw)
    g = torch.tensor([0.5, 2.0])
    M.apply_programming_noise_to_conductance(g)
    p = M.generate_drift_coefficients(g)
    if name != "wan":
        M.apply_drift_noise_to_conductance(g, p, 0.0)
    return M


def fresh_model(name, **kw):
    if name == "pcm":
        return PCMLikeNoiseModel(**kw)
    if name == "drift":
        return CustomDriftPCMLikeNoiseModel(DRIFT, **kw)
    if name == "indep":
        kw.pop("prog_coeff_g_max_reference", None)
        return StateIndependentNoiseModel(**kw)
    if name in ("hermes1", "hermes2"):
        return HermesNoiseModel(num_devices=int(name[-1]), **kw)
    if name == "wan":
        return ReRamWan2022NoiseModel(**kw)
    raise KeyError(name)


def poly(coeff, u):
    r, p = 0.0 * u + coeff[0], 1.0
    for c in coeff[1:]:
        p = p * u
        r = r + p * c
    return r


def gmax(H, name):
    g = H.real("g_max", gt=0.0, flo=4, fhi=10)
    if name.startswith("hermes"):
        H.assume(g <= (10.35 if name == "hermes1" else 20.7))
    if name == "drift":
        H.assume(g <= 40.0)
    return g


PCM_LIKE = ["pcm", "drift", "indep", "hermes1", "hermes2"]


@contract("C09", cases=[dict(name=n, coeff=c) for n in PCM_LIKE for c in ("default", "given", "reference", "single")])
def programming_noise(H, name, coeff):
    """target plus scaled draw of the documented width, never negative; the target is left alone"""
    G = gmax(H, name)
    s = H.real("scale", lo=0.0, fhi=2)
    kw = dict(g_max=G, prog_noise_scale=s)
    cf, ref = DEF["pcm" if name == "drift" else name]
    if coeff == "given":
        cf, ref = COEFF, G
        kw.update(prog_coeff=list(COEFF))
    elif coeff == "single":
        cf, ref = [0.75], G
        kw.update(prog_coeff=[0.75])
    elif coeff == "reference":
        ref = H.real("reference", gt=0.0, flo=2, fhi=30)
        cf = COEFF
        kw.update(prog_coeff=list(COEFF), prog_coeff_g_max_reference=ref)
    M = model(name, **kw)
    g = H.tensor("g", 2, lo=0.0, fhi=12)
    g0 = H.clone(g)
    m = H.mark()
    y = M.apply_programming_noise_to_conductance(g)
    H.rewind(m)
    draw = torch.randn_like(g0)
    sig = poly(cf, g0 / G)
    if name != "indep":
        sig = sig * (G / ref)
    H.eq("target unchanged", g, g0)
    H.le("conductance not negative", 0.0, y)
    H.eq("target plus scaled draw", y, torch.clamp(g0 + s * sig * draw, min=0.0))


@contract("C09", cases=[dict(name=n) for n in PCM_LIKE + ["wan"]])
def zero_programming_noise(H, name):
    """with a zero scale programming returns the target"""
    G = gmax(H, name)
    key = "noise_scale" if name == "wan" else "prog_noise_scale"
    M = model(name, g_max=G, **{key: 0.0})
    g = H.tensor("g", 3, lo=0.0, fhi=12)
    g0 = H.clone(g)
    y = M.apply_programming_noise_to_conductance(g)
    H.eq("programmed equals target", y, g0)
    H.eq("target unchanged", g, g0)


@contract("C09", cases=[dict(name=n) for n in ("pcm", "indep")])
def drift_coefficients(H, name):
    """drift coefficients follow the documented statistics and are never negative"""
    G = gmax(H, name)
    ds = H.real("drift_scale", lo=0.0, fhi=2)
    kw = dict(drift_scale=ds, g_max=G)
    if name == "indep":
        mean, std = H.real("nu_mean", flo=-0.2, fhi=0.2), H.real("nu_std", lo=0.0, fhi=0.2)
        kw.update(drift_nu_mean=mean, drift_nu_std=std)
    M = model(name, **kw)
    g = H.tensor("g", 2, lo=0.0, fhi=12)
    g0 = H.clone(g)
    m = H.mark()
    nu = M.generate_drift_coefficients(g)
    H.rewind(m)
    draw = torch.randn_like(g0)
    if name == "pcm":
        rel = torch.clamp((g0 / G).abs(), min=1e-7)
        mean = (-0.0155 * torch.log(rel) + 0.0244).clamp(min=0.049, max=0.1)
        std = (-0.0125 * torch.log(rel) - 0.0059).clamp(min=0.008, max=0.045)
    H.eq("target unchanged", g, g0)
    H.le("drift coefficient not negative", 0.0, nu)
    H.eq("drift coefficient", nu, (mean + std * draw).abs() * ds)


def interp(x, xs, ys):
    r = 0.0 * x + ys[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = torch.where(x < xs[i + 1], ys[i] + (x - xs[i]) * ((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])), r)
    return torch.where(x < xs[0], 0.0 * x + ys[0], r)


@contract("C09", tol=1e-5)
def custom_drift_coefficients(H):
    """coefficients interpolate the given table at the (range limited) target, which is left alone"""
    ds = H.real("drift_scale", lo=0.0, fhi=2)
    M = model("drift", drift_scale=ds)
    g = H.tensor("g", 2, lo=0.0, fhi=50)
    g0 = H.clone(g)
    m = H.mark()
    nu = M.generate_drift_coefficients(g)
    H.rewind(m)
    draw = torch.randn_like(g0)
    u = g0.clamp(min=0.0, max=40.0)
    H.eq("target unchanged", g, g0)
    H.le("drift coefficient not negative", 0.0, nu)
    H.eq("drift coefficient", nu, (interp(u, DRIFT["g_lst"], DRIFT["nu_mean_lst"])
                                   + interp(u, DRIFT["g_lst"], DRIFT["nu_std_lst"]) * draw).abs() * ds)


@contract("C09", cases=[dict(name=n) for n in ("hermes1", "hermes2")])
def hermes_drift_coefficients(H, name):
    """piecewise documented fit of mean and standard deviation"""
    G = gmax(H, name)
    ds = H.real("drift_scale", lo=0.0, fhi=2)
    M = model(name, g_max=G, drift_scale=ds)
    g = H.tensor("g", 1, lo=0.0, fhi=12)
    g0 = H.clone(g)
    m = H.mark()
    nu = M.generate_drift_coefficients(g)
    H.rewind(m)
    draw = torch.randn_like(g0)
    rel = torch.clamp((g0 / G).abs(), min=1e-7)
    lg = torch.log(rel)
    mean = torch.where(rel < 0.0945, (-0.0387 * lg - 0.0182).clamp(min=0.072, max=0.13), -0.0436 * rel * rel - 0.0126 * rel + 0.0736)
    if name == "hermes1":
        std = torch.where(rel < 0.3039, (-0.012 * lg - 0.0023).clamp(min=0.0124, max=0.04), -0.0165 * rel * rel + 0.0116 * rel + 0.0104)
    else:
        std = torch.where(rel < 0.3055, (-0.0117 * lg - 0.0057).clamp(min=0.0091, max=0.04), -0.0118 * rel * rel + 0.0093 * rel + 0.0073)
    H.eq("target unchanged", g, g0)
    H.le("drift coefficient not negative", 0.0, nu)
    H.eq("drift coefficient", nu, (mean + std * draw).abs() * ds)


def times(H, when, t0):
    t = H.real("t", flo=-10, fhi=1000)
    if when == "before":
        H.assume(t <= 0)
        H.assume(t + t0 > 0)
    else:
        H.assume(t > 0)
    return t


@contract("C09", cases=[dict(name=n, when=w) for n in PCM_LIKE for w in ("before", "after")])
def drift_law(H, name, when):
    """without read noise: power law in time, the programmed value at or before t_0, never an increase"""
    t0 = H.real("t_0", gt=0.0, flo=12, fhi=40)
    t = times(H, when, t0)
    H.assume(t + t0 >= 1e-6)
    M = model(name, t_0=t0, t_read=1e-6, read_noise_scale=0.0)
    g = H.tensor("g", 2, lo=0.0, fhi=12)
    nu = H.tensor("nu", 2, lo=0.0, fhi=0.3)
    g0, nu0 = H.clone(g), H.clone(nu)
    if name.startswith("hermes"):
        g, g0, nu, nu0 = g[:1], g0[:1], nu[:1], nu0[:1]
    y = M.apply_drift_noise_to_conductance(g, nu, t)
    H.eq("conductances unchanged", g, g0)
    H.eq("coefficients unchanged", nu, nu0)
    if when == "before":
        H.eq("programmed value up to the reference time", y, g0)
    else:
        H.eq("power law", y, g0 * ((t + t0) / t0) ** (-nu0))
        H.within("drift never increases a conductance", 0.0, y, g0)


@contract("C09", cases=[dict(name=n, when=w) for n in PCM_LIKE for w in ("before", "after")])
def read_noise(H, name, when):
    """read noise is the documented multiple of the drifted conductance; the result is not negative"""
    t0 = H.real("t_0", gt=0.0, flo=12, fhi=40)
    tr = H.real("t_read", gt=0.0, flo=0.5, fhi=1)
    t = times(H, when, t0)
    H.assume(t + t0 >= tr)
    rs = H.real("read_scale", lo=0.0, fhi=2)
    G = gmax(H, name)
    M = model(name, g_max=G, t_0=t0, t_read=tr, read_noise_scale=rs)
    n = 1
    g, nu = H.tensor("g", n, lo=0.0, fhi=12), H.tensor("nu", n, lo=0.0, fhi=0.3)
    g0 = H.clone(g)
    m = H.mark()
    y = M.apply_drift_noise_to_conductance(g, nu, t)
    H.rewind(m)
    draw = torch.randn_like(g0)
    d = g0 * ((t + t0) / t0) ** (-nu) if when == "after" else g0
    arg = ((t + t0) + tr) / (2 * tr)
    root = torch.sqrt(torch.log(arg * torch.ones_like(g0)))
    rel = g0.abs() / G
    if name in ("pcm", "drift"):
        q = d.abs() * (0.0088 / (rel ** 0.65).clamp(min=1e-3)).clamp(max=0.2)
    elif name == "indep":
        q = (d / G).abs()
    elif name == "hermes1":
        q = d.abs() * torch.where(rel < 0.1591, (-0.0078 * torch.log(rel) + 0.0038).clamp(min=0.0179, max=0.04),
                                  0.0664 * rel ** 3 - 0.1352 * rel ** 2 + 0.0768 * rel + 0.0088)
    else:
        q = d.abs() * torch.where(rel < 0.16, (-0.0117 * torch.log(rel) - 0.0069).clamp(min=0.015, max=0.04),
                                  0.0069 * rel ** 3 - 0.0280 * rel ** 2 + 0.0211 * rel + 0.0123)
    H.eq("conductances unchanged", g, g0)
    H.le("conductance not negative", 0.0, y)
    H.eq("drifted conductance plus read noise", y, torch.clamp(d + rs * q * root * draw, min=0.0))


@contract("C09", cases=[dict(t=t, ref=r) for t in (None, 1.0, 86400.0, 172800.0) for r in ("default", "given", "custom")])
def wan_noise(H, t, ref):
    """the tabulated fit of the asked time is applied to the target"""
    G = H.real("g_max", gt=0.0, flo=10, fhi=50)
    s = H.real("scale", lo=0.0, fhi=2)
    tab, R = WAN, 40.0
    kw = dict(g_max=G, noise_scale=s)
    if ref != "default":
        tab = {1.0: [0.5, 2.0], 86400.0: [0.25, 0.5, -1.0], 172800.0: [1.0, -0.125]}
        R = G
        kw.update(coeff_dic=tab)
    if ref == "custom":
        R = H.real("reference", gt=0.0, flo=10, fhi=50)
        kw.update(coeff_g_max_reference=R)
    M = model("wan", **kw)
    g = H.tensor("g", 2, lo=0.0, fhi=30)
    p = H.tensor("p", 2, lo=0.0, fhi=30)
    g0, p0 = H.clone(g), H.clone(p)
    m = H.mark()
    if t is None:
        y = M.apply_programming_noise_to_conductance(g)
    else:
        y = M.apply_drift_noise_to_conductance(p, M.generate_drift_coefficients(g), t)
    H.rewind(m)
    draw = torch.randn_like(g0)
    H.eq("target unchanged", g, g0)
    H.eq("programmed value unchanged", p, p0)
    H.le("conductance not negative", 0.0, y)
    H.eq("noise of the tabulated fit", y, torch.clamp(g0 + s * (poly(tab[t or 1.0], g0 / G) * (G / R)) * draw, min=0.0))
    try:
        M.apply_drift_noise_to_conductance(p, g, 12.0)
        H.ensure("unknown time rejected", False)
    except Exception as e:
        H.ensure("unknown time rejected", type(e).__name__ == "ArgumentError")


@contract("C09", cases=[dict(part=p) for p in ("program", "program2", "zero", "drift", "read")])
def cmo_noise(H, part):
    """ReRAM CMO model: programming, relaxation and read noise; range limited"""
    ps, ds, rs = (H.real(n, lo=0.0, fhi=2) for n in ("prog", "drift", "read"))
    if part in ("zero",):
        ds = rs = 0.0
    if part == "drift":
        rs = 0.0
    kw = {}
    if part == "program2":
        kw = dict(acceptance_range=2)
    M = ReRamCMONoiseModel(g_max=80.0, g_min=8.0, prog_noise_scale=ps, drift_scale=ds, read_noise_scale=rs, **kw)
    g = H.tensor("g", 2, lo=8.0, hi=80.0, flo=8, fhi=80)
    g0 = H.clone(g)
    m = H.mark()
    if part.startswith("program"):
        y = M.apply_programming_noise_to_conductance(g)
        H.rewind(m)
        c = [0.00081107, 0.00106879] if part == "program" else [0.0112185391, 0.01129027418]
        H.eq("target plus scaled draw", y, g0 + (c[0] + c[1] * g0) * torch.randn_like(g0) * ps)
        H.eq("target unchanged", g, g0)
        return
    y = M.apply_drift_noise_to_conductance(g, M.generate_drift_coefficients(g), 0)
    H.eq("programmed value at time zero", y, g0)
    t = H.real("t", gt=0.0, lo=1.0, flo=1, fhi=100)
    m = H.mark()
    y = M.apply_drift_noise_to_conductance(g, M.generate_drift_coefficients(g), t)
    H.rewind(m)
    H.eq("conductances unchanged", g, g0)
    if part == "zero":
        H.eq("exact at zero strength", y, g0)
        return
    lt = torch.log(t * torch.ones_like(g0))
    d = g0 - 0.08900206 * lt * ds + torch.randn_like(g0) * (0.04201137 * lt + 0.41183342) * ds
    if part == "drift":
        H.eq("mean shift and relaxation, range limited", y, d.clamp(min=8.0, max=80.0))
    else:
        sig = 0.0277316483 * torch.log10(d) * torch.sqrt(torch.log((t + 1e-6) / (2 * 1e-6) * torch.ones_like(g0)))
        want = (d + sig * torch.randn_like(g0) * rs).clamp(min=8.0, max=80.0)
        for i in range(2):
            H.eq("drift plus read noise, range limited", y[i], want[i], when=d[i] > 0)
    for i in range(2):
        H.within("inside the device range", 8.0, y[i], 80.0, when=d[i] > 0)


CONV = {"single": lambda: SinglePairConductanceConverter(g_max=16.0, g_min=0.0),
        "dual": lambda: DualPairConductanceConverter(f_lst=[1.0, 4.0], g_max=16.0, g_min=0.0),
        "npair": lambda: NPairConductanceConverter(f_lst=[1.0, 2.0, 4.0], g_max=16.0, g_min=0.0)}


@contract("C09", cases=[dict(name=n, conv=c) for n in PCM_LIKE + ["wan"] for c in ("single", "dual", "npair")
                        if c == "single" or n in ("pcm", "indep")], tol=1e-5)
def weights_exact_at_zero_strength(H, name, conv):
    """on weights: zero scales return the weights exactly, and no given tensor is modified"""
    if conv == "single":
        cv = CONV["single"]()
    else:
        try:
            cv = CONV[conv]()
        except TypeError:
            return
    if name == "wan":
        M = model(name, g_converter=cv, noise_scale=0.0)
        ts = (0.0, 1.0, 86400.0)
    else:
        if name == "hermes1":
            cv = SinglePairConductanceConverter(g_max=8.0, g_min=0.0)
        M = model(name, g_converter=cv, prog_noise_scale=0.0, read_noise_scale=0.0, drift_scale=0.0)
        ts = (0.0, 100.0)
    w = H.tensor("w", 1, 2, flo=-2, fhi=2)
    H.assume(w[0, 0] != 0)
    w0 = H.clone(w)
    p, nu = M.apply_programming_noise(w)
    H.eq("programmed weights", p, w0)
    for t in ts:
        H.eq("weights with noise at t", M.apply_noise(w, t), w0)
    for t in ts:
        if t or name != "wan":
            H.eq("drifted weights", M.apply_drift_noise(p, nu, t), w0)
    H.eq("given weights unchanged", w, w0)
    H.eq("programmed weights unchanged", p, w0)


@contract("C09", cases=[dict(name=n) for n in ("pcm", "indep")])
def weights_composition(H, name):
    """apply_noise is programming followed by drift with the coefficients of the target"""
    M = model(name, g_max=16.0)
    w = H.tensor("w", 1, 1, flo=-2, fhi=2)
    H.assume(w[0, 0] != 0)
    w0 = H.clone(w)
    m = H.mark()
    y = M.apply_noise(w, 100.0)
    H.rewind(m)
    gs, params = M.g_converter.convert_to_conductances(w0)
    out = []
    for g in gs:
        gp = M.apply_programming_noise_to_conductance(g)
        nu = M.generate_drift_coefficients(g)
        out.append(M.apply_drift_noise_to_conductance(gp, nu, 100.0))
    H.eq("noisy weights", y, M.g_converter.convert_back_to_weights(out, params))
    m = H.mark()
    y = M.apply_noise(w, 0.0)
    H.rewind(m)
    out = [M.apply_programming_noise_to_conductance(g) for g in gs]
    H.eq("without time only programming noise", y, M.g_converter.convert_back_to_weights(out, params))
    m = H.mark()
    y, nus = M.apply_programming_noise(w)
    H.rewind(m)
    out = []
    for g, nu in zip(gs, nus):
        out.append(M.apply_programming_noise_to_conductance(g))
        H.eq("coefficients of the slice", nu, M.generate_drift_coefficients(g))
    H.eq("programmed weights", y, M.g_converter.convert_back_to_weights(out, params))
    H.eq("given weights unchanged", w, w0)
