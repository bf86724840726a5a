"""C11 programming and drifting start from the right reference weights."""
import torch
from pyvc.harness import contract
from aihwkit.nn import AnalogLinear, AnalogSequential
from aihwkit.inference.noise.base import BaseNoiseModel
from aihwkit.inference.noise.pcm import PCMLikeNoiseModel
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise.reram import ReRamWan2022NoiseModel
from aihwkit.inference.converter.conductance import SinglePairConductanceConverter
from aihwkit.inference.compensation.drift import GlobalDriftCompensation
from aihwkit.inference.utils import drift_analog_weights, program_analog_weights
from aihwkit.exceptions import ModuleError, ConfigError
from .common import cfg, tile, stored


class Probe(BaseNoiseModel):
    """programming adds a fresh draw, drift is an arbitrary function of (programmed, parameters, t)"""
    def __init__(self, rate):
        super().__init__()
        self.rate, self.calls = rate, 0

    def apply_programming_noise(self, weights):
        self.calls += 1
        return weights + torch.randn_like(weights), [torch.randn_like(weights)]

    def apply_drift_noise(self, weights, drift_noise_parameters, t_inference):
        return weights * self.rate + drift_noise_parameters[0] * t_inference


KINDS = ("inference", "torch")


def build(H, kind, bias="none", comp=False, noise=None, **kw):
    c = cfg(kind, True, digital_bias=bias != "analog", **kw)
    c.drift_compensation = GlobalDriftCompensation() if comp else None
    c.noise_model = noise if noise is not None else Probe(H.real("rate", flo=-1, fhi=1))
    t = tile(kind, 2, 2, bias != "none", config=c)
    return t


BC = [dict(kind=k, bias=b, comp=c) for k in KINDS for b in ("none", "digital", "analog") for c in (False, True)
      if (k, b) != ("torch", "analog")]


def freeze(t):
    return {n: (None if v is None else v.detach().clone()) for n, v in
            (("out scales", t.get_learned_out_scales() if hasattr(t, "get_learned_out_scales") else None),
             ("mapping scales", t.get_mapping_scales()), ("scales", t.get_scales()),
             ("bias", t.bias if t.digital_bias else None))}


def same(H, t, f):
    g = freeze(t)
    for n, v in f.items():
        H.ensure("%s unchanged" % n, (v is None) == (g[n] is None))
        if v is not None:
            H.eq("%s unchanged" % n, g[n], v)


@contract("C11", cases=BC)
def drift_starts_from_programmed(H, kind, bias, comp):
    """drift(t) is a function of the last programming event and t only"""
    t = build(H, kind, bias, comp, weight_scaling_omega=0.5, weight_scaling_columnwise=True)
    w = H.tensor("w", 2, 2)
    b = H.tensor("b", 2) if bias != "none" else None
    t.set_weights(w, b)
    t.eval()
    target = H.clone(stored(t))
    f = freeze(t)
    m = H.mark()
    t.program_weights()
    H.rewind(m)
    pr = target + torch.randn_like(target)
    nu = torch.randn_like(target)
    r = t.rpu_config.noise_model.rate
    H.eq("programmed from the target", stored(t), pr)
    H.eq("reference is the target", t.reference_combined_weights, target)
    for time in (3.0, 5.0, 3.0, 0.0):
        t.drift_weights(time)
        H.eq("drifted from the programmed state", stored(t), pr * r + nu * time)
        H.eq("programmed state kept", t.programmed_weights, pr)
        H.eq("reference kept", t.reference_combined_weights, target)
        same(H, t, f)
    m = H.mark()
    t.program_weights()
    H.rewind(m)
    pr = target + torch.randn_like(target)
    nu = torch.randn_like(target)
    H.eq("programmed again from the target", stored(t), pr)
    t.drift_weights(7.0)
    H.eq("drifted from the new programmed state", stored(t), pr * r + nu * 7.0)
    H.eq("reference kept", t.reference_combined_weights, target)
    same(H, t, f)
    H.ensure("programmed once per event", t.rpu_config.noise_model.calls == 2)


@contract("C11", cases=BC)
def drift_programs_first(H, kind, bias, comp):
    """an unprogrammed tile is programmed once by the first drift; reprogramming from the current state on request"""
    t = build(H, kind, bias, comp)
    w = H.tensor("w", 2, 2)
    t.set_weights(w, H.tensor("b", 2) if bias != "none" else None)
    t.eval()
    target = H.clone(stored(t))
    r = t.rpu_config.noise_model.rate
    m = H.mark()
    t.drift_weights(2.0)
    H.rewind(m)
    pr = target + torch.randn_like(target)
    nu = torch.randn_like(target)
    H.eq("drifted from the programmed target", stored(t), pr * r + nu * 2.0)
    t.drift_weights(4.0)
    H.ensure("programmed once", t.rpu_config.noise_model.calls == 1)
    cur = pr * r + nu * 4.0
    H.eq("drifted", stored(t), cur)
    m = H.mark()
    t.program_weights(from_reference=False)
    H.rewind(m)
    pr = cur + torch.randn_like(target)
    H.eq("reference is the current state", t.reference_combined_weights, cur)
    H.eq("programmed from the current state", stored(t), pr)


@contract("C11", cases=BC)
def set_weights_renews_reference(H, kind, bias, comp):
    """weights written after programming become the new target"""
    t = build(H, kind, bias, comp)
    w, v = H.tensor("w", 2, 2), H.tensor("v", 2, 2)
    b = H.tensor("b", 2) if bias != "none" else None
    t.set_weights(w, b)
    t.eval()
    t.program_weights()
    t.drift_weights(1.0)
    t.set_weights(v, b)
    target = H.clone(stored(t))
    m = H.mark()
    t.program_weights()
    H.rewind(m)
    H.eq("reference is the new target", t.reference_combined_weights, target)
    H.eq("programmed from the new target", stored(t), target + torch.randn_like(target))


@contract("C11", cases=[dict(c, programmed=p) for c in BC for p in (False, True)])
def realistic_write(H, kind, bias, comp, programmed):
    """a realistic write programs the weights that are written, whatever was programmed before"""
    t = build(H, kind, bias, comp)
    w, v = H.tensor("w", 2, 2), H.tensor("v", 2, 2)
    b = H.tensor("b", 2) if bias != "none" else None
    t.set_weights(w, b)
    if programmed:
        t.program_weights()
    new = build(H, kind, bias, comp, t.rpu_config.noise_model)
    new.set_weights(v, b)
    target = H.clone(stored(new))
    m = H.mark()
    t.set_weights(v, b, realistic=True)
    H.rewind(m)
    H.eq("reference is the new target", t.reference_combined_weights, target)
    H.eq("programmed from the new target", stored(t), target + torch.randn_like(target))


def quiet(name):
    cv = SinglePairConductanceConverter(g_max=16.0, g_min=0.0)
    z = dict(prog_noise_scale=0.0, read_noise_scale=0.0, drift_scale=0.0)
    if name == "pcm":
        return PCMLikeNoiseModel(g_converter=cv, **z)
    if name == "indep":
        return StateIndependentNoiseModel(g_converter=cv, **z)
    if name == "hermes":
        return HermesNoiseModel(g_converter=cv, **z)
    return ReRamWan2022NoiseModel(g_converter=cv, noise_scale=0.0)


@contract("C11", cases=[dict(kind=k, noise=n, bias=b) for k in KINDS for n in ("pcm", "indep", "wan")
                        for b in ("none", "digital", "analog") if (k, b) != ("torch", "analog") and (n == "pcm" or b == "none")],
          tol=1e-5)
def zero_noise(H, kind, noise, bias):
    """zero noise leaves the logical weights as they were"""
    t = build(H, kind, bias, True, quiet(noise))
    w = H.tensor("w", 2, 2, flo=-2, fhi=2)
    H.assume(w[0, 0] != 0)
    b = H.tensor("b", 2) if bias != "none" else None
    t.set_weights(w, b)
    t.eval()
    ws, bs = t.get_weights()
    ws = H.clone(ws)
    for i in range(2):
        t.program_weights()
        H.eq("programmed", t.get_weights()[0], ws)
        for time in (1.0, 86400.0):
            t.drift_weights(time)
            H.eq("drifted", t.get_weights()[0], ws)
            if b is not None:
                H.eq("bias", t.get_weights()[1], bs)


@contract("C11", cases=[dict(kind=k) for k in KINDS])
def explicit_noise_model(H, kind):
    """a given noise model is used and kept; other objects are rejected"""
    t = build(H, kind)
    w = H.tensor("w", 2, 2)
    t.set_weights(w)
    t.eval()
    target = H.clone(stored(t))
    nm = Probe(0.25)
    m = H.mark()
    t.program_weights(noise_model=nm)
    H.rewind(m)
    H.eq("programmed by the given model", stored(t), target + torch.randn_like(target))
    nu = torch.randn_like(target)
    pr = H.clone(stored(t))
    H.ensure("given model used", nm.calls == 1 and t.rpu_config.noise_model is nm)
    t.drift_weights(3.0)
    H.eq("drifted by the given model", stored(t), pr * 0.25 + nu * 3.0)
    try:
        t.program_weights(noise_model=7)
        H.ensure("wrong model rejected", False)
    except ConfigError:
        H.ensure("wrong model rejected", True)


@contract("C11", cases=[dict(how=h, split=s) for h in ("model", "layer") for s in (False, True)])
def model_level(H, how, split):
    """the model functions reach every analog tile of every layer, in evaluation mode only"""
    kw = dict(max_input_size=2, max_output_size=0) if split else {}
    c = cfg("inference", True, weight_scaling_omega=0.0, learn_out_scaling=False, **kw)
    c.drift_compensation = None
    c.noise_model = Probe(0.5)
    l1, l2 = AnalogLinear(3, 2, bias=False, rpu_config=c), AnalogLinear(2, 1, bias=True, rpu_config=c)
    net = torch.nn.Sequential(l1, torch.nn.Linear(2, 2), torch.nn.Sequential(l2))
    w1, w2 = H.tensor("w1", 2, 3), H.tensor("w2", 1, 2)
    l1.set_weights(w1)
    l2.set_weights(w2, torch.zeros(1, dtype=torch.float64))
    tiles = list(l1.analog_tiles()) + list(l2.analog_tiles())
    H.ensure("tiles", len(tiles) == (3 if split else 2))
    target = [H.clone(stored(t)) for t in tiles]
    for f in (lambda: drift_analog_weights(net, 1.0), lambda: program_analog_weights(net, None),
              lambda: l1.drift_analog_weights(1.0), lambda: l1.program_analog_weights()):
        try:
            f()
            H.ensure("rejected in training mode", False)
        except ModuleError:
            H.ensure("rejected in training mode", True)
    for t, w in zip(tiles, target):
        H.eq("untouched in training mode", stored(t), w)
    net.eval()
    m = H.mark()
    if how == "model":
        program_analog_weights(net, None)
    else:
        l1.program_analog_weights()
        l2.program_analog_weights()
    H.rewind(m)
    pr, nu = [], []
    for t, w in zip(tiles, target):
        pr.append(w + torch.randn_like(w))
        nu.append(torch.randn_like(w))
        H.eq("every tile programmed", stored(t), pr[-1])
    for time in (2.0, 1.0):
        if how == "model":
            drift_analog_weights(net, time)
        else:
            l1.drift_analog_weights(time)
            l2.drift_analog_weights(time)
        for t, p, n in zip(tiles, pr, nu):
            H.eq("every tile drifted", stored(t), p * 0.5 + n * time)
    nm = Probe(2.0)
    program_analog_weights(net, nm)
    H.ensure("given model reaches every tile", nm.calls == len(tiles) and all(t.rpu_config.noise_model is nm for t in tiles))


@contract("C11", cases=[dict(x=x, rep=r, scale=s) for x in (False, True) for r in (1, 2) for s in (False, True)])
def write_verify(H, x, rep, scale):
    """programming by read and verify aims at the reference and restores the learning rate"""
    kw = dict(weight_scaling_omega=0.5) if scale else dict(weight_scaling_omega=0.0)
    c = cfg("analog", True, learn_out_scaling=False, **kw)
    from aihwkit.simulator.parameters.enums import PulseType
    t = tile("fp", 2, 2, config=cfg("fp", True, learn_out_scaling=False, **kw))
    w = H.tensor("w", 2, 2, flo=-0.5, fhi=0.5)
    H.assume(w[0, 0] != 0)
    t.set_weights(w)
    target = H.clone(stored(t))
    f = freeze(t)
    lr = H.real("lr", gt=0.0, flo=0.01, fhi=1)
    t.tile.set_learning_rate(lr)
    w0 = H.tensor("w0", 2, 2, flo=-0.5, fhi=0.5)
    xs = torch.eye(2, dtype=torch.float64) if x else None
    for i in range(rep):
        t.program_weights(x_values=xs, learning_rate=0.25, max_iter=2, tolerance=None, w_init=H.clone(w0))
    e = 0.75 * 0.75
    H.eq("reference is the target", t.reference_combined_weights, target)
    H.eq("moved towards the target", stored(t), target + (w0 - target) * e)
    H.eq("learning rate restored", t.tile.get_learning_rate() * torch.ones(1, dtype=torch.float64), lr * torch.ones(1, dtype=torch.float64))
    same(H, t, f)
