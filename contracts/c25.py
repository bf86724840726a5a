"""C25 a saved state restores the same tile: compiled tiles (hidden parameters, weights, extra dictionary) and the python wrapper."""
from collections import OrderedDict
import torch
from pyvc.harness import contract
from pyvc import cc, rpu_stub
from aihwkit.exceptions import TileError, TileModuleError
from aihwkit.simulator.configs import SingleRPUConfig, DigitalRankUpdateRPUConfig, UnitCellRPUConfig
from aihwkit.simulator.configs import compounds as cp
from aihwkit.simulator.configs.devices import FloatingPointDevice
from aihwkit.simulator.parameters.inference import DriftParameter, SimpleDriftParameter
from aihwkit.simulator.parameters.enums import PulseType, RPUDataType, NoiseManagementType as NM
from .common import cfg, tile
from .devices import plain, NAMES, WRITE_NOISE
from .c06 import neutral
from .c27 import Py
from aihwkit.simulator.tiles.transfer import TorchTransferTile
from .c18 import up, trans, cell, KINDS

# keys that older dictionaries do not have
OPTIONAL = ("aux_nm_value_bwd", "transfer_every", "transfer_vecs")


def device(kind):
    """configuration of a tile"""
    if kind.startswith("mixed"):
        return DigitalRankUpdateRPUConfig(device=cp.MixedPrecisionCompound(
            device=plain("Linear" if "noise" in kind else "Constant", **(dict(write_noise_std=0.25) if "noise" in kind else {})),
            transfer_every=3, stoc_round_x=False, stoc_round_d=False), update=up(PulseType.NONE_WITH_DEVICE))
    if kind.endswith("+noise"):
        return SingleRPUConfig(device=plain(kind[:-6], write_noise_std=0.25), update=up())
    if kind in NAMES:
        return SingleRPUConfig(device=plain(kind), update=up())
    if kind == "transfer of noise":
        return SingleRPUConfig(device=trans(cp.TransferCompound, [plain("Linear", write_noise_std=0.25), plain("Constant")], gamma=0.5), update=up())
    if kind == "transfer rows":
        return SingleRPUConfig(device=trans(cp.TransferCompound, [plain("Constant"), plain("Constant")], transfer_columns=False), update=up())
    if kind == "vector of noise":
        return SingleRPUConfig(device=cp.VectorUnitCell(unit_cell_devices=[plain("Linear", write_noise_std=0.25), plain("Constant")]), update=up())
    return SingleRPUConfig(device=cell(kind)[0], update=up())


FULL = [k for k in KINDS if k.startswith(("transfer", "buffered", "chopped", "dynamic"))]


def make(kind, x=2, d=1, **fields):
    if kind == "simple":
        t = cc.simple_tile(x, d)
    elif kind == "simple delayed":
        t = cc.simple_tile(x, d, delayed=True)
    else:
        t = cc.analog_tile(device(kind), x, d, **fields)
    return t


def bounded(H, name, d, x, b=0.5):
    w = H.tensor(name, d, x, flo=-b, fhi=b)
    H.assume(w.abs() <= b)
    return w


def arbitrary(H, t, kind):
    """arbitrary hidden parameters and a weight consistent with them"""
    x, d = t.x, t.d
    h = {}
    for n in t.hidden_names():
        b = n.split("_")
        if "max_bound" in n:
            h[n] = H.tensor(n, d, x, flo=0.6, fhi=1)
            H.assume(h[n] >= 0.5)
            H.assume(h[n] <= 8)
        elif "min_bound" in n:
            h[n] = H.tensor(n, d, x, flo=-1, fhi=-0.6)
            H.assume(h[n] <= -0.5)
            H.assume(h[n] >= -8)
        elif "weight" in n:
            h[n] = bounded(H, n, d, x)
        elif n.startswith(("dwmin", "gamma", "diffusion")):
            h[n] = H.tensor(n, d, x, flo=0.01, fhi=0.25)
            H.assume(h[n] > 0)
            H.assume(h[n] <= 2)
        elif n.startswith("reference"):
            h[n] = H.tensor(n, d, x, flo=-0.05, fhi=0.05)
        else:
            h[n] = H.tensor(n, d, x, flo=-0.5, fhi=0.5)
    return h


def restore(t, h, w, extra=None, lr=None, strict=False):
    """what loading does: hidden parameters, weights, the hidden parameters again (the weights re-distribute them), the raw values"""
    t.set_hidden(h)
    t.set_w(w)
    t.set_hidden(h)
    t("poke_weights", reals=[w])
    if lr is not None:
        t("set_lr", reals=[lr])
    if extra is not None:
        t.load(extra, strict)


ALL = NAMES + [n + "+noise" for n in WRITE_NOISE] + KINDS + ["transfer rows", "transfer of noise", "vector of noise", "mixed", "mixed noise"]


@contract("C25", cases=[dict(kind=k) for k in ALL], samples=4, timeout=120, max_paths=600,
          note="hidden parameters (member weights, stored weights, buffers, accumulators, bounds, step sizes) and weights of every device")
def hidden_state(H, kind):
    a, b = make(kind), make(kind)
    a.set_hidden(arbitrary(H, a, kind))
    if kind in NAMES or kind.endswith("+noise") or kind.startswith("mixed"):
        a("poke_weights", reals=[bounded(H, "w", a.d, a.x, 0.25)])
    h, w = a.hidden(), a.raw()
    if "SoftRef" in kind or "PowRef" in kind:
        for s in ("max", "min"):
            if s + "_bound" in h:
                H.assume((w <= h["max_bound"]) if s == "max" else (w >= h["min_bound"]))
    lr = H.real("lr", flo=0, fhi=1)
    H.assume(lr >= 0)
    a("set_lr", reals=[lr])
    restore(b, h, w, a.dump(), lr)
    H.ensure("same names", a.hidden_names() == b.hidden_names())
    g = b.hidden()
    for n in h:
        H.eq("restored " + n, g[n], h[n])
    H.eq("restored weights", b.raw(), w)
    H.eq("restored learning rate", b.r("get_lr")[0], lr)
    if not kind.startswith("mixed"):
        H.eq("same weight granularity", b.r("granularity")[0], a.r("granularity")[0])
    H.eq("the saved tile is as before", a.raw(), w)


# ---------------------------------------------------------------- the dictionary of counters and buffers
EXACT = dict(transfer_update=up(PulseType.NONE))
EXTRA = ["simple", "simple delayed", "simple drift", "simple modifier", "Constant", "Constant delayed", "Linear drift", "vector sequential", "vector",
         "vector gamma", "one-sided", "transfer", "transfer rows", "buffered", "chopped", "dynamic", "transfer of one-sided", "mixed", "mixed bins",
         "managed"]


def build(kind, x=2, d=2):
    if kind == "simple drift":
        p = FloatingPointDevice(drift=SimpleDriftParameter(nu=0.1)).as_bindings(RPUDataType.FLOAT)
        return cc.Tile(x, d, "float", p)
    if kind == "simple modifier":
        return cc.simple_tile(x, d)
    if kind == "Constant delayed":
        return cc.analog_tile(device("Constant"), x, d, delayed=True)
    if kind == "Linear drift":
        return cc.analog_tile(SingleRPUConfig(device=plain("Linear", drift=DriftParameter(nu=0.1, nu_dtod=0.0)), update=up()), x, d)
    if kind == "managed":
        return cc.analog_tile(SingleRPUConfig(device=plain("Constant"), update=up(), forward=neutral(noise_management=NM.AVERAGE_ABS_MAX, inp_bound=1.0),
                                              backward=neutral(noise_management=NM.AVERAGE_ABS_MAX, inp_bound=1.0)), x, d)
    if kind == "vector sequential":
        c = cell("vector", policy=cp.VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL)[0]
        return cc.analog_tile(SingleRPUConfig(device=c, update=up()), x, d)
    if kind == "mixed bins":
        return cc.analog_tile(DigitalRankUpdateRPUConfig(device=cp.MixedPrecisionCompound(
            device=plain("Constant"), transfer_every=3, n_x_bins=5, n_d_bins=5, stoc_round_x=False, stoc_round_d=False),
            update=up(PulseType.NONE_WITH_DEVICE)), x, d)
    c = dict(transfer_every=2.0, units_in_mbatch=False, **EXACT)
    two = [plain("Constant"), plain("Constant")]
    C = {"transfer": cp.TransferCompound, "transfer rows": cp.TransferCompound, "buffered": cp.BufferedTransferCompound,
         "chopped": cp.ChoppedTransferCompound, "dynamic": cp.DynamicTransferCompound}
    if kind in C:
        if kind == "transfer rows":
            c["transfer_columns"] = False
        if kind in ("chopped", "dynamic"):
            c.update(in_chop_prob=0.5, in_chop_random=False, auto_scale=False)
        return cc.analog_tile(SingleRPUConfig(device=trans(C[kind], two, **c), update=up()), x, d)
    return make(kind, x, d)


def steps(t, n, seed=1):
    g = torch.Generator().manual_seed(seed)
    t("set_lr", reals=[0.25])
    for _ in range(n):
        x, d = torch.randint(-1, 2, (1, t.x), generator=g), torch.randint(-1, 2, (1, t.d), generator=g)
        t("update", 0, 1, 0, 0, reals=[x * 1.0, d * 1.0])


def busy(kind, n=3):
    """a tile with some history: all buffers are allocated"""
    t = build(kind)
    steps(t, n)
    if kind.endswith("drift"):
        t("drift", reals=[2.0])
    if kind == "simple modifier":
        p = rpu_stub.CLASS["WeightModifierParameter"]()
        iv, rv = [], []
        p.std_dev, p.per_batch_sample = 0.0, False
        cc.params(p, iv, rv)
        cc.run("tmodify", [t.h] + iv, rv)
    if kind == "managed":
        t("forward", 0, 1, 0, 0, 0, reals=[torch.tensor([[1.0, -0.5]])])
        t("backward", 0, 1, 0, 0, reals=[torch.tensor([[1.0, -0.5]])])
    return t


KEEP = ("containers_allocated", "use_delayed_update")


def kinds_of(kind, s):
    """which entries hold reals, which hold integers, which hold flags"""
    t = build(kind)
    t.load({k: torch.tensor([a if k.endswith(KEEP) else a + 2.25 for a in v]) for k, v in s.items()})
    out = t.dump()
    r = {}
    for k, v in s.items():
        o = [float(a) for a in out[k]]
        r[k] = "keep" if k.endswith(KEEP) else "real" if o == [a + 2.25 for a in v] else "int" if o == [a + 2 for a in v] else "bool"
    return r


@contract("C25", cases=[dict(kind=k) for k in EXTRA], samples=3, timeout=120,
          note="every entry of the dictionary takes the value given and gives it back")
def dictionary(H, kind):
    with H.setup():
        s = {k: [float(a) for a in v] for k, v in busy(kind).dump().items()}
        ty = kinds_of(kind, s)
    t = build(kind)
    state = {}
    for k, v in s.items():
        n = len(v)
        if ty[k] == "real" and n:
            state[k] = H.tensor(k, n, flo=-1, fhi=1)
        else:
            f = {"int": lambda i, a: a + 3 + 2 * i, "bool": lambda i, a: 1 - a}.get(ty[k], lambda i, a: a)
            state[k] = torch.tensor([f(i, a) for i, a in enumerate(v)], dtype=H.float_dtype)
    t.load(state, True)
    out = t.dump()
    H.ensure("same entries", sorted(out) == sorted(s))
    for k in s:
        H.ensure("has " + k, k in out)
        if k not in out:
            continue
        H.ensure("size of " + k, len(out[k]) == len(state[k]))
        if len(s[k]):
            H.eq("entry " + k, out[k], state[k])


@contract("C25", cases=[dict(kind=k) for k in EXTRA], samples=1, note="bounded: entries of one dictionary per kind")
def incomplete_dictionary(H, kind):
    """a dictionary that lacks an entry is rejected if asked for, else the others are loaded"""
    if H.sym:
        H.ensure("bounded: concrete", True)
        return
    s = {k: v for k, v in busy(kind).dump().items()}
    for k in s:
        if any(o in k for o in OPTIONAL) or k.endswith("fb_weights"):
            continue
        r = {a: v for a, v in s.items() if a != k}
        try:
            build(kind).load(r, True)
            ok = False
        except cc.CppError:
            ok = True
        H.ensure("rejected without " + k, ok)
        t = build(kind)
        if k.endswith("containers_allocated"):
            continue
        t.load(r, False)
        o = t.dump()
        H.ensure("the others without " + k, all(torch.equal(o[a], s[a]) for a in r if a in o and not a.startswith(k)))


CONT = ["Constant", "vector sequential", "vector gamma", "transfer", "transfer rows", "buffered", "chopped", "dynamic", "mixed", "mixed bins"]


@contract("C25", cases=[dict(kind=k, before=b) for k in CONT for b in (1, 4)], samples=3, timeout=120,
          note="arbitrary hidden weights; fixed inputs of the updates before and after")
def continues_alike(H, kind, before):
    """the restored tile behaves like the saved one in all later updates"""
    a, b = build(kind, 2, 1), build(kind, 2, 1)
    steps(a, before)
    h = a.hidden()
    for n in h:
        if "weights" in n and not ("past" in n or "reference" in n):
            h[n] = bounded(H, n, 1, 2, 0.25)
    a.set_hidden(h)
    h, w = a.hidden(), a.raw()
    restore(b, h, w, a.dump(), None, True)
    for i in range(3):
        steps(a, 1, 10 + i)
        steps(b, 1, 10 + i)
        H.eq("weights after update %d" % i, b.raw(), a.raw())
        g = a.hidden()
        for n, v in b.hidden().items():
            if "weights" in n:
                H.eq("%s after update %d" % (n, i), v, g[n])
    o, s = b.dump(), a.dump()
    for k in s:
        H.eq("entry %s afterwards" % k, o[k], s[k]) if len(s[k]) else None


# ---------------------------------------------------------------- the python wrapper
class Compound:
    """simulator tile whose weight is the sum of two member weights; setting the weight re-distributes it; bounds limit it"""
    NAMES = ["bound", "hidden_weights_0", "hidden_weights_1"]

    def __init__(self, H):
        self.H = H

    def __enter__(self):
        T = rpu_stub.FloatingPointTile
        self.saved = {k: getattr(T, k) for k in ("__init__", "set_weights", "set_hidden_parameters")}
        init, setw, seth = (self.saved[k] for k in ("__init__", "set_weights", "set_hidden_parameters"))
        names = self.NAMES

        def init2(t, x, d):
            init(t, x, d)
            t._hidden_names = list(names)
            t._hidden = torch.zeros(3, d, x)
            t._extra = {"rpu.counter": [0.0], "rpu.device.buffer": [0.0, 0.0]}

        def set_weights2(t, w):
            setw(t, w)
            h = [t._hidden[0], t._w.detach() / 2, t._w.detach() / 2]
            t._hidden = torch.stack([a.to(h[1].dtype) for a in h])

        def set_hidden2(t, h):
            seth(t, h)
            t._store((t._hidden[1] + t._hidden[2]).clone())
        T.__init__, T.set_weights, T.set_hidden_parameters = init2, set_weights2, set_hidden2
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(rpu_stub.FloatingPointTile, k, v)


def py_config(kind, **mapping):
    c = cfg(kind, learn_out_scaling=True, weight_scaling_omega=0.5, weight_scaling_columnwise=True, **mapping)
    return c


def case_of(v, n=4):
    return int(abs(v) * 1e6) % n


def saved_tile(H, kind, bias):
    """a tile with arbitrary state"""
    t = tile(kind, 2, 2, bias=bias, config=py_config(kind))
    w0, w1 = H.tensor("w0", 2, t.tile._x, flo=-1, fhi=1), H.tensor("w1", 2, t.tile._x, flo=-1, fhi=1)
    bd = H.tensor("bound", 2, t.tile._x, flo=1, fhi=2)
    t.tile._hidden = torch.stack([bd, w0, w1])
    if t.tile._shared:
        t.tile._shared, t.tile._w = False, t.tile._w.double()
    t.tile._w = (w0 + w1)
    t.tile._extra = {"rpu.counter": [H.real("ctr", flo=0, fhi=9)], "rpu.device.buffer": [H.real("b0", flo=-1, fhi=1), H.real("b1", flo=-1, fhi=1)]}
    lr = H.real("lr", flo=0, fhi=1)
    H.assume(lr >= 0)
    if not H.sym and case_of(lr) == 0:
        lr = 0.0
    t.tile._lr = lr
    t.mapping_scales = H.tensor("ms", 2, flo=0.5, fhi=2)
    return t, torch.stack([bd, w0, w1]), w0 + w1, lr


@contract("C25", cases=[dict(kind=k, bias=b, how=h) for k in ("analog", "inference", "fp") for b in (False, True)
                        for h in ("load", "shuffled", "keep config", "no extra")], samples=4,
          note="all values of the state of a simulator tile whose weights and hidden parameters depend on each other")
def wrapper_state(H, kind, bias, how):
    with Compound(H):
        src, h, w, lr = saved_tile(H, kind, bias)
        ms = H.clone(src.mapping_scales)
        dst = tile(kind, 2, 2, bias=bias, config=py_config(kind))
        dst.mapping_scales = 1 + 0 * H.clone(ms)
        dst.tile._lr = 0.625
        if bias:
            bv = H.tensor("bias", 2, flo=-1, fhi=1)
            H.put(src, "bias", bv)
            H.put(dst, "bias", 0 * bv)
        osc = H.tensor("osc", 2, flo=0.5, fhi=2)
        H.put(src, "out_scaling_alpha", osc)
        H.put(dst, "out_scaling_alpha", 0 * osc)
        own = src.rpu_config
        state = OrderedDict()
        if H.sym:      # (Module.state_dict goes over the entries of _parameters and _buffers)
            state["analog_tile_state"] = src.get_analog_state()
            for n, p in list(src._parameters.items()) + list(src._buffers.items()):
                if p is not None and n not in ("analog_ctx", "shared_weights"):
                    state[n] = p
        else:
            src.state_dict(destination=state)
        if how == "shuffled":
            state = OrderedDict(reversed(list(state.items())))
            state["analog_tile_state"] = dict(reversed(list(state["analog_tile_state"].items())))
        if how == "no extra":
            state["analog_tile_state"].pop("state_extra")
        dst.set_load_rpu_config_state(how != "keep config")
        dst.load_state_dict(state)
        H.eq("weights", dst.tile._w, w)
        for i, n in enumerate(Compound.NAMES):
            H.eq("hidden " + n, dst.tile._hidden[i], h[i])
        H.eq("learning rate", dst.tile._lr, lr)
        H.eq("mapping scales", dst.mapping_scales, ms)
        H.eq("output scales", dst.out_scaling_alpha, osc)
        if bias:
            H.eq("bias", dst.bias, bv)
        for k, v in src.tile._extra.items():
            for i, a in enumerate(v):
                H.eq("extra %s %d" % (k, i), dst.tile._extra[k][i], a if how != "no extra" else 0.0 * a)
        H.eq("saved tile: weights as before", src.tile._w, w)
        for i, n in enumerate(Compound.NAMES):
            H.eq("saved tile: hidden as before " + n, src.tile._hidden[i], h[i])
        H.ensure("saved tile: config object", src.rpu_config is own)
        H.ensure("the configurations are separate", dst.rpu_config is not src.rpu_config)
        H.ensure("not the same storage", dst.tile is not src.tile)


@contract("C25", cases=[dict(kind=k, what=w) for k in ("analog", "inference", "fp") for w in ("names", "order", "shape", "hidden shape", "class")],
          samples=1)
def incompatible_is_rejected(H, kind, what):
    with Compound(H):
        src, h, w, lr = saved_tile(H, kind, False)
        state = src.get_analog_state()
        if what == "names":
            state["analog_tile_hidden_parameter_names"] = ["bound", "hidden_weights_0", "other"]
        elif what == "order":
            state["analog_tile_hidden_parameter_names"] = ["hidden_weights_0", "bound", "hidden_weights_1"]
        elif what == "hidden shape":
            state["analog_tile_hidden_parameters"] = torch.zeros(2, 2, 2)
        elif what == "class":
            state["analog_tile_class"] = "FloatingPointTile" if kind != "fp" else "TorchInferenceTile"
        dst = tile(kind, 3 if what == "shape" else 2, 2, config=py_config(kind))
        try:
            dst.__setstate__(state)
            ok = False
        except (TileError, TileModuleError, RuntimeError):
            ok = True
        H.ensure("rejected: " + what, ok)


@contract("C25", cases=[dict(C=c, cols=k) for c in ("chopped", "dynamic") for k in (True, False)], samples=4,
          note="python transfer tile: counters, momenta, learning rate; member weights and buffers through the hidden parameters")
def python_transfer(H, C, cols):
    K = cp.ChoppedTransferCompound if C == "chopped" else cp.DynamicTransferCompound
    a, b = Py(H, 1, C=K, transfer_columns=cols), Py(H, 1, C=K, transfer_columns=cols)
    vals = {n: H.real(n, flo=0, fhi=5) for n in ("update_counter", "chop_counter", "transfer_idx", "learning_rate", "m_x", "m_d")}
    for n, v in vals.items():
        setattr(a.t, n, v)
    own = a.t.get_extra_state()
    b.t.set_extra_state(own)
    for n, v in vals.items():
        H.eq("restored " + n, getattr(b.t, n), v)
    zero = 0 * a.A
    b.t.grad_tile.tile.set_weights(zero)
    b.t.weight_tile.tile.set_weights(zero)
    for n in ("hidden_weight", "past_mean_weight", "reference_weight"):
        if hasattr(b.t, n):
            setattr(b.t, n, 0 * getattr(b.t, n))
    h = a.t.get_hidden_parameters()
    H.ensure("same names", a.t.get_hidden_parameter_names() == b.t.get_hidden_parameter_names())
    b.t.set_hidden_parameters(h)
    H.eq("fast weights", b.fast(), a.A)
    H.eq("slow weights", b.slow(), a.C)
    H.eq("buffer", b.t.hidden_weight, a.B)
    if C == "dynamic":
        H.eq("past mean", b.t.past_mean_weight, a.P)
        H.eq("reference", b.t.reference_weight, a.R)
    c = H.clone(h)
    with torch.no_grad():
        b.t.hidden_weight[0] += 1.0
    H.eq("the values given are not shared", h, c)
    # the dictionary of the simulator tile
    s = a.t.dump_extra()
    b.t.update_counter, b.t.learning_rate, b.t.m_d = 77, 0.125, 3.0
    b.t.load_extra(s, True)
    for n, v in vals.items():
        H.eq("reloaded " + n, getattr(b.t, n), v)
    for part in ("grad_tile", "weight_tile", "tile"):
        try:
            b.t.load_extra({k: v for k, v in s.items() if k != part}, True)
            ok = False
        except RuntimeError:
            ok = True
        H.ensure("rejected without " + part, ok)


@contract("C25", cases=[dict(C=c) for c in ("chopped", "dynamic")], samples=2, note="bounded: one module state dictionary per class, with and without the extra state")
def python_transfer_module(H, C):
    if H.sym:
        H.ensure("bounded: concrete", True)
        return
    K = cp.ChoppedTransferCompound if C == "chopped" else cp.DynamicTransferCompound

    def mk():
        c = UnitCellRPUConfig(device=K(unit_cell_devices=[plain("Constant", dw_min=0.125), plain("Constant")], transfer_forward=neutral(),
                                       transfer_update=up(bl=2)), update=up(bl=4), tile_class=TorchTransferTile)
        c.runtime.data_type = RPUDataType.DOUBLE
        return TorchTransferTile(2, 3, c)
    vals = dict(update_counter=11, chop_counter=1, transfer_idx=2, learning_rate=0.375, m_x=0.5, m_d=0.25)
    a, b, o = mk(), mk(), mk()
    for n, v in vals.items():
        setattr(a.tile, n, v)
    a.tile.hidden_weight = torch.arange(6.0).reshape(3, 2).double()
    a.tile.chopper = torch.tensor([1.0, -1.0, 1.0]).double()
    s = OrderedDict()
    a.state_dict(destination=s)
    b.load_state_dict(s)
    for n, v in vals.items():
        H.ensure("restored " + n, getattr(b.tile, n) == v)
    H.ensure("buffers", torch.equal(b.tile.hidden_weight, a.tile.hidden_weight) and torch.equal(b.tile.chopper, a.tile.chopper))
    k = [n for n in s if n.endswith("_extra_state")]
    H.ensure("one extra state", len(k) == 1)
    o.load_state_dict(OrderedDict((n, v) for n, v in s.items() if n not in k))
    H.ensure("older dictionaries", torch.equal(o.tile.hidden_weight, a.tile.hidden_weight) and o.tile.update_counter == 0)
