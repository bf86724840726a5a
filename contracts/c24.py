"""C24 configured hardware parameters reach the simulator unchanged."""
import dataclasses
import importlib
import inspect
import math
from copy import deepcopy
from enum import Enum
import torch
from pyvc.harness import contract
from pyvc import cc, rpu_stub as R
from aihwkit.simulator.configs import devices as dv, compounds as cp, configs as cf
from aihwkit.simulator.parameters import enums as en
from aihwkit.simulator.parameters.base import RPUConfigBase
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.parameters.inference import (
    DriftParameter, SimpleDriftParameter, WeightClipParameter, WeightModifierParameter, WeightRemapParameter)
from aihwkit.simulator.parameters.io import IOParameters, IOParametersIRDropT
from aihwkit.simulator.parameters.training import UpdateParameters

FLOAT = RPUDataType.FLOAT

# python name -> member of the C++ parameter (all others have the same name)
ALIAS = {
    "AnalogTileParameter": dict(forward_io="f_io", backward_io="b_io", update="up"),
    "AnalogTileUpdateParameter": dict(fixed_bl="fixed_BL", desired_bl="desired_BL"),
    "AnalogTileInputOutputParameter": dict(ir_drop_g_ratio="ir_drop_Gw_div_gmax"),
    "DriftParameter": dict(log_g0="logG0", t_0="t0", w_noise_std="w_read_std"),
    "LinearStepResistiveDeviceParameter": dict(
        gamma_up="ls_decrease_up", gamma_down="ls_decrease_down", gamma_up_dtod="ls_decrease_up_dtod", gamma_down_dtod="ls_decrease_down_dtod",
        allow_increasing="ls_allow_increasing_slope", mean_bound_reference="ls_mean_bound_reference", mult_noise="ls_mult_noise",
        reverse_up="ls_reverse_up", reverse_down="ls_reverse_down", reverse_offset="ls_reverse_offset"),
    "SoftBoundsResistiveDeviceParameter": dict(
        mult_noise="ls_mult_noise", reverse_up="ls_reverse_up", reverse_down="ls_reverse_down", reverse_offset="ls_reverse_offset"),
    "ExpStepResistiveDeviceParameter": dict(A_up="es_A_up", A_down="es_A_down", gamma_up="es_gamma_up", gamma_down="es_gamma_down", a="es_a", b="es_b"),
    "OneSidedResistiveDeviceParameter": dict(refresh_forward="refresh_io", refresh_update="refresh_up"),
    "TransferResistiveDeviceParameter": dict(transfer_forward="transfer_io", transfer_update="transfer_up"),
    "PowStepResistiveDeviceParameter": dict(pow_gamma="ps_gamma", pow_gamma_dtod="ps_gamma_dtod", pow_up_down="ps_gamma_up_down",
                                            pow_up_down_dtod="ps_gamma_up_down_dtod"),
    "PowStepReferenceResistiveDeviceParameter": dict(pow_gamma="ps_gamma", pow_gamma_dtod="ps_gamma_dtod", pow_up_down="ps_gamma_up_down",
                                                     pow_up_down_dtod="ps_gamma_up_down_dtod"),
    "PiecewiseStepResistiveDeviceParameter": dict(piecewise_up="piecewise_up_vec", piecewise_down="piecewise_down_vec"),
}

# configuration class -> (parameter class of the simulator, fields that are only used by python)
CLS = {
    "FloatingPointDevice": (dv.FloatingPointDevice, "FloatingPointTileParameter", ()),
    "PulsedDevice": (dv.PulsedDevice, "PulsedResistiveDeviceParameter", ()),
    "IdealDevice": (dv.IdealDevice, "IdealResistiveDeviceParameter", ()),
    "ConstantStepDevice": (dv.ConstantStepDevice, "ConstantStepResistiveDeviceParameter", ()),
    "LinearStepDevice": (dv.LinearStepDevice, "LinearStepResistiveDeviceParameter", ()),
    "SoftBoundsDevice": (dv.SoftBoundsDevice, "SoftBoundsResistiveDeviceParameter", ()),
    "SoftBoundsReferenceDevice": (dv.SoftBoundsReferenceDevice, "SoftBoundsReferenceResistiveDeviceParameter", ()),
    "ExpStepDevice": (dv.ExpStepDevice, "ExpStepResistiveDeviceParameter", ()),
    "PowStepDevice": (dv.PowStepDevice, "PowStepResistiveDeviceParameter", ()),
    "PowStepReferenceDevice": (dv.PowStepReferenceDevice, "PowStepReferenceResistiveDeviceParameter", ()),
    "PiecewiseStepDevice": (dv.PiecewiseStepDevice, "PiecewiseStepResistiveDeviceParameter", ()),
    "VectorUnitCell": (cp.VectorUnitCell, "VectorResistiveDeviceParameter", ("unit_cell_devices",)),
    "ReferenceUnitCell": (cp.ReferenceUnitCell, "VectorResistiveDeviceParameter", ("unit_cell_devices",)),
    "OneSidedUnitCell": (cp.OneSidedUnitCell, "OneSidedResistiveDeviceParameter", ("unit_cell_devices",)),
    "TransferCompound": (cp.TransferCompound, "TransferResistiveDeviceParameter", ("unit_cell_devices",)),
    "BufferedTransferCompound": (cp.BufferedTransferCompound, "BufferedTransferResistiveDeviceParameter", ("unit_cell_devices",)),
    "ChoppedTransferCompound": (cp.ChoppedTransferCompound, "ChoppedTransferResistiveDeviceParameter", ("unit_cell_devices",)),
    "DynamicTransferCompound": (cp.DynamicTransferCompound, "DynamicTransferResistiveDeviceParameter", ("unit_cell_devices",)),
    "MixedPrecisionCompound": (cp.MixedPrecisionCompound, "MixedPrecResistiveDeviceParameter", ("device",)),
    "DriftParameter": (DriftParameter, "DriftParameter", ()),
    "SimpleDriftParameter": (SimpleDriftParameter, "DriftParameter", ()),
    "IOParameters": (IOParameters, "AnalogTileInputOutputParameter", ()),
    "IOParametersIRDropT": (IOParametersIRDropT, "AnalogTileInputOutputParameter", (
        "adc_frequency", "adc_quantization", "apply_xdep_pcm_read_noise", "ir_drop_integration_sum", "ir_drop_rs", "ir_drop_segments",
        "ir_drop_time_step_resolution_scale", "ir_drop_v_read", "xdep_pcm_read_noise_scale", "split_mode_bit_shift")),
    "UpdateParameters": (UpdateParameters, "AnalogTileUpdateParameter", ()),
    "WeightModifierParameter": (WeightModifierParameter, "WeightModifierParameter", ()),
    "WeightClipParameter": (WeightClipParameter, "WeightClipParameter", ()),
    "WeightRemapParameter": (WeightRemapParameter, "WeightRemapParameter", ()),
}
COMPOUND = [k for k, v in CLS.items() if "unit_cell_devices" in v[2] or "device" in v[2]]
ONLY_TORCH = {"BoundManagementType": ("SHIFT",), "AnalogMVType": ("SPLIT_MODE", "BIT_WISE")}
ENUM_ALIAS = {("WeightModifierType", "NONE"): "Copy"}
CXX_ENUM = {"VectorUnitCellUpdatePolicy": "VectorDeviceUpdatePolicy", "WeightNoiseType": "OutputWeightNoiseType"}


class Inspected(Exception):
    """the conversion looked at a value"""


def _no(*a, **k):
    raise Inspected()


class F(float):
    """an arbitrary real: may only be passed on"""
    __deepcopy__ = __copy__ = lambda self, *a: self
    __hash__ = object.__hash__


class I(int):    # noqa
    """an arbitrary integer: may only be passed on"""
    __deepcopy__ = __copy__ = lambda self, *a: self
    __hash__ = object.__hash__


for _c in (F, I):
    for _n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "pow", "rpow",
               "neg", "abs", "bool", "float", "int", "round", "floor", "ceil", "trunc", "and", "or", "index"):
        if hasattr(_c, "__%s__" % _n) or _n == "index" and _c is I:
            setattr(_c, "__%s__" % _n, _no)


class Fill:
    """fills every field of a configuration with distinct values and remembers them"""

    def __init__(self, pattern, exact):
        self.k, self.pattern, self.exact = 0, pattern, exact

    def value(self, v, c):
        self.k += 1
        p = self.pattern
        if isinstance(v, bool):
            return bool((self.k >> p) & 1) if p < 6 else not bool((self.k >> (p - 6)) & 1)
        if isinstance(v, Enum):
            m = [x for x in type(v) if x.name not in ONLY_TORCH.get(type(v).__name__, ())]
            return m[(self.k + p) % len(m)]
        if isinstance(v, int):
            return (7 + self.k) if self.exact else I(7 + self.k)
        if isinstance(v, float):
            return (0.125 * self.k + p) if self.exact else F(0.125 * self.k + p)
        if isinstance(v, list):
            return [self.value(0.5, c) for _ in range(1 + (self.k + p) % 3)]
        if dataclasses.is_dataclass(v):
            return self.fill(v)
        raise TypeError("%s: %r" % (c, v))

    def fill(self, o, skip=()):
        for f in dataclasses.fields(o):
            if f.name in skip:
                continue
            v = getattr(o, f.name)
            setattr(o, f.name, self.value(v, type(o).__name__))
        return o


def same(a, b):
    """identical values, without comparing opaque ones"""
    if a is b:
        return True
    if isinstance(a, (F, I)) or isinstance(b, (F, I)) or type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if dataclasses.is_dataclass(a):
        return a.__dict__.keys() == b.__dict__.keys() and all(same(a.__dict__[k], b.__dict__[k]) for k in a.__dict__)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a).__eq__ is object.__eq__ and hasattr(a, "__dict__"):
        return same(a.__dict__, b.__dict__)
    return bool(a == b)


def snapshot(o):
    """structure of a configuration: the objects and all values in it"""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return (id(o), {k: snapshot(v) for k, v in o.__dict__.items()})
    if isinstance(o, list):
        return (id(o), [snapshot(v) for v in o])
    return o


def bound(H, label, py, b, cxx, python_only, tile_level=()):
    """every field of the configuration py that the simulator knows has arrived in b"""
    H.ensure("%s: parameter class" % label, getattr(b, "_pyname", None) == cxx)
    for f in dataclasses.fields(py):
        if f.name in python_only:
            continue
        name = dict(forward="forward_io", backward="backward_io").get(f.name, f.name) if tile_level else f.name
        if tile_level and f.name not in tile_level:
            continue
        v = getattr(py, f.name)
        lab = "%s.%s" % (label, f.name)
        if name not in b._set:
            H.ensure(lab + " is handed over", False)
            continue
        got = b._set[name]
        if isinstance(v, Enum):
            H.ensure(lab + " has the configured choice", isinstance(got, R.StubEnumValue) and got.cxx.split("::")[-1] == enumerator(v))
        elif dataclasses.is_dataclass(v):
            H.ensure(lab + " is converted", isinstance(got, R.ParamBase))
            _, sub, only = next(x for x in CLS.values() if x[0] is type(v))
            bound(H, lab, v, got, sub, only)
        else:
            H.ensure(lab + " has the configured value", same(got, v) and type(got) is type(v))


def enumerator(v):
    n = ENUM_ALIAS.get((type(v).__name__, v.name), v.name)
    t = {x.replace("_", "").lower(): x for x in cc.enum(CXX_ENUM.get(type(v).__name__, type(v).__name__))}
    return t.get(n.replace("_", "").lower(), "?")


def build(name, fill, members=2):
    o = CLS[name][0]()
    if "unit_cell_devices" in CLS[name][2]:
        kinds = [dv.SoftBoundsReferenceDevice, dv.ConstantStepDevice, dv.ExpStepDevice]
        if name == "OneSidedUnitCell":
            kinds = [dv.SoftBoundsDevice] * 3
        o.unit_cell_devices = [fill.fill(k()) for k in kinds[:members]]
    if "device" in CLS[name][2]:
        o.device = fill.fill(dv.LinearStepDevice())
    fill.fill(o, skip=CLS[name][2] if name in COMPOUND else ())
    return o


def convert(o):
    return o.as_bindings(FLOAT) if hasattr(o, "as_bindings") else parameters_to_bindings(o, FLOAT)


def expected_members(name, o):
    if "device" in CLS[name][2]:
        return [o.device]
    d = list(o.unit_cell_devices)
    if name == "ReferenceUnitCell":
        return d[:2] if len(d) > 1 else d * 2
    if name == "OneSidedUnitCell":
        return d if len(d) > 1 else d * 2
    if "Transfer" in name:
        return d[:1] + [d[1]] * (len(d) - 1)
    return d


ONLY2 = ("ChoppedTransferCompound", "DynamicTransferCompound")
PATTERNS = range(12)


def opaque(H, run):
    """first with values that can only be passed on, otherwise for the values of the run"""
    if H.sym:
        try:
            return run(False)
        except Inspected:
            H.ensure("bounded: the conversion depends on a value", True)
            return None
    return run(True)


@contract("C24", cases=[dict(cls=c, p=p) for c in CLS for p in PATTERNS], samples=1)
def handover(H, cls, p):
    """all fields of every configuration class, for arbitrary values"""
    def run(exact):
        o = build(cls, Fill(p, exact))
        before = snapshot(o)
        b = convert(o)
        H.ensure("the configuration is not modified", same_snapshot(before, snapshot(o)))
        bound(H, cls, o, b, CLS[cls][1], CLS[cls][2])
        if cls in COMPOUND:
            exp = expected_members(cls, o)
            H.ensure("number of members", len(b._list) == len(exp))
            for i, (e, g) in enumerate(zip(exp, b._list)):
                bound(H, "%s[%d]" % (cls, i), e, g, CLS[type(e).__name__][1], ())
    opaque(H, run)


def same_snapshot(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and isinstance(a[1], (dict, list)):
        if a[0] != b[0] or type(a[1]) is not type(b[1]) or len(a[1]) != len(b[1]):
            return False
        if isinstance(a[1], dict):
            return a[1].keys() == b[1].keys() and all(same_snapshot(a[1][k], b[1][k]) for k in a[1])
        return all(same_snapshot(x, y) for x, y in zip(a[1], b[1]))
    return same(a, b)


@contract("C24", cases=[dict(cls=c, n=n) for c in COMPOUND if c != "MixedPrecisionCompound" for n in (1, 2, 3)
                        if not (c in ONLY2 and n != 2) and not ("Transfer" in c and n == 1) and not (c == "OneSidedUnitCell" and n == 3)], samples=1)
def members(H, cls, n):
    """any number of members: the documented devices arrive in order, the configuration stays as it is"""
    def run(exact):
        o = build(cls, Fill(3, exact), n)
        before, lst = snapshot(o), o.unit_cell_devices
        for k in range(2):
            b = convert(o)
            H.ensure("the configuration is not modified", same_snapshot(before, snapshot(o)) and o.unit_cell_devices is lst and len(lst) == n)
            exp = expected_members(cls, o)
            H.ensure("number of members", len(b._list) == len(exp))
            for i, (e, g) in enumerate(zip(exp, b._list)):
                bound(H, "%s[%d]" % (cls, i), e, g, CLS[type(e).__name__][1], ())
    opaque(H, run)


@contract("C24", cases=[dict(cls=c) for c in ("OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound") + ONLY2 + ("ReferenceUnitCell",)], samples=1)
def bad_members(H, cls):
    """unusable lists of members are refused and left alone"""
    for n in (0, 1, 3):
        o = build(cls, Fill(1, True), n)
        ok = {"OneSidedUnitCell": (1, 2), "TransferCompound": (2, 3), "BufferedTransferCompound": (2, 3), "ReferenceUnitCell": (1, 2, 3)}.get(cls, (2,))
        before = snapshot(o)
        H.ensure("%s devices" % n, (n in ok) == (not refused(lambda o=o: convert(o), Exception)))
        H.ensure("left alone", same_snapshot(before, snapshot(o)))


def refused(f, errors):
    try:
        f()
        return False
    except errors:
        return True


def configs():
    from aihwkit.simulator.configs import (SingleRPUConfig, UnitCellRPUConfig, DigitalRankUpdateRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig)
    return dict(single=(SingleRPUConfig, "LinearStepDevice"), unit=(UnitCellRPUConfig, "TransferCompound"), digital=(DigitalRankUpdateRPUConfig, "MixedPrecisionCompound"),
                inference=(InferenceRPUConfig, None), torch=(TorchInferenceRPUConfig, None))


@contract("C24", cases=[dict(cfg=c, p=p) for c in ("single", "unit", "digital", "inference", "torch") for p in (0, 1, 2, 7)], samples=1)
def whole_config(H, cfg, p):
    """forward, backward and update settings of a configuration each arrive at their place"""
    def run(exact):
        fill = Fill(p, exact)
        c = configs()[cfg][0]()
        for n in ("forward", "backward", "update"):
            fill.fill(getattr(c, n))
        if configs()[cfg][1]:
            c.device = build(configs()[cfg][1], fill)
        before = snapshot(c)
        b = c.as_bindings()
        H.ensure("the configuration is not modified", same_snapshot(before, snapshot(c)))
        bound(H, cfg, c, b, "AnalogTileParameter", (), ("forward", "backward", "update"))
    opaque(H, run)


@contract("C24", cases=[dict(cfg=c, bias=b) for c in ("single", "unit", "digital", "inference", "fp") for b in (False, True)], samples=1)
def tile_gets_config(H, cfg, bias):
    """the tile is created with the converted configuration, which stays untouched"""
    from aihwkit.simulator.configs import FloatingPointRPUConfig
    fill = Fill(5, True)
    if cfg == "fp":
        c = FloatingPointRPUConfig()
        fill.fill(c.device)
        c.device.diffusion = 0.25
    else:
        c = configs()[cfg][0]()
        for n in ("forward", "backward", "update"):
            fill.fill(getattr(c, n))
        if configs()[cfg][1]:
            c.device = build(configs()[cfg][1], fill)
    before = deepcopy(c)
    ids = snapshot(c)
    with H.setup():
        t = c.tile_class(3, 2, c, bias=bias)
    H.ensure("the configuration is not modified", same(before, c) and same_snapshot(ids, snapshot(c)))
    dev = t.tile._pars if cfg == "fp" else t.tile._device
    if cfg == "fp":
        bound(H, "device", c.device, dev, "FloatingPointTileParameter", ())
        return
    bound(H, "tile", c, t.tile._pars, "AnalogTileParameter", (), ("forward", "backward", "update"))
    name = type(c.device).__name__
    bound(H, "device", c.device, dev, CLS[name][1], CLS[name][2])
    if name in COMPOUND:
        for i, (e, g) in enumerate(zip(expected_members(name, c.device), dev._list)):
            bound(H, "device[%d]" % i, e, g, CLS[type(e).__name__][1], ())


@contract("C24", cases=[dict()], samples=1)
def binding_members(H):
    """each python name stands for one member of the C++ parameter, no member has two names"""
    classes, enums = R.parse_bindings()
    for n, c in classes.items():
        for py, m in c["fields"].items():
            H.ensure("%s.%s is the member of that meaning" % (n, py), m == ALIAS.get(n, {}).get(py, py))
        H.ensure("%s: distinct members" % n, len(set(c["fields"].values())) == len(c["fields"]))
        H.ensure("%s: all names are declared" % n, set(ALIAS.get(n, {})) <= set(c["fields"]))
    for n, e in enums.items():
        py = getattr(en, n, None)
        if py is None:
            continue
        for v in py:
            if v.name in ONLY_TORCH.get(n, ()):
                continue
            x = e["values"].get(v.value)
            H.ensure("%s.%s is the choice of that name" % (n, v.name), x is not None and x.split("::")[-1] == enumerator(v) and x.split("::")[-2] == CXX_ENUM.get(n, n))
        vals = [x for k, x in e["values"].items() if (n, k.upper()) not in ENUM_ALIAS]
        H.ensure("%s: distinct choices" % n, len(set(vals)) == len(vals))


def symbols(H, b, names, path):
    """the parameter object with its reals replaced by symbolic values"""
    for k, v in list(b._set.items()):
        p = path + "." + k
        if isinstance(v, R.ParamBase):
            symbols(H, v, names, p)
        elif isinstance(v, list):
            b._set[k] = [H.real("%s[%d]" % (p, i), flo=-2, fhi=2) for i in range(len(v))]
        elif isinstance(v, float):
            b._set[k] = H.real(p, flo=-2, fhi=2)
    for i, m in enumerate(b._list):
        symbols(H, m, names, "%s/%d" % (path, i))


def compare(H, label, b, got):
    for k, v in b._set.items():
        lab = "%s.%s" % (label, k)
        if k not in got:
            H.ensure(lab + " is held by the library", False)
        elif isinstance(v, R.ParamBase):
            compare(H, lab, v, got[k])
        elif isinstance(v, R.StubEnumValue):
            H.ensure(lab + " has the configured choice", got[k] == R.cxx_enum(v))
        elif isinstance(v, list):
            H.ensure(lab + " has all entries", len(got[k]) == len(v))
            for x, y in zip(v, got[k]):
                H.eq(lab + " has the configured value", y, x, tol=1e-12)
        elif isinstance(v, (bool, int)) and isinstance(got[k], int):
            H.ensure(lab + " has the configured value", got[k] == int(v))
        else:
            H.eq(lab + " has the configured value", got[k], v, tol=1e-12)


ABSTRACT = ("PulsedDevice",)


@contract("C24", cases=[dict(cls=c, p=p) for c in CLS for p in (0, 1, 2, 3, 8) if c not in ABSTRACT and c != "FloatingPointDevice"], samples=1)
def library(H, cls, p):
    """the C++ library holds every configured value, also after its copies"""
    b = convert(build(cls, Fill(p, True)))
    symbols(H, b, {}, cls)
    dev = cls in COMPOUND or cls.endswith("Device")
    name, fields, mem = cc.read_back(b, dev)
    H.ensure("parameter class", name == CLS[cls][1])
    compare(H, cls, b, fields)
    if dev:
        H.ensure("number of members", len(mem) == len(b._list))
        for i, (x, (n, f, _)) in enumerate(zip(b._list, mem)):
            H.ensure("class of member %d" % i, n == x._pyname)
            compare(H, "%s[%d]" % (cls, i), x, f)


@contract("C24", cases=[dict(p=p) for p in (0, 3)], samples=3)
def softbounds_pmax(H, p):
    """the other parameterisation of the soft bounds device"""
    fill = Fill(p, True)
    d = dv.SoftBoundsPmaxDevice()
    own = ("range_min", "range_max", "alpha", "p_max", "w_min", "w_max", "dw_min", "up_down")
    fill.fill(d, skip=own)
    a, b = H.real("range_min", flo=-2, fhi=-0.2), H.real("range_max", flo=0.2, fhi=2)
    al, pm = H.real("alpha", gt=0, flo=0.001, fhi=0.1), H.real("p_max", gt=0, flo=10, fhi=200)
    H.assume(a < b)
    d.range_min, d.range_max, d.alpha, d.p_max = a, b, al, pm
    before = snapshot(d)
    seen = []
    orig = dv.parameters_to_bindings
    numpy_exp = getattr(dv, "exp", None)
    if numpy_exp is not None:
        dv.exp = exp
    dv.parameters_to_bindings = lambda q, *k: seen.append(q)
    try:
        d.as_bindings(FLOAT)
    finally:
        dv.parameters_to_bindings = orig
        if numpy_exp is not None:
            dv.exp = numpy_exp
    H.ensure("the configuration is not modified", same_snapshot(before, snapshot(d)))
    q = seen[0]
    H.ensure("a soft bounds device", type(q) is dv.SoftBoundsDevice)
    B = (b - a) / (1.0 - exp(-(pm * al)))
    H.eq("lower bound", q.w_min, a)
    H.eq("upper bound", q.w_max, a + B)
    H.eq("step size", q.dw_min, B * al)
    H.eq("asymmetry", q.up_down, 1.0 + 2.0 * a / B)
    for f in dataclasses.fields(dv.SoftBoundsDevice):
        if f.name not in own:
            H.ensure("%s is kept" % f.name, same(getattr(q, f.name), getattr(d, f.name)))


def exp(x):
    return x.exp() if hasattr(x, "exp") else math.exp(x)


def presets():
    out = {}
    for m in ("devices", "configs", "compounds", "utils"):
        M = importlib.import_module("aihwkit.simulator.presets." + m)
        for n, c in vars(M).items():
            if inspect.isclass(c) and dataclasses.is_dataclass(c) and "Preset" in n and c.__module__ == M.__name__:
                out[n] = c
    return out


def base_of(o):
    return next(n for n, v in CLS.items() if v[0] in type(o).__mro__ and v[0] is next(k for k in type(o).__mro__ if any(k is x[0] for x in CLS.values())))


def bound_any(H, label, o, b):
    n = base_of(o)
    H.ensure("%s: parameter class" % label, b._pyname == CLS[n][1])
    for f in dataclasses.fields(o):
        if f.name in CLS[n][2]:
            continue
        v, lab = getattr(o, f.name), "%s.%s" % (label, f.name)
        got = b._set.get(f.name, KeyError)
        if isinstance(v, Enum):
            H.ensure(lab, isinstance(got, R.StubEnumValue) and got.cxx.split("::")[-1] == enumerator(v))
        elif dataclasses.is_dataclass(v):
            bound_any(H, lab, v, got)
        else:
            H.ensure(lab, got is not KeyError and type(got) is type(v) and got == v)
    if n in COMPOUND:
        for i, (e, g) in enumerate(zip(expected_members(n, o), b._list)):
            bound_any(H, "%s[%d]" % (label, i), e, g)


@contract("C24", cases=[dict(preset=n) for n in sorted(presets())], samples=1)
def preset(H, preset):
    """the presets shipped with the toolkit (their own values)"""
    o = presets()[preset]()
    before, ids = deepcopy(o), snapshot(o)
    if isinstance(o, RPUConfigBase) or hasattr(o, "tile_class"):
        b = o.as_bindings()
        for n, m in (("forward", "forward_io"), ("backward", "backward_io"), ("update", "update")):
            bound_any(H, n, getattr(o, n), b._set[m])
        if hasattr(o, "device"):
            bound_any(H, "device", o.device, o.device.as_bindings(FLOAT))
    else:
        bound_any(H, preset, o, convert(o))
    H.ensure("the configuration is not modified", same(before, o) and same_snapshot(ids, snapshot(o)))


@contract("C24", cases=[dict()], samples=1)
def wrong_fields(H):
    """misspelled attributes and wrong types are refused, as are unknown classes"""
    from aihwkit.exceptions import ConfigError
    for mk in (dv.ConstantStepDevice, IOParameters, UpdateParameters):
        o = mk()
        o.not_a_field = 1.0
        H.ensure("misspelled attribute refused", refused(lambda o=o: parameters_to_bindings(o, FLOAT), ConfigError))
    o = dv.ConstantStepDevice()
    o.dw_min = "x"
    H.ensure("wrong type refused", refused(lambda: parameters_to_bindings(o, FLOAT), ConfigError))

    class Unknown(dv.ConstantStepDevice):
        bindings_class = "NoSuchDeviceParameter"
    H.ensure("unknown class refused", refused(lambda: parameters_to_bindings(Unknown(), FLOAT), ConfigError))
