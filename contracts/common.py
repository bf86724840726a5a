"""Shared builders for the python contracts."""
import torch
from aihwkit.simulator.configs import (
    SingleRPUConfig, FloatingPointRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, UnitCellRPUConfig,
    DigitalRankUpdateRPUConfig, ConstantStepDevice, IOParameters, UpdateParameters)
from aihwkit.simulator.tiles.custom import CustomRPUConfig
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.simulator.parameters.mapping import MappingParameter

CFG = {"analog": SingleRPUConfig, "fp": FloatingPointRPUConfig, "inference": InferenceRPUConfig,
       "torch": TorchInferenceRPUConfig, "custom": CustomRPUConfig}


def cfg(kind="analog", perfect=True, **mapping):
    c = CFG[kind]()
    c.runtime.data_type = RPUDataType.DOUBLE
    for k, v in mapping.items():
        if not hasattr(c.mapping, k):
            raise AttributeError(k)
        setattr(c.mapping, k, v)
    if perfect:
        for n in ("forward", "backward"):
            if hasattr(c, n):
                getattr(c, n).is_perfect = True
    return c


def tile(kind, out_size, in_size, bias=False, perfect=True, config=None, **mapping):
    c = config if config is not None else cfg(kind, perfect, **mapping)
    kw = {}
    t = c.tile_class(out_size, in_size, c, bias=bias, **kw)
    if kind == "custom":
        t.tile._analog_weight = t.tile._analog_weight.to(torch.float64)
    return t


def stored(t):
    """combined weights stored in the simulator tile"""
    return t.tile.get_weights()


def linear(x, w, b=None):
    y = torch.matmul(x, w.t())
    return y if b is None else y + b


def sym_mapping(H, t, n, columnwise, name="mscale"):
    """arbitrary positive mapping scales"""
    s = H.tensor(name, n if columnwise else 1, lo=0, flo=0.05, fhi=4)
    H.assume(s > 0)
    t.mapping_scales = H.clone(s)
    return s
