"""C02 splitting a linear layer over several tiles."""
import torch
from pyvc.harness import contract
from aihwkit.nn import AnalogLinear, AnalogLinearMapped
from aihwkit.simulator.tiles.array import TileModuleArray
from .common import cfg, linear


def split_ok(sizes, size, limit):
    if limit <= 0:
        return sizes == [size]
    return sum(sizes) == size and len(sizes) > 0 and max(sizes) <= limit and min(sizes) >= 1 and \
        max(sizes) - min(sizes) <= 1 and len(sizes) == -(-size // limit)


@contract("C02", cases=[dict(lo=l, hi=h) for l, h in ((1, 40), (40, 120), (120, 260))], samples=1,
          note="bounded: every size up to 259 with every maximum up to 270")
def split_sizes(H, lo, hi):
    """sizes add up exactly, stay under the limit and differ by at most one"""
    a = TileModuleArray(2, 2, cfg("analog"))
    for size in range(lo, hi):
        bad = [m for m in list(range(-1, 40)) + list(range(40, hi + 12, 1 if hi < 100 else 3)) + [size - 1, size, size + 1]
               if not split_ok(a.get_split_sizes(size, m), size, m)]
        H.ensure("tile sizes of %d with limits %s" % (size, bad), not bad)


SPLITS = [(3, 4, 2, 2), (4, 3, 3, 2), (2, 5, 2, 2), (3, 3, 1, 1), (2, 2, 0, 1), (3, 2, 5, 0), (5, 1, 1, 2)]


@contract("C02", cases=[dict(out=o, inp=i, mi=mi, mo=mo, bias=b, kind=k) for n, (o, i, mi, mo) in enumerate(SPLITS)
                        for b in (False, True) for k in ("analog", "torch", "inference", "fp")
                        if k == "analog" or (n + b) % 3 == 0], max_paths=300)
def array_is_layer(H, out, inp, mi, mo, bias, kind):
    """write, read back and forward of a layer built over an array"""
    c = cfg(kind, max_input_size=mi, max_output_size=mo, weight_scaling_omega=0.0)
    layer = AnalogLinear(inp, out, bias, c)
    m = layer.analog_module
    needs = (0 <= mi < inp) or (0 <= mo < out)
    H.ensure("array used when a limit is exceeded", isinstance(m, TileModuleArray) == needs)
    tiles = list(layer.analog_tiles())
    if needs:
        H.ensure("input sizes", split_ok(m.in_sizes, inp, mi) and split_ok(m.out_sizes, out, mo))
        H.ensure("number of tiles", len(tiles) == len(m.in_sizes) * len(m.out_sizes))
    for t in tiles:
        H.ensure("tile within limits", (mi <= 0 or t.in_size <= mi) and (mo <= 0 or t.out_size <= mo))
    H.ensure("all weights placed", sum(t.in_size * t.out_size for t in tiles) == inp * out)
    w, b = H.tensor("w", out, inp), (H.tensor("b", out) if bias else None)
    w0 = H.clone(w)
    layer.set_weights(w, b)
    rw, rb = layer.get_weights()
    H.eq("weights read back", rw, w0)
    if bias:
        H.eq("bias read back", rb, b)
    else:
        H.ensure("no bias", rb is None)
    layer.eval()
    for name, shape in (("x", (inp,)), ("x2", (2, inp)), ("x3", (2, 1, inp))):
        x = H.tensor(name, *shape)
        x0 = H.clone(x)
        y = layer(x)
        H.eq("output is the full product", y, linear(x0, w0, b))
        H.eq("input unchanged", x, x0)


@contract("C02", cases=[dict(columnwise=c, kind=k, learn=l) for c in (False, True) for k in ("analog", "torch") for l in (False, True)],
          max_paths=400)
def scaled_array(H, columnwise, kind, learn):
    """the same with digital scales on every tile"""
    c = cfg(kind, max_input_size=1, max_output_size=2, weight_scaling_omega=0.7, weight_scaling_columnwise=columnwise,
            learn_out_scaling=learn, out_scaling_columnwise=columnwise)
    layer = AnalogLinearMapped(2, 3, True, c)
    w, b, x = H.tensor("w", 3, 2), H.tensor("b", 3), H.tensor("x", 2, 2)
    layer.set_weights(w, b)
    rw, rb = layer.get_weights()
    H.eq("weights read back", rw, w)
    H.eq("bias read back", rb, b)
    layer.eval()
    H.eq("output is the full product", layer(x), linear(x, w, b))
    # partial write: without a bias argument the bias stays
    w2 = H.tensor("w2", 3, 2)
    layer.set_weights(w2)
    rw, rb = layer.get_weights()
    H.eq("weights read back", rw, w2)
    H.eq("bias kept", rb, b)


@contract("C02", cases=[dict(apply=a) for a in (False, True)])
def mapped_default(H, apply):
    """the mapped layer splits into an array even below the limit; raw weights go to the same places"""
    c = cfg("analog", max_input_size=2, max_output_size=2)
    layer = AnalogLinearMapped(3, 3, True, c)
    H.ensure("array", isinstance(layer.analog_module, TileModuleArray))
    w, b = H.tensor("w", 3, 3), H.tensor("b", 3)
    layer.set_weights(w, b, apply_weight_scaling=apply)
    rw, rb = layer.get_weights(apply_weight_scaling=apply)
    H.eq("weights read back", rw, w)
    H.eq("bias read back", rb, b)
    a = layer.analog_module
    i0 = 0
    for row, isz in zip(a.array, a.in_sizes):
        o0 = 0
        for t, osz in zip(row, a.out_sizes):
            H.eq("tile holds its block", t.get_weights()[0], w[o0:o0 + osz, i0:i0 + isz])
            o0 += osz
        i0 += isz
    small = AnalogLinearMapped(2, 2, True, c)
    w, b, x = H.tensor("ws", 2, 2), H.tensor("bs", 2), H.tensor("x", 1, 2)
    small.set_weights(w, b)
    small.eval()
    H.eq("single tile array", small(x), linear(x, w, b))


@contract("C02", cases=[dict(mi=mi, bias=b) for mi in (0, 2) for b in (False, True)], samples=4)
def quantized_array(H, mi, bias):
    """the array of quantized tiles with all quantisers off is the layer as well"""
    from aihwkit.simulator.configs import QuantizedTorchInferenceRPUConfig
    from aihwkit.simulator.parameters.enums import RPUDataType
    c = QuantizedTorchInferenceRPUConfig()
    c.runtime.data_type = RPUDataType.DOUBLE
    c.forward.is_perfect = True
    c.mapping.max_input_size, c.mapping.max_output_size = mi, 8
    layer = AnalogLinear(3, 2, bias, c)
    w, b, x = H.tensor("w", 2, 3), (H.tensor("b", 2) if bias else None), H.tensor("x", 2, 3)
    layer.set_weights(w, b)
    layer.eval()
    rw, rb = layer.get_weights()
    H.eq("weights read back", rw, w)
    H.eq("output is the full product", layer(x), linear(x, w, b))
