"""C30 operations on whole models reach every analog tile; replacing a configuration or loading a state keeps what it should keep."""
import copy
from collections import OrderedDict
import torch
from aihwkit.exceptions import ModuleError, TileError, TileModuleError
from aihwkit.nn import (AnalogLinear, AnalogLinearMapped, AnalogConv2d, AnalogSequential, AnalogWrapper, AnalogRNN, AnalogLSTMCell, AnalogConv2dMapped)
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.optim import AnalogSGD, AnalogAdam
from aihwkit.optim.context import AnalogContext
from aihwkit.simulator.tiles.module import TileModule
from pyvc.harness import contract
from pyvc import rpu_stub
from .common import cfg, tile, stored, linear
from .c20 import through, updates
from .c24 import same, refused
from .c25 import Compound
from .c29 import combos, new, logical, MAPS, OUT, IN

STUB = ("analog", "fp", "inference")


def values(p):
    """all values of a parameter object of the simulator"""
    if isinstance(p, rpu_stub.ParamBase):
        return (p._pyname, {k: values(v) for k, v in p._set.items()}, [values(v) for v in p._list])
    if isinstance(p, (list, tuple)):
        return [values(v) for v in p]
    return p


def changed(kind, **mapping):
    """a configuration that differs from the one of common.cfg"""
    c = cfg(kind, False, **mapping)
    for n in ("forward", "backward"):
        if hasattr(c, n):
            getattr(c, n).inp_res, getattr(c, n).out_bound = 0.0625, 7.0
    return c


def in_effect(H, t, kind, config):
    """the simulator tile was built from the configuration"""
    if kind in STUB:
        fresh = tile(kind, t.out_size, t.in_size, config=copy.deepcopy(config))
        H.ensure("the simulator tile has the new parameters", same(values(t.tile._pars), values(fresh.tile._pars)))
    elif kind == "torch":       # handed over with every product
        t.forward(H.tensor("xe", 1, t.in_size))
        H.ensure("the simulator tile has the new parameters", same(t.tile._f_io, config.forward) and same(t.tile._modifier, config.modifier))
    else:
        H.ensure("the simulator tile has the new parameters", same(t.tile._rpu_config if hasattr(t.tile, "_rpu_config") else t.rpu_config, config))


# ---------------------------------------------------------------- replacing the configuration
@contract("C30", cases=combos(how="to") + combos(kinds=("analog", "torch"), maps=(0, 3), how="replace_with")
          + combos(kinds=("analog", "torch"), maps=(0, 3), how="layer"))
def replace(H, kind, m, bias, digital, how):
    """weights, scales, bias, learning rate and parameters stay; the new configuration is in effect and separate from the one given"""
    t, p, w = new(H, kind, m, bias, digital)
    if bias and digital:
        bv = H.tensor("bias", OUT)
        H.put(t, "bias", bv)
    lr = H.real("lr", flo=0, fhi=1)
    H.assume(lr >= 0)
    t.set_learning_rate(lr)
    ms = None if t.mapping_scales is None else H.clone(t.mapping_scales)
    al = None if t.out_scaling_alpha is None else H.clone(t.out_scaling_alpha)
    weights = logical(t, w)
    params = [(n, id(q)) for n, q in t._parameters.items()]
    old = t.rpu_config
    c = changed(kind, **dict(MAPS[m], digital_bias=digital))
    given = copy.deepcopy(c)
    before = t.tile
    if how == "to":
        H.ensure("returns the tile", t.to(c) is t)
    elif how == "replace_with":
        t.replace_with(c)
    else:
        layer = torch.nn.Module.__new__(type("L", (AnalogLayerBase, torch.nn.Module), {}))
        torch.nn.Module.__init__(layer)
        layer.analog_module = t
        layer.replace_rpu_config(c)
    if kind != "torch":
        H.ensure("another simulator tile", t.tile is not before)
    H.ensure("the configuration given stays as it is", same(c, given))
    c.tile_class, c2 = None, c
    H.ensure("the configuration is a copy", t.rpu_config is not c2 and t.rpu_config is not old and t.rpu_config.tile_class is type(t))
    c.tile_class = given.tile_class
    H.ensure("the configuration is the one given", same(t.rpu_config, given))
    in_effect(H, t, kind, given)
    H.eq("stored weights", stored(t), w)
    H.eq("weights", t.get_weights()[0], weights)
    if ms is not None:
        H.eq("mapping scales", t.mapping_scales, ms)
    if al is not None:
        H.eq("output scales", t.out_scaling_alpha, al)
    if bias and digital:
        H.eq("bias", t.bias, bv)
    if kind in STUB:
        H.eq("learning rate", t.tile._lr, lr)
    H.ensure("the same parameters", [(n, id(q)) for n, q in t._parameters.items()] == params)
    H.ensure("the parameter belongs to the tile", t.analog_ctx is p and p.analog_tile is t and isinstance(p, AnalogContext))
    p.enable_data_view()
    H.eq("the parameter shows the weights", p.data, weights)
    w2, b2 = H.tensor("new", OUT, IN), H.tensor("newb", OUT)
    if m == 0:          # (the scaling of written weights is part of C01)
        t.set_weights(w2, b2 if bias else None)
        H.eq("new weights are read back", t.get_weights()[0], w2)
        H.eq("the parameter shows the new weights", p.data, w2)


@contract("C30", cases=[dict(kind=k, a=a, b=b) for k in ("analog", "torch") for a in range(4) for b in range(4) if a != b], samples=6,
          note="symbolic weights are not scaled: bounded to drawn weights")
def replace_scaling(H, kind, a, b):
    """another scaling of weights: the present weights stay, weights written later are read back"""
    M = [dict(), dict(weight_scaling_omega=0.5), dict(weight_scaling_omega=0.5, weight_scaling_columnwise=True),
         dict(weight_scaling_columnwise=True)]
    if H.sym:
        H.ensure("bounded: drawn weights only", True)
        return
    t = tile(kind, OUT, IN, bias=True, **M[a])
    w, v, w2, b2 = H.tensor("w", OUT, IN), H.tensor("v", OUT), H.tensor("w2", OUT, IN), H.tensor("b2", OUT)
    t.set_weights(w, v)
    t.to(cfg(kind, **M[b]))
    H.eq("weights stay", t.get_weights()[0], w)
    H.eq("bias stays", t.get_weights()[1], v)
    x = H.tensor("x", 2, IN)
    H.eq("product", t(x), linear(x, w, v))
    t.set_weights(w2, b2)
    H.eq("weights written later", t.get_weights()[0], w2)
    H.eq("bias written later", t.get_weights()[1], b2)
    H.eq("product later", t(x), linear(x, w2, b2))
    om = M[b].get("weight_scaling_omega", 0)
    if om and a:
        H.le("the new scaling bounds the stored weights", stored(t).abs(), om)


class Refusing(Compound):
    """the next simulator tile that is created has another structure"""
    other = None

    def __enter__(self):
        super().__enter__()
        T = rpu_stub.FloatingPointTile
        init = T.__init__

        def init3(t, x, d):
            init(t, x, d)
            if self.other == "names":
                t._hidden_names = ["bound", "hidden_weights_0", "other"]
            elif self.other == "number":
                t._hidden_names, t._hidden = ["bound"], torch.zeros(1, d, x)
            self.other = None
        T.__init__ = init3
        return self


@contract("C30", cases=[dict(kind=k, why=y, bias=b) for k in STUB for y in ("names", "number", "class", "mapping", "tile") for b in (False, True)])
def refused_replacement(H, kind, why, bias):
    """a configuration that does not fit is refused and the tile goes on as before"""
    with Refusing(H) as r:
        t = tile(kind, 2, 2, bias=bias)
        w0, w1 = H.tensor("w0", 2, 2, flo=-1, fhi=1), H.tensor("w1", 2, 2, flo=-1, fhi=1)
        h = torch.stack([0 * w0 + 2, w0, w1])
        t.tile.set_hidden_parameters(h)
        ex = [H.real("e0"), H.real("e1")]
        t.tile._extra = {"rpu.counter": [H.real("ctr")], "rpu.device.buffer": list(ex)}
        lr = H.real("lr", flo=0, fhi=1)
        H.assume(lr >= 0)
        t.set_learning_rate(lr)
        bv = H.tensor("bias", 2)
        if bias:
            H.put(t, "bias", bv)
        p, old = t.analog_ctx, t.rpu_config
        was = copy.deepcopy(old)
        c = changed(kind)
        if why == "class":
            c = changed("fp" if kind != "fp" else "analog")
        elif why == "mapping":
            c.mapping.learn_out_scaling = True
        elif why == "tile":
            r.other = "names"
            c.forward = c.forward if kind != "fp" else None
        else:
            r.other = why
        if why == "tile" and kind == "fp":
            c = changed(kind)
        H.ensure("refused", refused(lambda: t.to(c), (TileError, TileModuleError, RuntimeError)))
        r.other = None
        H.ensure("configuration as before", same(t.rpu_config, was))
        H.eq("weights", stored(t), w0 + w1)
        for i, n in enumerate(Compound.NAMES):
            H.eq("hidden " + n, t.tile._hidden[i], h[i])
        H.ensure("names of the hidden parameters", t.tile._hidden_names == Compound.NAMES)
        H.eq("learning rate", t.tile._lr, lr)
        for i in range(2):
            H.eq("extra state", t.tile._extra["rpu.device.buffer"][i], ex[i])
        if bias:
            H.eq("bias", t.bias, bv)
        H.ensure("the same parameter", t.analog_ctx is p and p.analog_tile is t)
        p.enable_data_view()
        H.eq("the parameter shows the weights", p.data, w0 + w1)


# ---------------------------------------------------------------- an optimizer built before
class Net(torch.nn.Module):
    def __init__(self, t):
        super().__init__()
        self.analog_module = t


@contract("C30", cases=[dict(kind=k, how=h, base=b, it=i) for k in ("analog", "fp") for h in ("load", "replace", "twice", "module")
                        for b in (AnalogSGD, AnalogAdam) for i in (False, True)])
def optimizer_goes_on(H, kind, how, base, it):
    """an optimizer built before a state was loaded or the configuration replaced trains the tile as before"""
    def make():
        c = cfg(kind)
        t = c.tile_class(3, 2, c, bias=False, in_trans=it, out_trans=it)
        t.train()
        return t
    t = make()
    w = H.tensor("w", 3, 2)
    t.tile.set_weights(H.clone(w))
    net = Net(t)
    opt = base(net.parameters(), lr=0.25)
    opt.regroup_param_groups(net)
    p = t.analog_ctx
    sh = (lambda n: (n, 1)) if it else (lambda n: (1, n))
    if how == "twice":      # a step before
        through(H, t, H.tensor("x0", *sh(2)), H.tensor("d0", *sh(3)))
        opt.step()
        w = H.clone(stored(t))
    if how == "load":
        s = make()
        w = H.tensor("w2", 3, 2)
        s.tile.set_weights(H.clone(w))
        t.__setstate__(s.get_analog_state())
    elif how == "module" and not H.sym:
        s = make()
        w = H.tensor("w2", 3, 2)
        s.tile.set_weights(H.clone(w))
        t.load_state_dict(OrderedDict(analog_tile_state=s.get_analog_state()))
    else:
        t.to(changed(kind) if kind == "analog" else cfg(kind))
    H.ensure("the parameter stays", t.analog_ctx is p and p.analog_tile is t and opt.param_groups[0]["params"][0] is p)
    H.ensure("nothing recorded", not p.has_gradient())
    H.eq("weights", stored(t), w)
    n = len(updates(t))
    x, d = H.tensor("x", *sh(2)), H.tensor("d", *sh(3))
    through(H, t, x, d)
    H.ensure("recorded", p.has_gradient())
    opt.step()
    u = updates(t)[n:]
    H.ensure("one update of the present simulator tile", len(u) == 1)
    H.eq("input of the update", u[0][0].reshape(-1), x.reshape(-1))
    H.eq("gradient of the update", u[0][1].reshape(-1), d.reshape(-1))
    H.eq("learning rate of the update", u[0][2], 0.25)
    H.eq("the step", stored(t), w - 0.25 * d.reshape(3, 1) * x.reshape(1, 2))


@contract("C30", cases=[dict(kind=k, how=h, frozen=f) for k in ("analog", "fp", "torch") for h in ("load", "replace") for f in (False, True)])
def frozen(H, kind, how, frozen):
    """a frozen parameter stays frozen, a trained one trained; the view mode stays"""
    t = tile(kind, OUT, IN)
    w = H.tensor("w", OUT, IN)
    t.tile.set_weights(H.clone(w))
    t.analog_ctx.requires_grad = not frozen
    t.analog_ctx.enable_data_view()
    s = t.get_analog_state() if how == "load" else None
    if how == "load":
        t.__setstate__(s)
    else:
        t.to(changed(kind))
    H.ensure("requires_grad", t.analog_ctx.requires_grad is (not frozen))
    H.ensure("not a leaf any more", t.analog_ctx.is_leaf)
    H.eq("readable", t.analog_ctx.data, w)


# ---------------------------------------------------------------- models
def fp(**mapping):
    return cfg("fp", **mapping)


def models():
    split = dict(max_input_size=2, max_output_size=2)
    shared = AnalogLinear(2, 2, rpu_config=fp())

    class Own(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.first = AnalogLinear(2, 2, rpu_config=fp())
            self.rest = torch.nn.ModuleDict(dict(a=torch.nn.ModuleList([AnalogLinear(2, 1, rpu_config=fp()), torch.nn.Linear(1, 1)])))

    class Sub(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.head = torch.nn.Linear(2, 2)
            self.tail = AnalogSequential(AnalogLinear(2, 2, rpu_config=fp()), torch.nn.ReLU())
    # name: builder, names of the analog layers, number of tiles
    return {
        "one": (lambda: AnalogSequential(AnalogLinear(3, 2, rpu_config=fp())), ["0"], 1),
        "nested": (lambda: AnalogSequential(AnalogLinear(2, 2, rpu_config=fp()), torch.nn.Sequential(torch.nn.ReLU(), AnalogLinear(2, 2, rpu_config=fp()),
                   AnalogSequential(AnalogLinear(2, 2, rpu_config=fp())))), ["0", "1.1", "1.2.0"], 3),
        "split": (lambda: AnalogSequential(AnalogLinear(5, 3, rpu_config=fp(**split)), AnalogLinear(3, 2, rpu_config=fp())), ["0", "1"], 7),
        "mapped": (lambda: AnalogSequential(AnalogLinearMapped(3, 3, rpu_config=fp(**split)), AnalogLinear(3, 2, rpu_config=fp())), ["0", "1"], 5),
        "conv": (lambda: AnalogSequential(AnalogConv2d(1, 2, 2, rpu_config=fp()), torch.nn.Flatten(), AnalogConv2dMapped(2, 3, 1, rpu_config=fp(**split))),
                 ["0", "2"], None),
        "own": (lambda: AnalogWrapper(Own()), ["first", "rest.a.0"], 2),
        "sub": (lambda: AnalogWrapper(Sub()), ["tail.0"], 1),
        "shared": (lambda: AnalogSequential(shared, torch.nn.ReLU(), shared), ["0"], 1),
        "rnn": (lambda: AnalogSequential(OrderedDict(r=AnalogRNN(AnalogLSTMCell, 2, 3, rpu_config=fp()), o=AnalogLinear(3, 1, rpu_config=fp()))), None, None),
        "layer": (lambda: AnalogLinear(3, 2, rpu_config=fp()), [""], 1),
        "none": (lambda: AnalogSequential(torch.nn.Linear(2, 2)), [], 0),
    }


def all_tiles(module, seen=None):
    """the tiles of a module, found by following all registered sub-modules"""
    seen = [] if seen is None else seen
    if isinstance(module, TileModule):
        if not any(module is s for s in seen):
            seen.append(module)
    for m in module._modules.values():
        if m is not None and m is not module:
            all_tiles(m, seen)
    return seen


@contract("C30", cases=[dict(model=m) for m in models()], samples=1)
def traverse(H, model):
    """every layer and every tile is found exactly once, under the name it has in the model"""
    make, names, count = models()[model]
    net = make()
    tiles = all_tiles(net)
    if count is not None:
        H.ensure("number of tiles", len(tiles) == count)
    got = list(net.named_analog_tiles())
    H.ensure("tiles: all of them", [id(t) for _, t in got] == [id(t) for t in tiles])
    H.ensure("tiles: different names", len(set(n for n, _ in got)) == len(got))
    H.ensure("tiles: names of the model", all(net.get_submodule(n) is t for n, t in got))
    H.ensure("tiles without names", [id(t) for t in net.analog_tiles()] == [id(t) for t in tiles])
    H.ensure("tile count", net.analog_tile_count() == len(tiles))
    H.ensure("devices", len(net.get_analog_tile_devices()) == len(tiles))
    layers = list(net.named_analog_layers())
    if names is not None:
        H.ensure("layers", [n for n, _ in layers] == names)
    H.ensure("layers: no containers", all(isinstance(v, AnalogLayerBase) and not v.IS_CONTAINER for _, v in layers))
    H.ensure("layers: names of the model", all(net.get_submodule(n) is v for n, v in layers))
    H.ensure("layers without names", [id(v) for v in net.analog_layers()] == [id(v) for _, v in layers])
    mods = list(net.named_analog_modules())
    H.ensure("analog modules are layers and containers", [id(v) for _, v in mods] == [id(v) for v in net.modules() if isinstance(v, AnalogLayerBase)])
    H.ensure("analog modules without names", [id(v) for v in net.analog_modules()] == [id(v) for _, v in mods])
    H.ensure("every layer is an analog module", all(any(v is u for _, u in mods) for _, v in layers))
    H.ensure("the tiles of the layers are all tiles", {id(t) for _, v in layers for t in v.analog_tiles()} == {id(t) for t in tiles})
    seen = []
    H.ensure("apply to tiles returns the model", net.apply_to_analog_tiles(seen.append) is net)
    H.ensure("apply to tiles: each once", [id(t) for t in seen] == [id(t) for t in tiles])
    seen = []
    H.ensure("apply to layers returns the model", net.apply_to_analog_layers(seen.append) is net)
    H.ensure("apply to layers: each once", [id(t) for t in seen] == [id(v) for _, v in layers])


@contract("C30", cases=[dict(model=m, op=o) for m in models() for o in ("remap", "replace", "load options")], samples=2)
def model_wide(H, model, op):
    """operations of a model reach every tile"""
    net = models()[model][0]()
    tiles = all_tiles(net)
    ws = [H.tensor("w%d" % k, *stored(t).shape) for k, t in enumerate(tiles)]
    for t, w in zip(tiles, ws):
        t.tile.set_weights(H.clone(w))
    if op == "remap":
        calls = []
        for k, t in enumerate(tiles):
            t.remap_weights = lambda weight_scaling_omega, k=k: calls.append((k, weight_scaling_omega))
        om = H.real("om", gt=0, flo=0.1, fhi=2)
        net.remap_analog_weights(om)
        H.ensure("every tile once", [k for k, _ in calls] == list(range(len(tiles))))
        for _, o in calls:
            H.eq("the maximum given", o, om)
        net.remap_analog_weights()
        H.ensure("the maximum is one by default", [o for _, o in calls[len(tiles):]] == [1.0] * len(tiles))
    elif op == "replace":
        if model in ("split", "mapped", "conv"):
            c = fp(max_input_size=2, max_output_size=2)
            for t in tiles:
                t.rpu_config.mapping = copy.deepcopy(c.mapping)
        else:
            c = fp()
        c.device.diffusion = 0.125
        given = copy.deepcopy(c)
        net.replace_rpu_config(c)
        H.ensure("the configuration given stays as it is", same(c, given))
        H.ensure("every tile has the values", all(same(t.rpu_config.device, given.device) for t in tiles))
        H.ensure("every tile has its own copy", len({id(t.rpu_config) for t in tiles} | {id(c)}) == len(tiles) + 1)
        for t, w in zip(tiles, ws):
            H.eq("weights", stored(t), w)
    else:
        if H.sym:
            H.ensure("bounded: state dictionaries of drawn weights", True)
            return
        sd = net.state_dict()
        given = list(sd)
        for conf, strict in ((False, None), (None, False), (True, True), (None, None)):
            exp = [(t.load_rpu_config if conf is None else conf, t.strict_rpu_config_check if strict is None else strict) for t in tiles]
            for t in tiles:
                t.tile.set_weights(0 * stored(t))
            own = [t.rpu_config for t in tiles]
            net.load_state_dict(sd, load_rpu_config=conf, strict_rpu_config_check=strict)
            H.ensure("options reach every tile, others stay", [(t.load_rpu_config, t.strict_rpu_config_check) for t in tiles] == exp)
            H.ensure("the dictionary given stays as it is", list(sd) == given)
            H.ensure("the same configuration", all(same(t.rpu_config, o) for t, o in zip(tiles, own)))
            for t, w in zip(tiles, ws):
                H.eq("weights loaded", stored(t), w)


@contract("C30", cases=[dict(model=m) for m in models() if m != "none"], samples=2, note="bounded: one state dictionary per model")
def old_checkpoint(H, model):
    """a checkpoint of an older version (without values of the analog parameters) is loaded, and stays as it is"""
    import warnings
    if H.sym:
        H.ensure("bounded: state dictionaries of drawn weights", True)
        return
    a, b = models()[model][0](), copy.deepcopy(models()[model][0]())
    ws = []
    for k, t in enumerate(all_tiles(a)):
        ws.append(H.tensor("w%d" % k, *stored(t).shape))
        t.tile.set_weights(H.clone(ws[-1]))
    sd = a.state_dict()
    for n in list(sd):
        if n.endswith("analog_ctx"):
            sd[n] = torch.tensor(1.0)
    keys, meta = list(sd), sd._metadata
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b.load_state_dict(sd)
    H.ensure("the dictionary given stays as it is", list(sd) == keys and sd._metadata is meta)
    for t, w in zip(all_tiles(b), ws):
        H.eq("weights loaded", stored(t), w)


@contract("C30", cases=[dict(kind=k, keep=k2, strict=s, other=o) for k in ("analog", "torch", "inference") for k2 in (False, True)
                        for s in (False, True) for o in ("values", "class", "mapping")], samples=1, note="bounded: one state dictionary per case")
def load_config(H, kind, keep, strict, other):
    """the configuration of the state is loaded, or the present one is kept if asked for; an unsuitable one is refused then"""
    if H.sym:
        H.ensure("bounded: state dictionaries of drawn weights", True)
        return
    a = AnalogSequential(AnalogLinear(2, 2, bias=False, rpu_config=cfg(kind)))
    if other == "values":
        c = changed(kind)
    elif other == "class":
        c = changed({"analog": "inference", "inference": "torch", "torch": "inference"}[kind])
    else:
        c = changed(kind)
        c.mapping.out_scaling_columnwise = not c.mapping.out_scaling_columnwise
    b = AnalogSequential(AnalogLinear(2, 2, bias=False, rpu_config=c))
    w = H.tensor("w", 2, 2, flo=-1, fhi=1)
    w2 = H.tensor("w2", 2, 2, flo=-1, fhi=1)
    a[0].set_weights(w)
    b[0].set_weights(w2)
    ta, tb = next(a.analog_tiles()), next(b.analog_tiles())
    was_a, was_b = copy.deepcopy(ta.rpu_config), copy.deepcopy(tb.rpu_config)
    related = isinstance(was_a, type(was_b)) or isinstance(was_b, type(was_a))
    fits = other == "values" or (other == "class" and (not strict or related))
    if other == "class":
        loads = tb.rpu_config.compatible_with(type(ta).__name__)
        if not loads:
            H.ensure("refused: class of the tile", refused(lambda: b.load_state_dict(a.state_dict(), load_rpu_config=not keep, strict_rpu_config_check=strict),
                                                           (TileError, TileModuleError, RuntimeError)))
            H.ensure("configuration as before", same(tb.rpu_config, was_b))
            return
    if keep and not fits:
        H.ensure("refused", refused(lambda: b.load_state_dict(a.state_dict(), load_rpu_config=False, strict_rpu_config_check=strict),
                                    (TileModuleError,)))
        H.ensure("configuration as before", same(tb.rpu_config, was_b))
        H.eq("weights as before", b[0].get_weights()[0], w2)
        return
    b.load_state_dict(a.state_dict(), load_rpu_config=not keep, strict_rpu_config_check=strict)
    H.eq("weights loaded", b[0].get_weights()[0], w)
    if keep:
        H.ensure("configuration kept", same(tb.rpu_config, was_b))
    else:
        got = copy.deepcopy(tb.rpu_config)
        H.ensure("class of the tile kept", got.tile_class is type(tb))
        got.tile_class = was_a.tile_class
        H.ensure("configuration loaded", same(got, was_a))
    H.ensure("configurations are separate", tb.rpu_config is not ta.rpu_config)
    H.ensure("configuration of the saved model as before", same(ta.rpu_config, was_a))


@contract("C30", cases=[dict(model=m) for m in models() if m != "layer"], samples=2)
def container_weights(H, model):
    """the dictionary of weights of a container: every tile under its name; written to another model they are the same"""
    a, b = models()[model][0](), copy.deepcopy(models()[model][0]()) if not H.sym else models()[model][0]()
    ta, tb = all_tiles(a), all_tiles(b)
    ws = []
    for k, t in enumerate(ta):
        w = H.tensor("w%d" % k, t.out_size, t.in_size)
        v = H.tensor("v%d" % k, t.out_size) if t.get_weights()[1] is not None else None
        t.set_weights(w, v)
        ws.append((w, v))
    d = a.get_weights()
    H.ensure("names", list(d) == [n for n, _ in a.named_analog_tiles()])
    for (w, v), (gw, gv) in zip(ws, d.values()):
        H.eq("weight", gw, w)
        if v is not None:
            H.eq("bias", gv, v)
        H.ensure("bias or none", (v is None) == (gv is None))
    b.set_weights(OrderedDict(reversed(list(d.items()))))
    for (w, v), t in zip(ws, tb):
        H.eq("weight of the other model", t.get_weights()[0], w)
        if v is not None:
            H.eq("bias of the other model", t.get_weights()[1], v)
    for (w, v), t in zip(ws, ta):
        H.eq("weight of the first model", t.get_weights()[0], w)
    for n in list(d):
        e = OrderedDict((k, x) for k, x in d.items() if k != n)
        H.ensure("missing weights are refused", refused(lambda: b.set_weights(e), (ModuleError,)))


@contract("C30", cases=[dict(model=m) for m in models()], samples=1)
def helpers(H, model):
    """parameters can be unregistered, layers without tiles refuse weights, distributed training excludes the analog parameters"""
    net = models()[model][0]()
    tiles = all_tiles(net)
    net.register_parameter("extra", torch.nn.Parameter(torch.zeros(2)))
    others = [n for n, _ in net.named_parameters() if n != "extra"]
    net.unregister_parameter("extra")
    H.ensure("the parameter is gone, the others are not", [n for n, _ in net.named_parameters()] == others and net.extra is None)
    H.ensure("what is no parameter is refused", refused(lambda: net.unregister_parameter("nothing"), (ModuleError,))
             and refused(lambda: net.unregister_parameter("training"), (ModuleError,)))
    e = torch.nn.Module.__new__(type("L", (AnalogLayerBase, torch.nn.Module), {}))
    torch.nn.Module.__init__(e)
    H.ensure("no tile, no weights", refused(lambda: e.get_weights(), (ModuleError,)) and refused(lambda: e.set_weights(torch.zeros(1, 1)), (ModuleError,)))
    if tiles:
        H.ensure("distributed training needs suitable tiles", refused(net.prepare_for_ddp, (ModuleError,)))
    if not H.sym:
        for t in tiles:
            t.supports_ddp = True
        net.prepare_for_ddp()
        exp = {n for n in net.state_dict() if n.split(".")[-1] in ("analog_ctx", "analog_tile_state")}
        H.ensure("excluded", set(net._ddp_params_and_buffers_to_ignore) == exp and len(exp) >= 2 * len(tiles))
