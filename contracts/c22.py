"""C22 conversion of models between digital and analog."""
import itertools
from collections import OrderedDict
from copy import deepcopy
import torch
from torch import nn
from pyvc.harness import contract
from contracts.common import cfg
from contracts.c24 import refused, same
from aihwkit.exceptions import ArgumentError
from aihwkit.nn import (AnalogLinear, AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogLinearMapped, AnalogConv1dMapped, AnalogConv2dMapped,
                        AnalogConv3dMapped, AnalogSequential, AnalogWrapper)
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.nn.modules.base import AnalogLayerBase

MAP = {nn.Linear: AnalogLinear, nn.Conv1d: AnalogConv1d, nn.Conv2d: AnalogConv2d, nn.Conv3d: AnalogConv3d, nn.Sequential: AnalogSequential}
MAPPED = {nn.Linear: AnalogLinearMapped, nn.Conv1d: AnalogConv1dMapped, nn.Conv2d: AnalogConv2dMapped, nn.Conv3d: AnalogConv3dMapped, nn.Sequential: AnalogSequential}

LAYERS = {
    "linear": lambda b: nn.Linear(3, 2, bias=b),
    "linear1": lambda b: nn.Linear(1, 1, bias=b),
    "conv1": lambda b: nn.Conv1d(2, 3, 2, stride=2, padding=1, bias=b),
    "conv2": lambda b: nn.Conv2d(2, 2, (1, 2), stride=(2, 1), padding=(0, 1), dilation=(1, 2), bias=b),
    "conv2a": lambda b: nn.Conv2d(1, 3, 2, stride=1, padding=(1, 0), bias=b),
    "conv3": lambda b: nn.Conv3d(1, 2, (1, 2, 1), stride=(1, 2, 3), padding=(2, 0, 1), bias=b),
}
GEOMETRY = ("in_features", "out_features", "in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "padding_mode",
            "transposed", "output_padding")
MAPPINGS = {
    "plain": {}, "analog bias": dict(digital_bias=False), "omega": dict(weight_scaling_omega=0.5),
    "omega columns": dict(weight_scaling_omega=1.0, weight_scaling_columnwise=True), "out scaling": dict(out_scaling_columnwise=True, learn_out_scaling=True),
    "blocks": dict(max_input_size=2, max_output_size=1),
}


def put(H, m):
    """arbitrary weights"""
    w = H.tensor("w", *m.weight.shape, flo=-0.5, fhi=0.5)
    b = H.tensor("b", *m.bias.shape, flo=-0.5, fhi=0.5) if m.bias is not None else None
    H.put(m, "weight", H.clone(w))
    if b is not None:
        H.put(m, "bias", H.clone(b))
    return w, b


def geometry(m):
    return {k: getattr(m, k) for k in GEOMETRY if hasattr(m, k)}


def config(kind, mapping):
    return cfg(kind, **MAPPINGS[mapping])


def holds(H, label, layer, w, b):
    """the analog layer holds these weights"""
    aw, ab = layer.get_weights()
    H.eq(label + ": weight", aw.reshape(w.shape), w, tol=1e-5)
    H.ensure(label + ": bias setting", (ab is None) == (b is None))
    if b is not None:
        H.eq(label + ": bias", ab, b, tol=1e-5)


ROUND = [dict(layer=l, bias=b, kind=k, mapping=m, mapped=p) for l in LAYERS for b in (True, False) for p in (False, True)
         for k, m in (("analog", "plain"), ("inference", "omega"), ("inference", "omega columns"), ("torch", "omega columns"), ("fp", "analog bias"),
                      ("inference", "out scaling"), ("analog", "blocks"), ("inference", "analog bias"), ("custom", "plain"))
         if not (p and m == "analog bias" and b) and not (k == "torch" and l == "conv3" and False) and not (k == "custom" and l not in ("linear", "conv2a"))
         and not (m == "blocks" and l == "conv3" and p and False)]


@contract("C22", cases=ROUND, samples=2)
def round_trip(H, layer, bias, kind, mapping, mapped):
    """one layer to analog and back: type, geometry, bias setting and all weights"""
    with H.setup():
        m = LAYERS[layer](bias)
    w, b = put(H, m)
    geo, ids = geometry(m), (m.weight, m.bias)
    c = config(kind, mapping)
    if m.weight.numel() // m.weight.shape[0] // getattr(m, "in_channels", m.weight.shape[1]) > 2 and mapping == "blocks":
        c.mapping.max_input_size = 4
    before = deepcopy(c)
    cmap = MAPPED if mapped else None
    a = convert_to_analog(m, c, conversion_map=cmap)
    H.ensure("the analog class", type(a) is (MAPPED if mapped else MAP)[type(m)])
    H.ensure("geometry of the analog layer", {k: v for k, v in geometry(a).items() if k in geo} == geo)
    holds(H, "analog layer", a, w, b)
    H.ensure("the configuration is a copy", all(t.rpu_config is not c for t in a.analog_tiles()) and same(before, c))
    H.ensure("the original keeps its parameters", m.weight is ids[0] and m.bias is ids[1] and geometry(m) == geo and type(m) is LAYER_TYPE[layer])
    H.eq("the original weights are untouched", m.weight, w)
    if b is not None:
        H.eq("the original bias is untouched", m.bias, b)
    d = convert_to_digital(a)
    H.ensure("the original class", type(d) is type(m))
    H.ensure("the original geometry", geometry(d) == geo)
    H.ensure("the original bias setting", (d.bias is None) == (b is None))
    H.ensure("shape of the weight", tuple(d.weight.shape) == tuple(w.shape))
    H.eq("the original weight", d.weight, w, tol=1e-5)
    if b is not None:
        H.eq("the original bias", d.bias, b, tol=1e-5)
    H.ensure("trainable parameters again", all(isinstance(p, nn.Parameter) or getattr(p, "_is_param", False) for p in (d.weight, d.bias) if p is not None))
    H.ensure("the analog layer stays analog", isinstance(a, AnalogLayerBase) and len(list(a.analog_tiles())) > 0)
    holds(H, "analog layer afterwards", a, w, b)


LAYER_TYPE = {"linear": nn.Linear, "linear1": nn.Linear, "conv1": nn.Conv1d, "conv2": nn.Conv2d, "conv2a": nn.Conv2d, "conv3": nn.Conv3d}


# --- whole models (structure; the weights are copied layer by layer as above) ---

class Block(nn.Module):
    def __init__(self, **children):
        super().__init__()
        for k, v in children.items():
            setattr(self, k, v)


def other_block():
    class Block(nn.Module):      # (another class of the same name)
        def __init__(self, **children):
            super().__init__()
            for k, v in children.items():
                setattr(self, k, v)

        def own(self):
            return "other"
    return Block


Other = other_block()


def lin(b=True):
    return nn.Linear(2, 2, bias=b)


def trees():
    relu, shared = nn.ReLU(), lin()
    s_block = Block(a=lin(), act=nn.ReLU())
    s_seq = nn.Sequential(lin(), nn.ReLU())
    null = Block(a=lin())
    null.register_module("nothing", None)
    named = nn.Sequential(OrderedDict(first=lin(), act=nn.Tanh(), second=lin(False)))
    return {
        "layer": lin(),
        "activation": nn.ReLU(),
        "sequence": nn.Sequential(lin(), nn.ReLU(), lin(False)),
        "named sequence": named,
        "block": Block(a=lin(), b=nn.Conv2d(1, 2, 2), c=nn.ReLU(), n=nn.BatchNorm1d(2)),
        "nested": Block(a=lin(), s=nn.Sequential(lin(), Block(a=lin(), t=nn.Sequential(nn.Conv1d(1, 1, 2), nn.ReLU()))), b=Block(a=lin(False))),
        "lists": Block(m=nn.ModuleList([lin(), nn.ReLU(), Block(x=lin())]), d=nn.ModuleDict(dict(p=lin(), q=nn.Sequential(lin())))),
        "similar names": Block(a=lin(), aa=Block(a=lin()), b=Block(a=lin(), aa=lin())),
        "repeated activation": nn.Sequential(lin(), relu, lin(), relu),
        "repeated layer": Block(a=shared, b=shared, c=Block(a=shared)),
        "repeated block": nn.Sequential(s_block, nn.ReLU(), s_block),
        "repeated sequence": Block(x=s_seq, y=Block(z=s_seq)),
        "no module": null,
        "no layers": Block(a=nn.ReLU(), b=nn.Sequential(nn.Tanh())),
        "empty": nn.Sequential(),
    }


def walk(m, name=""):
    """all places of the model, repeated modules included"""
    yield name, m
    for k, v in m._modules.items():
        if v is not None:
            yield from walk(v, (name + "." if name else "") + k)


def expected_classes(m, cmap, exclude, name=""):
    """class of every place of the converted model"""
    out = {}

    def go(m, name, frozen):
        frozen = frozen or (name != "" and name in exclude)
        out[name] = type(m) if frozen else cmap.get(type(m), type(m))
        for k, v in m._modules.items():
            if v is not None:
                go(v, (name + "." if name else "") + k, frozen)
    go(m, name, False)
    return out


def places(m):
    """the digital places: tiles and other parts of an analog layer are not part of the model structure"""
    return [(n, x) for n, x in walk(m) if not any(isinstance(p, AnalogLayerBase) and not p.IS_CONTAINER and n.startswith(q + "." if q else "") and n != q
                                                 for q, p in walk(m))]


def content(m, name, p):
    if p is None:
        return None
    return m.tile.get_weights().clone() if name == "analog_ctx" else p.detach().clone()


def values(m):
    return {n: (id(x), type(x), x.training, list(x._modules), [(k, id(p), content(x, k, p)) for k, p in
                                                            list(x._parameters.items()) + list(x._buffers.items())]) for n, x in walk(m)}


def unchanged(H, label, m, before):
    now = values(m)
    H.ensure(label + ": same modules", now.keys() == before.keys() and all(now[k][:4] == before[k][:4] for k in now))
    H.ensure(label + ": same values", all(p[:2] == q[:2] and (p[2] is None or torch.equal(p[2], q[2])) for k in now for p, q in zip(now[k][4], before[k][4])))


def tree_cases():
    out = []
    for t, m in trees().items():
        names = sorted({n for n, _ in walk(m) if n})
        sets = [()] + [(n,) for n in names] + list(itertools.combinations(names, 2))[:12] + [tuple(names)]
        for e in dict.fromkeys(sets):
            if t.startswith("repeated") and e:
                continue
            for inplace in (False, True):
                out.append(dict(tree=t, exclude=list(e), inplace=inplace))
    return out


def same_layer(H, label, d, a):
    """the two layers have the same weights and geometry"""
    if type(a) in MAP.values() and not isinstance(a, AnalogSequential):
        w, b = a.get_weights()
    else:
        w, b = getattr(a, "weight", None), getattr(a, "bias", None)
    H.ensure(label + ": bias setting", (getattr(d, "bias", None) is None) == (b is None))
    for x, y in ((getattr(d, "weight", None), w), (getattr(d, "bias", None), b)):
        if x is not None:
            H.ensure(label + ": weights", bool(torch.allclose(x.detach().flatten(), y.detach().flatten().to(x.dtype), atol=1e-5)))
    g = geometry(d)
    H.ensure(label + ": geometry", {k: v for k, v in geometry(a).items() if k in g} == g)


@contract("C22", cases=tree_cases(), samples=1, note="bounded: the module trees and exclude lists enumerated in the contract (concrete weights)")
def model(H, tree, exclude, inplace):
    """exactly the selected layers of a model are converted, everything else stays"""
    if H.sym:
        H.ensure("bounded: concrete model", True)
        return
    m = trees()[tree]
    ref = deepcopy(m)
    ids, before = {n: x for n, x in walk(m)}, values(m)
    c = cfg("analog")
    kept = deepcopy(c)
    lst = list(exclude)
    a = convert_to_analog(m, c, exclude_modules=lst, inplace=inplace)
    H.ensure("the exclude list and the configuration stay", lst == list(exclude) and same(kept, c))
    want = expected_classes(ref, MAP, exclude)
    got = dict(places(a))
    H.ensure("same places", list(got) == list(want))
    for n, x in got.items():
        if n == "" and want[n] not in MAP.values():
            H.ensure("analog root of the original class", isinstance(x, AnalogWrapper) and isinstance(x, want[n]))
        else:
            H.ensure("class at '%s'" % n, type(x) is want[n])
    refs = dict(walk(ref))
    for n, x in got.items():
        if not list(refs[n].children()):
            same_layer(H, "'%s'" % n, refs[n], x)
    for (n, x), (k, y) in itertools.combinations(got.items(), 2):
        H.ensure("'%s' and '%s' are one module as before" % (n, k), (x is y) == (refs[n] is refs[k]))
    if inplace:
        for n, x in got.items():
            if type(x) not in MAP.values() and n != "" and type(x) is type(ids[n]):
                H.ensure("'%s' is kept in place" % n, x is ids[n])
    else:
        unchanged(H, "original", m, before)
        mine = {id(y) for y in ids.values()} | {p.data_ptr() for y in ids.values() for p in y._parameters.values() if p is not None}
        H.ensure("no module or parameter is shared with the original", not any(
            id(x) in mine or any(p.data_ptr() in mine for p in x._parameters.values() if p is not None and p.numel()) for x in got.values()))
    # and back
    state = values(a)
    d = convert_to_digital(a, inplace=inplace)
    back = dict(walk(d))
    H.ensure("the original places again", list(back) == list(refs))
    for n, x in back.items():
        H.ensure("the original class at '%s'" % n, type(x) is type(refs[n]))
        if not list(refs[n].children()):
            same_layer(H, "back '%s'" % n, refs[n], x)
    for (n, x), (k, y) in itertools.combinations(back.items(), 2):
        H.ensure("back: '%s' and '%s' are one module as before" % (n, k), (x is y) == (refs[n] is refs[k]))
    if not inplace:
        unchanged(H, "analog model", a, state)


@contract("C22", cases=[dict(tree=t, name=n) for t in trees() for n in ("", "net")], samples=1, note="bounded: the enumerated module trees")
def own_config(H, tree, name):
    """every converted layer gets the configuration made for its name"""
    if H.sym:
        H.ensure("bounded: concrete model", True)
        return
    m, calls, given = trees()[tree], [], []
    c = cfg("analog")
    kept = deepcopy(c)

    def special(full, mod, conf):
        H.ensure("a fresh copy of the configuration", conf is not c and same(conf, kept) and all(conf is not g for g in given))
        given.append(conf)
        calls.append((full, type(mod)))
        conf.forward.out_noise = float(len(calls))
        return conf
    want = expected_classes(m, MAP, (), name)
    classes = {(name + "." if n and name else name) + n: type(x) for n, x in walk(m)}
    a = convert_to_analog(m, c, specific_rpu_config_fun=special, module_name=name)
    H.ensure("the given configuration stays", same(kept, c))
    H.ensure("an analog root", isinstance(a, AnalogLayerBase))
    for full, t in calls:
        H.ensure("called for a selected layer with its name", classes.get(full) is t and want[full] in MAP.values())
    by_name = {full: float(i + 1) for i, (full, _) in enumerate(calls)}
    H.ensure("one call for each", len(by_name) == len(calls))
    seen = {}
    for n, x in places(a):
        if type(x) in MAP.values() and not isinstance(x, AnalogSequential):
            full = (name + "." if n and name else name) + n
            v = {t.rpu_config.forward.out_noise for t in x.analog_tiles()}
            H.ensure("'%s' has its own configuration" % full, v == {seen.setdefault(id(x), by_name.get(full))})


@contract("C22", cases=[dict()], samples=1, note="bounded: one model per case")
def options(H):
    """custom maps, sets, root wrapper and wrong arguments"""
    if H.sym:
        H.ensure("bounded: concrete model", True)
        return
    c = cfg("analog")
    make = trees()["nested"]
    a = convert_to_analog(make, c, conversion_map={nn.Linear: AnalogLinear})
    want = expected_classes(make, {nn.Linear: AnalogLinear}, ())
    H.ensure("only the layers of the map", all(type(x) is want[n] for n, x in places(a) if n))
    a = convert_to_analog(make, c, ensure_analog_root=False)
    H.ensure("no wrapper if not wanted", type(a) is Block)
    a = convert_to_analog(make, c, conversion_map={nn.Linear: AnalogLinear}, ensure_analog_root=False)
    d = convert_to_digital(a, conversion_set={AnalogConv2d})
    H.ensure("only the layers of the set", [type(x) for _, x in places(d)] == [type(x) for _, x in places(a)])
    H.ensure("wrong arguments are refused", all(refused(f, ArgumentError) for f in (
        lambda: convert_to_analog(make, c, conversion_map=[nn.Linear]), lambda: convert_to_digital(a, conversion_set=[AnalogLinear]),
        lambda: convert_to_digital(Block(a=nn.ReLU()), conversion_set={nn.ReLU}), lambda: convert_to_digital(nn.ReLU(), conversion_set={nn.ReLU}))))
    # modules of the same name but of different classes
    x, y = convert_to_analog(Block(a=lin()), c), convert_to_analog(Other(a=lin()), c)
    z = convert_to_analog(Block(a=lin()), c)
    H.ensure("wrapped modules keep their class", isinstance(x, Block) and isinstance(y, Other) and isinstance(z, Block) and y.own() == "other")
    H.ensure("and back", type(convert_to_digital(x)) is Block and type(convert_to_digital(y)) is Other and type(convert_to_digital(z)) is Block)
    H.ensure("copies keep their class", type(deepcopy(y)) is type(y) and type(convert_to_digital(deepcopy(y))) is Other)
    # several networks with one configuration
    n1, n2 = convert_to_analog(trees()["sequence"], c), convert_to_analog(trees()["sequence"], c)
    cs = [t.rpu_config for n in (n1, n2) for t in n.analog_tiles()]
    H.ensure("every tile has its own configuration", len({id(k) for k in cs}) == len(cs) and all(k is not c for k in cs))
