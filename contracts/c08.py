"""C08 conductance conversion."""
import torch
from pyvc.harness import contract
from aihwkit.inference.converter.conductance import (
    SinglePairConductanceConverter, NPairConductanceConverter, DualPairConductanceConverter,
    CustomPairConductanceConverter, SingleDeviceConductanceConverter)

SHAPES = [(1, 1), (2, 3)]


def as_list(g):
    return list(g) if isinstance(g, (list, tuple)) else [g]


def used(H, c):
    """conversions do not depend on what the object converted before"""
    for k in (1.0, 0.25):
        g, params = c.convert_to_conductances(H.const([0.5 * k, -0.25 * k]))
        c.convert_back_to_weights(g, params)
    return c


@contract("C08", cases=[dict(shape=s, zero=z) for s in SHAPES for z in (False, True)])
def single_pair(H, shape, zero):
    gmax = H.real("g_max", gt=0, fhi=100)
    gmin = 0.0 if zero else H.real("g_min", lo=0, fhi=50)
    H.assume(gmin < gmax)
    c = SinglePairConductanceConverter(g_max=gmax, g_min=gmin)
    used(H, c)
    w = H.tensor("w", *shape)
    w0 = H.clone(w)
    g, params = c.convert_to_conductances(w)
    H.ensure("two conductances", len(g) == 2)
    H.eq("input unchanged", w, w0)
    for x in g:
        H.within("conductance range", gmin, x, gmax)
    gp, gm = H.clone(g[0]), H.clone(g[1])
    b = c.convert_back_to_weights(g, params)
    H.eq("conductances unchanged", g[0], gp)
    H.eq("conductances unchanged", g[1], gm)
    H.eq("round trip", b, w)
    H.eq("input unchanged", w, w0)
    # sign preservation: the positive device carries positive weights
    for k in range(w.numel()):
        i = (k // shape[1], k % shape[1])
        H.le("sign", gm[i], gp[i], when=w0[i] >= 0)
        H.le("sign", gp[i], gm[i], when=w0[i] <= 0)
        H.eq("unused device at g_min", gm[i], gmin, when=w0[i] >= 0)
        H.eq("unused device at g_min", gp[i], gmin, when=w0[i] <= 0)


@contract("C08", cases=[dict(shape=s, f=f, cls=c) for s in [(1, 2), (2, 2)] for f, c in
                        [((1.0, 1.0), "dual"), ((3.0, 1.0), "dual"), ((2.0,), "n"), ((0.5, 1.0, 2.0), "n")]][:7])
def n_pair(H, shape, f, cls):
    gmax = H.real("g_max", gt=0, fhi=100)
    gmin = H.real("g_min", lo=0, fhi=50)
    H.assume(gmin < gmax)
    c = (DualPairConductanceConverter if cls == "dual" else NPairConductanceConverter)(list(f), g_max=gmax, g_min=gmin)
    used(H, c)
    w = H.tensor("w", *shape)
    w0 = H.clone(w)
    g, params = c.convert_to_conductances(w)
    H.ensure("number of conductances", len(g) == 2 * len(f))
    H.eq("input unchanged", w, w0)
    for x in g:
        H.within("conductance range", gmin, x, gmax)
    b = c.convert_back_to_weights(g, params)
    H.eq("round trip", b, w)
    H.ensure("factors unchanged", list(c.f_lst) == list(f))


@contract("C08", cases=[dict(pairs=1), dict(pairs=2)])
def n_pair_factors(H, pairs):
    """symbolic significance factors"""
    gmax = H.real("g_max", gt=0, fhi=100)
    gmin = H.real("g_min", lo=0, fhi=50)
    H.assume(gmin < gmax)
    f = [H.real("f%d" % i, gt=0, fhi=8) for i in range(pairs)]
    c = NPairConductanceConverter(list(f), g_max=gmax, g_min=gmin)
    used(H, c)
    w = H.tensor("w", 2)
    g, params = c.convert_to_conductances(w)
    for x in g:
        H.within("conductance range", gmin, x, gmax)
    H.eq("round trip", c.convert_back_to_weights(g, params), w)


@contract("C08", cases=[dict(shape=s) for s in [(2,), (2, 2)]])
def single_device(H, shape):
    gmax = H.real("g_max", gt=0, fhi=100)
    gmin = H.real("g_min", lo=0, fhi=50)
    H.assume(gmin < gmax)
    c = SingleDeviceConductanceConverter(g_max=gmax, g_min=gmin)
    used(H, c)
    w = H.tensor("w", *shape)
    w0 = H.clone(w)
    g, params = c.convert_to_conductances(w)
    for x in as_list(g):
        H.within("conductance range", gmin, x, gmax)
    H.eq("input unchanged", w, w0)
    b = c.convert_back_to_weights(g, params)
    H.eq("round trip", b.reshape(shape) if isinstance(g, list) else b, w)


CUSTOM = {
    "sym5": ([1.0], [[0.0, 0.0, 0.0, 10.0, 20.0], [20.0, 10.0, 0.0, 0.0, 0.0]]),
    "two": ([1.0, 2.0], [[0.0, 0.0, 10.0], [10.0, 0.0, 0.0], [0.0, 0.0, 5.0], [5.0, 0.0, 0.0]]),
}


@contract("C08", cases=[dict(kind=k, n=n) for k in CUSTOM for n in (1, 2)])
def custom_pair(H, kind, n):
    f, gl = CUSTOM[kind]
    with H.setup():
        c = CustomPairConductanceConverter(list(f), [list(x) for x in gl], g_max=20.0, g_min=0.0)
    used(H, c)
    w = H.tensor("w", n)
    w0 = H.clone(w)
    H.assume(abs(w).max() >= 1e-6)
    g, params = c.convert_to_conductances(w)
    for x in g:
        H.within("conductance range", 0.0, x, 20.0)
    H.eq("round trip", c.convert_back_to_weights(g, params), w, tol=1e-4)
    H.eq("input unchanged", w, w0)
