"""C21 recurrent cells, layers and networks."""
import math
import torch
from torch import nn
from pyvc.harness import contract
from contracts.common import cfg, linear
from aihwkit.nn.modules.linear import AnalogLinear
from aihwkit.nn.modules.rnn.cells import AnalogVanillaRNNCell, AnalogLSTMCell, AnalogLSTMCellCombinedWeight, AnalogGRUCell
from aihwkit.nn.modules.rnn.layers import AnalogRNNLayer, AnalogReverseRNNLayer, AnalogBidirRNNLayer
from aihwkit.nn.modules.rnn.rnn import AnalogRNN

CELLS = {"vanilla": AnalogVanillaRNNCell, "lstm": AnalogLSTMCell, "combined": AnalogLSTMCellCombinedWeight, "gru": AnalogGRUCell}
GATES = dict(vanilla=1, lstm=4, combined=4, gru=3)
KINDS = ("digital", "fp", "analog", "inference", "torch")


def config(kind):
    return None if kind == "digital" else cfg(kind)


def write(H, layer, name):
    """arbitrary weights in a digital or analog linear layer"""
    o, i = layer.out_features, layer.in_features
    bias = layer.bias if isinstance(layer, AnalogLinear) else layer.bias is not None
    w = H.tensor(name + ".w", o, i, flo=-0.9, fhi=0.9)
    b = H.tensor(name + ".b", o, flo=-0.9, fhi=0.9) if bias else None
    if isinstance(layer, AnalogLinear):
        layer.set_weights(H.clone(w), None if b is None else H.clone(b))
    else:
        H.put(layer, "weight", H.clone(w))
        if b is not None:
            H.put(layer, "bias", H.clone(b))
    return w, b


def fill(H, cell, kind, name=""):
    if kind == "combined":
        return [write(H, cell.weight, name + "weight")]
    return [write(H, cell.weight_ih, name + "ih"), write(H, cell.weight_hh, name + "hh")]


def sig(x):
    return torch.sigmoid(x)


def step(kind, par, x, state):
    """the standard equations"""
    n = GATES[kind]
    if kind == "vanilla":
        (wi, bi), (wh, bh) = par
        h = torch.tanh(linear(x, wi, bi) + linear(state, wh, bh))
        return h, h
    if kind == "gru":
        (wi, bi), (wh, bh) = par
        k = wi.shape[0] // n
        cut = [slice(j * k, (j + 1) * k) for j in range(n)]
        gi = [linear(x, wi[s], None if bi is None else bi[s]) for s in cut]
        gh = [linear(state, wh[s], None if bh is None else bh[s]) for s in cut]
        r, z = sig(gi[0] + gh[0]), sig(gi[1] + gh[1])
        new = torch.tanh(gi[2] + r * gh[2])
        h = (1.0 - z) * new + z * state
        return h, h
    h, c = state
    k = par[0][0].shape[0] // n
    g = []
    for j in range(n):
        s = slice(j * k, (j + 1) * k)
        if kind == "combined":
            w, b = par[0]
            d = x.shape[1]
            v = linear(x, w[s, :d]) + linear(h, w[s, d:])
            g.append(v if b is None else v + b[s])
        else:
            (wi, bi), (wh, bh) = par
            g.append(linear(x, wi[s], None if bi is None else bi[s]) + linear(h, wh[s], None if bh is None else bh[s]))
    i, f, u, o = sig(g[0]), sig(g[1]), torch.tanh(g[2]), sig(g[3])
    c = f * c + i * u
    h = o * torch.tanh(c)
    return h, (h, c)


def state_of(H, kind, batch, hidden, name="s"):
    s = [H.tensor("%s.%s" % (name, n), batch, hidden, flo=-0.9, fhi=0.9) for n in (("h", "c") if kind in ("lstm", "combined") else ("h",))]
    return tuple(s) if len(s) > 1 else s[0]


def flat(s):
    return [y for x in s for y in flat(x)] if isinstance(s, (tuple, list)) else [s]


def same_state(H, label, got, want):
    got, want = flat(got), flat(want)
    H.ensure(label + ": parts", len(got) == len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        H.eq("%s %d" % (label, k), a, b, tol=1e-5)


def keep(H, x):
    return [H.clone(t) for t in flat(x)]


@contract("C21", cases=[dict(cell=c, kind=k, bias=b, size=s) for c in CELLS for k in KINDS for b in (True, False) for s in ((1, 1, 1), (2, 1, 2), (1, 2, 1))
                        if not (c == "gru" and k == "digital")], samples=3)
def cell_step(H, cell, kind, bias, size):
    """one step of a cell, for all inputs, states and weights"""
    n_in, n_hid, batch = size
    m = CELLS[cell](n_in, n_hid, bias, config(kind))
    m.eval()
    par = fill(H, m, cell)
    x, s = H.tensor("x", batch, n_in, flo=-0.9, fhi=0.9), state_of(H, cell, batch, n_hid)
    x0, s0 = keep(H, x), keep(H, s)
    out, new = m(x, s)
    want, ws = step(cell, par, x0[0], s0 if len(s0) > 1 else s0[0])
    H.eq("output", out, want, tol=1e-5)
    same_state(H, "state", new, ws)
    same_state(H, "given input and state are not modified", (x, s), (x0, s0))


@contract("C21", cases=[dict(cell=c, kind=k, bias=b) for c in CELLS for k in ("digital", "analog", "inference") for b in (True, False)], samples=1)
def geometry(H, cell, kind, bias):
    """sizes and bias setting of the linear layers, zero states"""
    m = CELLS[cell](3, 2, bias, config(kind))
    g = GATES[cell]
    want = dict(weight=(5, 2 * g)) if cell == "combined" else dict(weight_ih=(3, 2 * g), weight_hh=(2, 2 * g))
    layers = {n: x for n, x in m.named_children()}
    H.ensure("layers", {n: (x.in_features, x.out_features) for n, x in layers.items()} == want)
    for x in layers.values():
        analog = isinstance(x, AnalogLinear)
        H.ensure("analog if configured", analog == (kind != "digital" or cell == "gru"))
        H.ensure("bias setting", (x.bias if analog else x.bias is not None) == bias)
    z = m.get_zero_state(4)
    H.ensure("parts of the state", len(flat(z)) == (2 if "lstm" in cell or cell == "combined" else 1))
    for t in flat(z):
        H.ensure("zero state", tuple(t.shape) == (4, 2) and bool((t == 0).all()))


class Probe(nn.Module):
    """any cell: two arbitrary functions of input and state (mixing products so that order matters)"""

    def __init__(self, n_in, n_hid, key):
        super().__init__()
        self.n, self.key, self.calls = n_hid, key, 0

    def get_zero_state(self, batch):
        return torch.zeros(batch, self.n)

    def forward(self, x, s):
        self.calls += 1
        a, b, c, d = self.key
        x = x.sum(-1, keepdim=True)
        return a * x + b * s, c * x + d * s


def coefficients(H, name):
    return [H.real("%s.%s" % (name, k), flo=-1.5, fhi=1.5) for k in "abcd"]


def probe(key, x, s):
    a, b, c, d = key
    x = x.sum(-1, keepdim=True)
    return a * x + b * s, c * x + d * s


def sequence(f, x, s, reverse=False):
    out = [None] * x.shape[0]
    for t in (reversed(range(x.shape[0])) if reverse else range(x.shape[0])):
        out[t], s = f(x[t], s)
    return torch.stack(out), s


LENGTHS = (1, 2, 3, 5)


@contract("C21", cases=[dict(layer=l, steps=n) for l in ("forward", "reverse", "both") for n in LENGTHS], samples=3)
def layer_order(H, layer, steps):
    """a layer applies any cell in time order and returns aligned outputs and the final states"""
    keys = [coefficients(H, "f"), coefficients(H, "r")]
    x = H.tensor("x", steps, 2, 1, flo=-0.9, fhi=0.9)
    s = [H.tensor("s%d" % k, 2, 1, flo=-0.9, fhi=0.9) for k in range(2)]
    x0, s0 = keep(H, x), keep(H, s)
    made = []

    def make(*args):
        made.append(args)
        return Probe(1, 1, keys[len(made) - 1])
    cls = dict(forward=AnalogRNNLayer, reverse=AnalogReverseRNNLayer, both=AnalogBidirRNNLayer)[layer]
    m = cls(make, 1, 1, "more")
    H.ensure("cells get the arguments", made == [(1, 1, "more")] * (2 if layer == "both" else 1))
    if layer != "both":
        out, st = m(x, s[0])
        want, ws = sequence(lambda a, b: probe(keys[0], a, b), x0[0], s0[0], layer == "reverse")
        H.ensure("one application per step", m.cell.calls == steps)
    else:
        out, st = m(x, list(s))
        f, fs = sequence(lambda a, b: probe(keys[0], a, b), x0[0], s0[0])
        r, rs = sequence(lambda a, b: probe(keys[1], a, b), x0[0], s0[1], True)
        want, ws = torch.cat((f, r), -1), [fs, rs]
    H.eq("outputs", out, want, tol=1e-5)
    same_state(H, "final state", st, ws)
    same_state(H, "given input and states are not modified", (x, s), (x0, s0))


@contract("C21", cases=[dict(layers=n, bidir=b, steps=t, dropout=d) for n in (1, 2, 3) for b in (False, True) for t in (1, 2, 3) for d in (0.0, 0.5)
                        if not (d and t == 3) and not (n == 3 and b and t == 3)], samples=2)
def network(H, layers, bidir, steps, dropout):
    """stacked layers feed their outputs forward unchanged, every layer starts from its own state"""
    dirs = 2 if bidir else 1
    keys = [coefficients(H, "k%d" % k) for k in range(layers * dirs)]
    made = []

    def make(*args):
        made.append(args)
        return Probe(1, 1, keys[len(made) - 1])
    m = AnalogRNN(make, 1, 1, True, None, None, num_layers=layers, bidir=bidir, dropout=dropout)
    m.train(not dropout)
    H.ensure("arguments of the cells", made == [(1 if k < dirs else dirs, 1, True, None, None) for k in range(layers * dirs)])
    x = H.tensor("x", steps, 1, 1, flo=-0.9, fhi=0.9)
    s = [[H.tensor("s%d%d" % (k, j), 1, 1, flo=-0.9, fhi=0.9) for j in range(dirs)] for k in range(layers)]
    given = s if bidir else [v[0] for v in s]
    x0, s0 = keep(H, x), keep(H, given)
    out, st = m(x, given)
    y, ws = x0[0], []
    for k in range(layers):
        f, fs = sequence(lambda a, b, k=k: probe(keys[k * dirs], a, b), y, s[k][0])
        if bidir:
            r, rs = sequence(lambda a, b, k=k: probe(keys[k * dirs + 1], a, b), y, s[k][1], True)
            y = torch.cat((f, r), -1)
            ws.append([fs, rs])
        else:
            y = f
            ws.append(fs)
    H.eq("outputs", out, y, tol=1e-5)
    H.ensure("one state per layer", len(st) == layers)
    same_state(H, "final states", st, ws)
    same_state(H, "given input and states are not modified", (x, given), (x0, s0))


def rnn_cells(m, bidir):
    return [[d.cell for d in l.directions] if bidir else [l.cell] for l in m.rnn.layers]


@contract("C21", cases=[dict(cell=c, kind=k, layers=n, bidir=b, steps=t, zero=z) for c in CELLS for k, n, b, t, z in (
    ("inference", 1, False, 2, False), ("analog", 1, True, 2, True), ("fp", 2, False, 1, False), ("inference", 2, True, 1, True), ("digital", 2, False, 2, True),
    ("torch", 1, False, 2, True)) if not (c == "gru" and k == "digital")], samples=3)
def whole_network(H, cell, kind, layers, bidir, steps, zero):
    """networks of the real cells, with given states and with the default zero states"""
    m = AnalogRNN(CELLS[cell], 1, 1, True, config(kind), num_layers=layers, bidir=bidir)
    m.eval()
    par = [[fill(H, c, cell, "l%dd%d" % (k, j)) for j, c in enumerate(cs)] for k, cs in enumerate(rnn_cells(m, bidir))]
    x = H.tensor("x", steps, 1, 1, flo=-0.9, fhi=0.9)
    x0 = keep(H, x)[0]

    def st(k, j):
        if zero:
            z = torch.zeros(1, 1, dtype=H.float_dtype)
            return (z, z) if cell in ("lstm", "combined") else z
        return state_of(H, cell, 1, 1, "s%d%d" % (k, j))
    s = [[st(k, j) for j in range(2 if bidir else 1)] for k in range(layers)]
    out, new = m(x, None if zero else (s if bidir else [v[0] for v in s]))
    y, ws = x0, []
    for k in range(layers):
        f, fs = sequence(lambda a, b, k=k: step(cell, par[k][0], a, b), y, s[k][0])
        ws.append(fs)
        if bidir:
            r, rs = sequence(lambda a, b, k=k: step(cell, par[k][1], a, b), y, s[k][1], True)
            y, ws[-1] = torch.cat((f, r), -1), [fs, rs]
        else:
            y = f
    H.eq("outputs", out, y, tol=1e-4)
    same_state(H, "final states", new, ws)


@contract("C21", cases=[dict(kind=k, xavier=x, bidir=b, cell=c) for c in CELLS for k in ("digital", "analog", "inference") for x in (False, True) for b in (False, True)
                        if not (c == "gru" and k == "digital")], samples=2)
def initial_weights(H, kind, xavier, bidir, cell):
    """all layers are initialised in the documented range (the bias is zero for xavier)"""
    m = AnalogRNN(CELLS[cell], 2, 2, True, config(kind), num_layers=1, bidir=bidir, xavier=xavier)
    for cs in rnn_cells(m, bidir):
        for c in cs:
            for n, l in c.named_children():
                if isinstance(l, AnalogLinear):
                    w, b = l.get_weights()
                else:
                    w, b = l.weight, l.bias
                r = math.sqrt(6.0 / (l.in_features + l.out_features)) if xavier else 1 / math.sqrt(2.0)
                H.le(n + " weight lower", -r - 1e-6, w); H.le(n + " weight upper", w, r + 1e-6)
                if xavier:
                    H.eq(n + " bias", b, torch.zeros(l.out_features, dtype=H.float_dtype))
                else:
                    H.le(n + " bias lower", -r - 1e-6, b); H.le(n + " bias upper", b, r + 1e-6)
