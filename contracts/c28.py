"""C28 the compiled tile interface: every layout, every argument, nothing outside the tensors."""
import torch
from aihwkit.simulator.configs import SingleRPUConfig, UnitCellRPUConfig, IOParameters, UpdateParameters
from aihwkit.simulator.configs.devices import ConstantStepDevice, LinearStepDevice, ExpStepDevice
from aihwkit.simulator.configs.compounds import VectorUnitCell, TransferCompound
from aihwkit.simulator.parameters.enums import PulseType
from pyvc.harness import contract
from pyvc import cc

D, X = 2, 3
BATCH = {1: (), 2: (2,), 3: (2, 2), 4: (1, 2, 2)}


def exact_config(dev=None):
    """exact products and updates; with a device: its parameters and bounds, never reached by values up to 1"""
    io = IOParameters(is_perfect=True)
    return SingleRPUConfig(device=dev or ConstantStepDevice(), forward=io, backward=io,
                           update=UpdateParameters(pulse_type=PulseType.NONE if dev is None else PulseType.NONE_WITH_DEVICE))


def new(H, kind="float", d=D, x=X, config=None, w=True):
    cc.run("bind_reset")
    t = cc.simple_tile(x, d) if kind == "float" else cc.analog_tile(config or exact_config(), x, d)
    wt = None
    if w:
        wt = H.tensor("w", d, x, lo=-1, hi=1) if config else H.tensor("w", d, x)
        t.set_w(wt)
    return t, wt, cc.Bound(H, t)


def given(H, name, n, nd, trans, how):
    """a tensor of the interface with n features first (trans) or last and the batch dimensions; (slot, [batch, n] in order)"""
    b = BATCH[nd]
    v = H.tensor(name, *(((n,) + b) if trans else (b + (n,))))
    order = None
    if how == "strided":
        order = list(range(nd))[::-1]
    s = cc.Slot(v, order=order)
    flat = v.reshape(n, -1).t() if trans else v.reshape(-1, n)
    return s, v, flat


def expect(flat, nd, trans):
    """result [batch, n] laid out with n first or last"""
    b, n = BATCH[nd], flat.shape[1]
    return flat.t().reshape((n,) + b) if trans else flat.reshape(b + (n,))


def same_shape(H, s, v, label):
    H.ensure(label + ": shape", tuple(s.shape) == tuple(v.shape))
    H.eq(label, s.read(), v)


LAYOUTS = [dict(nd=nd, xt=xt, dt=dt, bias=b, how=h, kind="float") for nd in (1, 2, 3) for xt in (0, 1) for dt in (0, 1) for b in (0, 1)
           for h in ("dense", "strided") if not (nd == 1 and h == "strided")] + [
    dict(nd=nd, xt=xt, dt=dt, bias=b, how="dense", kind=k) for nd in (2, 4) for xt in (0, 1) for dt in (0, 1) for b in (0, 1)
    for k in ("float", "analog") if (nd, k) != (2, "float")]


def bools(**kw):
    return {k: bool(v) for k, v in kw.items()}


@contract("C28", cases=LAYOUTS)
def forward(H, nd, xt, dt, bias, how, kind):
    """forward returns the product in the requested layout and leaves the input alone"""
    t, w, b = new(H, kind)
    s, v, flat = given(H, "x", X - bias, nd, xt, how)
    y = torch.matmul(flat, w[:, :X - bias].t())
    if bias:
        y = y + w[:, X - 1]
    want = expect(y, nd, dt)
    same_shape(H, b("forward", s, **bools(bias=bias, x_trans=xt, d_trans=dt)), want, "product by keywords")
    same_shape(H, b("forward", s, bool(bias), bool(xt), bool(dt), True, False), want, "product by position")
    same_shape(H, b("forward", x_input=s, **bools(d_trans=dt, x_trans=xt, bias=bias, non_blocking=True, is_test=True)), want,
               "product by shuffled keywords")
    H.eq("the input is not written", s.read(), v)
    H.eq("the weights are not written", b("get_weights").read(), w)


@contract("C28", cases=LAYOUTS)
def backward(H, nd, xt, dt, bias, how, kind):
    """backward returns the transposed product, without the bias column, in the requested layout"""
    t, w, b = new(H, kind)
    s, v, flat = given(H, "d", D, nd, dt, how)
    want = expect(torch.matmul(flat, w[:, :X - bias]), nd, xt)
    same_shape(H, b("backward", s, **bools(bias=bias, x_trans=xt, d_trans=dt)), want, "product by keywords")
    same_shape(H, b("backward", s, bool(bias), bool(dt), bool(xt), False), want, "product by position")
    H.eq("the input is not written", s.read(), v)
    H.eq("the weights are not written", b("get_weights").read(), w)


@contract("C28", cases=[dict(c, delta=q) for c in LAYOUTS for q in (0, 1) if not (q and (c["nd"] == 4 or c["how"] == "strided"))])
def update(H, nd, xt, dt, bias, how, kind, delta):
    """the update of all layouts; with a separate matrix it receives the gradient whatever the learning rate"""
    t, w, b = new(H, kind)
    lr = H.real("lr", lo=0, flo=0, fhi=1)
    b("set_learning_rate", lr)
    H.eq("learning rate", b("get_learning_rate"), lr)
    xs, xv, xf = given(H, "x", X - bias, nd, xt, how)
    ds, dv, df = given(H, "d", D, nd, dt, how)
    if bias:
        xf = torch.cat([xf, torch.ones_like(xf[:, :1])], 1)
    g = torch.matmul(df.t(), xf)
    if delta:
        m = cc.Slot(H.tensor("m", D, X))
        b("set_delta_weights", delta_weights=m)
    for k in range(2):
        if k:
            b("update", xs, ds, bool(bias), bool(xt), bool(dt), False)
        else:
            b("update", **dict(x_input=xs, d_input=ds, **bools(d_trans=dt, x_trans=xt, bias=bias)))
        if delta:
            H.eq("the separate matrix holds the gradient", m.read(), g)
            H.eq("weights untouched", b("get_weights").read(), w)
        else:
            H.eq("each update moves the weights", b("get_weights").read(), w - lr * g * (k + 1))
    H.eq("the input is not written", xs.read(), xv)
    H.eq("the error is not written", ds.read(), dv)
    if delta:
        b("reset_delta_weights")
        b("update", xs, ds, **bools(bias=bias, x_trans=xt, d_trans=dt))
        H.eq("updates reach the weights again", b("get_weights").read(), w - lr * g)
        H.eq("the separate matrix is released", m.read(), g)


BAD = [  # function, argument shapes, flags
    ("forward", [(2, 2)], {}), ("forward", [(3, 2)], {}), ("forward", [(2, 3)], dict(x_trans=1)), ("forward", [(2, 3)], dict(bias=1)),
    ("forward", [(2, 4)], {}), ("forward", [()], {}), ("forward", [(3,)], dict(bias=1)), ("forward", [(3, 2, 2)], {}),
    ("backward", [(2, 3)], {}), ("backward", [(3, 2)], dict(d_trans=1)), ("backward", [(2, 1)], {}), ("backward", [()], {}),
    ("backward", [(1, 3)], dict(bias=1)),
    ("update", [(2, 2), (2, 2)], {}), ("update", [(2, 3), (2, 3)], {}), ("update", [(2, 3), (3, 2)], {}), ("update", [(1, 3), (2, 2)], {}),
    ("update", [(2, 3), (2, 2)], dict(bias=1)), ("update", [(3, 2), (2, 3)], dict(x_trans=1, d_trans=0)),
    ("update", [(2, 3), (3, 2)], dict(x_trans=0, d_trans=1)), ("update", [(2, 2, 3), (3, 2)], {}), ("update", [(), (2,)], {}),
    ("update", [(3,), ()], {}), ("update", [(6, 3), (2, 2)], {}),
    ("set_weights", [(3, 2)], {}), ("set_weights", [(6,)], {}), ("set_weights", [(2, 4)], {}), ("set_weights", [(3, 3)], {}),
    ("set_weights", [(1, 2, 3)], {}),
    ("set_shared_weights", [(3, 2)], {}), ("set_shared_weights", [(2, 3, 1)], {}), ("set_shared_weights", [(1, 3)], {}),
    ("set_shared_weights", [(2, 2)], {}), ("set_delta_weights", [(3, 2)], {}), ("set_delta_weights", [(2, 3, 1)], {}),
    ("set_delta_weights", [(1, 3)], {}), ("set_delta_weights", [(2, 2)], {}), ("set_delta_weights", [(6,)], {}),
    ("set_hidden_parameters", [(2, 3)], {}), ("set_hidden_parameters", [(1, 2, 3)], {}), ("set_hidden_parameters", [(0, 2, 3)], {}),
]


def refused(f):
    try:
        f()
    except cc.CppError:
        return True
    return False


def flags(name, fl):
    kw = {k: bool(v) for k, v in fl.items()}
    if name == "update":
        kw.setdefault("bias", False)
    return kw


def unchanged(H, b, t, w, hid):
    H.eq("the weights are as before", b("get_weights").read(), w)
    if hid is not None:
        H.eq("the hidden parameters are as before", b("get_hidden_parameters").read(), hid)
    H.ensure("no separate matrix or sharing", not b("get_shared_weights_if"))
    x, d = H.tensor("px", 1, X, lo=-1, hi=1), H.tensor("pd", 1, D, lo=-1, hi=1)
    H.eq("the tile still works", b("forward", cc.Slot(x)).read(), torch.matmul(x, w.t()))
    b("update", cc.Slot(x), cc.Slot(d), False)
    H.eq("and still learns", b("get_weights").read(), w - 0.25 * torch.matmul(d.t(), x))


@contract("C28", cases=[dict(k=k, kind=kd) for k in range(len(BAD)) for kd in ("float", "analog")
                        if not (BAD[k][0] == "set_hidden_parameters" and kd == "float")])
def refusals(H, k, kind):
    """arguments of a wrong shape are refused and change nothing"""
    name, shapes, fl = BAD[k]
    t, w, b = new(H, kind, config=noisy(0.0) if kind == "analog" else None)
    b("set_learning_rate", 0.25)
    hid = b("get_hidden_parameters").read() if kind == "analog" else None
    sl = [cc.Slot(H.tensor("a%d" % j, *s) if s else [0.5], shape=s) for j, s in enumerate(shapes)]
    H.ensure("%s is refused" % name, refused(lambda: b(name, *sl, **flags(name, fl))))
    unchanged(H, b, t, w, hid)


GOOD = {"forward": [(2, 3)], "backward": [(2, 2)], "update": [(2, 3), (2, 2)], "set_shared_weights": [(2, 3)], "set_delta_weights": [(2, 3)],
        "forward_indexed": [(2, 3), (2, 2, 2)], "backward_indexed": [(2, 2, 2), (2, 3)], "update_indexed": [(2, 3), (2, 2, 2)]}


@contract("C28", cases=[dict(name=n, arg=a, how=h) for n in GOOD for a in range(len(GOOD[n])) for h in ("double", "half", "int64", "device")])
def wrong_kind(H, name, arg, how):
    """tensors of another scalar type or on another device are refused and change nothing"""
    t, w, b = new(H, "float")
    b("set_learning_rate", 0.25)
    idx = cc.Slot([2, 3, 4, 2, 3, 4], shape=(6,), dtype="int32")
    b("set_matrix_indices", idx)
    sl = []
    for j, s in enumerate(GOOD[name]):
        kw = {} if j != arg else dict(device=1) if how == "device" else dict(dtype=how)
        n = 1
        for q in s:
            n *= q
        sl.append(cc.Slot([1] * n if kw.get("dtype") == "int64" else H.tensor("a%d" % j, *s), shape=s, **kw))
    H.ensure("%s is refused" % name, refused(lambda: b(name, *sl, **flags(name, {}))))
    unchanged(H, b, t, w, None)


@contract("C28", cases=[dict(kind=k, how=h) for k in ("float", "analog") for h in ("dense", "strided", "double", "device")])
def weights(H, kind, how):
    """setting the weights copies any layout, type and place; getting them is a copy"""
    t, _, b = new(H, kind, w=False)
    w = H.tensor("w", D, X)
    s = cc.Slot(w, order=[1, 0] if how == "strided" else None, dtype="double" if how == "double" else "float", device=int(how == "device"))
    b("set_weights", s)
    g = b("get_weights")
    same_shape(H, g, w, "the weights set are the weights got")
    H.ensure("in the scalar type of the tile", g.dtype() == "float")
    H.ensure("not the tensor given", g.alias is None)
    H.eq("sizes", torch.tensor([b("get_d_size"), b("get_x_size")]), torch.tensor([D, X]))
    v = H.tensor("v", D, X)
    s.write(v)
    H.eq("the tile does not see changes of the tensor given", b("get_weights").read(), w)
    g.write(v)
    H.eq("nor of the tensor got", b("get_weights").read(), w)
    s.free()
    x = H.tensor("x", 2, X)
    H.eq("the product uses the weights set", b("forward", cc.Slot(x)).read(), torch.matmul(x, w.t()))


@contract("C28", cases=[dict(kind="float"), dict(kind="analog")])
def shared(H, kind):
    """shared weights live in the tensor given"""
    t, w, b = new(H, kind)
    H.ensure("not shared at first", not b("get_shared_weights_if"))
    v = H.tensor("v", D, X)
    s = cc.Slot(v)
    b("set_shared_weights", s)
    H.ensure("shared", b("get_shared_weights_if"))
    b("set_weights", cc.Slot(w))
    H.eq("setting writes the tensor", s.read(), w)
    b("set_learning_rate", 0.5)
    x, d = H.tensor("x", 1, X), H.tensor("d", 1, D)
    b("update", cc.Slot(x), cc.Slot(d), False)
    want = w - 0.5 * torch.matmul(d.t(), x)
    H.eq("updates write the tensor", s.read(), want)
    s.write(v)
    H.eq("writing the tensor sets the weights", b("get_weights").read(), v)
    H.eq("also for the product", b("forward", cc.Slot(x)).read(), torch.matmul(x, v.t()))


# --- the other functions hand their arguments on: the bound call and the library call on twin tiles agree
def twin(H, kind, config=None):
    cc.run("bind_reset")
    a, w, b = new(H, kind, config=config)
    t2 = cc.simple_tile(X, D) if kind == "float" else cc.analog_tile(config or exact_config(), X, D)
    if kind == "analog":
        t2.set_hidden(a.hidden())
    t2.set_w(w)
    return a, b, t2, w


def noisy(life=8.0):
    return exact_config(ConstantStepDevice(w_min_dtod=0, w_max_dtod=0, dw_min_dtod=0, dw_min_std=0, up_down_dtod=0, w_min=-100.0,
                                           w_max=100.0, lifetime=life, lifetime_dtod=0.0, diffusion=0.25 if life else 0.0, diffusion_dtod=0.0, reset=0.5,
                                           reset_dtod=0.0, reset_std=0.25))


def both(H, f, g):
    """the two calls with the same random draws"""
    m = H.mark()
    r = f()
    H.rewind(m)
    q = g()
    return r, q


CALLS = ["decay", "decay_default", "diffuse", "drift", "clip", "modify", "remap", "reset", "reset_default", "reset_part"]


@contract("C28", cases=[dict(call=c, kind=k) for c in CALLS for k in ("float", "analog") if (k, c[:5]) not in (("float", "reset"), ("analog", "remap"))])
def passed_on(H, call, kind):
    """decay, diffusion, drift, clipping, modification, remapping and reset act with the arguments given"""
    from aihwkit.simulator import rpu_base
    a, b, t, w = twin(H, kind, noisy() if kind == "analog" else None)
    z = H.real("z", gt=0, flo=0.2, fhi=2)
    if call == "decay":
        f, g = (lambda: b("decay_weights", alpha=z)), (lambda: t("decay", 1, 0, reals=[z]))
    elif call == "decay_default":
        f, g = (lambda: b("decay_weights")), (lambda: t("decay", 1, 0, reals=[1.0]))
    elif call == "diffuse":
        f, g = (lambda: b("diffuse_weights")), (lambda: t("diffuse"))
    elif call == "drift":
        f, g = (lambda: b("drift_weights", time_since_last_call=z)), (lambda: t("drift", reals=[z]))
    elif call == "clip":
        f = lambda: b("clip_weights", weight_clipper_params=cc.Par(7, (1, z, 2.5)))
        g = lambda: t("tclip_par", 1, reals=[z, 2.5])
    elif call == "modify":
        p = rpu_base.tiles.WeightModifierParameter()
        p.type = rpu_base.tiles.WeightModifierType.AddNormal
        p.std_dev, p.assumed_wmax = 0.25, 1.0
        f = lambda: b("modify_weights", weight_modifier_params=cc.Par(8, p))

        def g():
            iv, rv = [], []
            cc.params(p, iv, rv)
            t("tmodify", *iv, reals=rv)
    elif call == "remap":
        s = H.tensor("s", D, lo=0.25, flo=0.5, fhi=2)
        sl = cc.Slot(s)
        r = b("remap_weights", weight_remap_params=cc.Par(9, (cc.enum("WeightRemapType")["LayerwiseSymmetric"], 0.0, 0.0, 1.0, z)), scales=sl)
        wn, sn = b("get_weights").read(), r.read()
        H.ensure("the scales given are returned", r.alias == sl.k)
        H.eq("weights times scales are kept", wn * sn.reshape(D, 1), w * s.reshape(D, 1))
        H.le("the largest weight is the wanted one", abs(wn).max(), z)
        for bad in ((3,), (1,), (2, 1)):
            H.ensure("scales of another shape are refused", refused(lambda: b("remap_weights", cc.Par(9, (0, 0.0, 0.0, 1.0, 1.0)),
                                                                            cc.Slot(H.tensor("sb%d" % len(bad), *bad)))))
        return
    elif call == "reset":
        f, g = (lambda: b("reset_columns", start_column_idx=1, num_columns=2, reset_prob=1.0)), (lambda: t("reset_cols", 1, 2, reals=[1.0]))
    elif call == "reset_default":
        f, g = (lambda: b("reset_columns")), (lambda: t("reset_cols", 0, 1, reals=[1.0]))
    else:
        f, g = (lambda: b("reset_columns", 2, 1, 0.0)), (lambda: t("reset_cols", 2, 1, reals=[0.0]))
    both(H, f, g)
    H.eq("the weights of both tiles agree", b("get_weights").read(), t.w())
    x = H.tensor("x", 1, X)
    H.eq("the products of both tiles agree", b("forward", cc.Slot(x)).read(), t.r("forward", 0, 1, 0, 0, 0, reals=[x], shape=(1, D)))


DEVICES = {
    "constant": lambda: SingleRPUConfig(device=ConstantStepDevice()),
    "linear": lambda: SingleRPUConfig(device=LinearStepDevice()),
    "exp": lambda: SingleRPUConfig(device=ExpStepDevice()),
    "vector": lambda: UnitCellRPUConfig(device=VectorUnitCell(unit_cell_devices=[ConstantStepDevice(), LinearStepDevice()])),
    "transfer": lambda: UnitCellRPUConfig(device=TransferCompound(unit_cell_devices=[ConstantStepDevice(), ConstantStepDevice()])),
    "drift": lambda: SingleRPUConfig(device=ConstantStepDevice(lifetime=8.0, diffusion=0.1, reset=0.1)),
}


def quiet(c):
    """without device-to-device variation: the parameters are constants"""
    def go(o):
        for k in list(vars(o)):
            v = getattr(o, k)
            if k.endswith(("_dtod", "_std")) and isinstance(v, float):
                setattr(o, k, 0.0)
            for q in v if isinstance(v, list) else [v]:
                if hasattr(q, "__dataclass_fields__"):
                    go(q)
    go(c.device)
    return c


@contract("C28", cases=[dict(dev=k, d=d, how=h) for k in DEVICES for d in (1, 2) for h in ("dense", "strided")])
def hidden(H, dev, d, how):
    """the slices of the hidden parameters are the parameters named, for reading and for writing"""
    x = 2
    cc.run("bind_reset")
    t = cc.analog_tile(quiet(DEVICES[dev]()), x, d)
    b = cc.Bound(H, t)
    names = b("get_hidden_parameter_names")
    H.ensure("the names of the library", names == t.hidden_names() and len(set(names)) == len(names))
    h = b("get_hidden_parameters")
    H.ensure("one slice per name", tuple(h.shape) == (len(names), d, x) and h.dtype() == "float")
    f = H.tensor("f", len(names), d, x, lo=0.5, hi=1)
    f = f * torch.tensor([0.25 if n.startswith("hidden_weights") else 1.0 for n in names]).reshape(-1, 1, 1)   # within the bounds
    h0 = h.read()
    v = h0 * f
    s = cc.Slot(v, order=[2, 1, 0] if how == "strided" else None)
    b("set_hidden_parameters", s)
    H.eq("the tensor read first was a copy", h.read(), h0)
    g = b("get_hidden_parameters").read()
    H.eq("parameters written are read back", g, v)
    s.write(h0)
    H.eq("the tile does not see changes of the tensor given", b("get_hidden_parameters").read(), v)
    lib = t.hidden()
    for k, n in enumerate(names):
        H.eq("slice of %s" % n, g[k], lib[n])
    for j, sh in enumerate(((len(names) + 1, d, x), (len(names) - 1, d, x), (len(names), d, x, 1), (len(names), d * x),
                            (len(names), d + 1, x), (len(names), d, x + 1), (len(names), x, d), (len(names), d * x, 1), (len(names), 1, d * x))):
        if sh == (len(names), d, x):
            continue
        H.ensure("another shape is refused", refused(lambda: b("set_hidden_parameters", cc.Slot(H.tensor("n%d" % j, *sh)))))
    H.eq("and changes nothing", b("get_hidden_parameters").read(), v)
    H.ensure("pulses are not counted", tuple(b("get_pulse_counters").shape) == (0,))


@contract("C28", cases=[dict(kind="float"), dict(kind="analog")])
def without_hidden(H, kind):
    """a tile without device has no hidden parameters, ignores those given and counts no pulses"""
    c = exact_config()
    c.update.pulse_type = PulseType.NONE
    t, w, b = new(H, kind, config=c)
    H.ensure("no names", b("get_hidden_parameter_names") == [])
    H.ensure("an empty tensor", tuple(b("get_hidden_parameters").shape) == (0,))
    b("set_hidden_parameters", cc.Slot([], shape=(0,)))
    H.ensure("no pulse counters", tuple(b("get_pulse_counters").shape) == (0,))
    H.eq("weights untouched", b("get_weights").read(), w)


@contract("C28", cases=[dict(dev="vector")])
def hidden_index(H, dev):
    """the device updated is the one selected"""
    cc.run("bind_reset")
    t = cc.analog_tile(quiet(DEVICES[dev]()), X, D)
    b = cc.Bound(H, t)
    for k in (1, 0):
        b("set_hidden_update_index", k)
        H.ensure("index", b("get_hidden_update_index") == k)


IMG = [[2, 3, 0, 5], [4, 2, 5, 1], [0, 5, 3, 2]]      # per column of the tile: 0 zero, 1 one, 2.. position of the image


@contract("C28", cases=[dict(n=n, kind=k, dims=dm, how=h) for n in (1, 2) for k in ("float", "analog") for dm in (4, 5)
                        for h in ("dense", "strided")])
def indexed(H, n, kind, dims, how):
    """the indexed functions gather the image by the index matrix, for every number of images"""
    t, w, b = new(H, kind)
    ix = cc.Slot(sum(IMG, []), shape=(12,), dtype="int32")
    H.ensure("no indices at first", not b("has_matrix_indices"))
    b("set_matrix_indices", ix)
    H.ensure("indices set", b("has_matrix_indices"))
    ishape = (n, 1, 2, 2) if dims == 4 else (n, 1, 1, 2, 2)
    oshape = (n, D, 2, 2) if dims == 4 else (n, D, 1, 2, 2)
    o = list(range(dims))[::-1] if how == "strided" else None
    img = H.tensor("img", *ishape)
    d = H.tensor("d", *oshape)
    flat = img.reshape(n, 4)
    zero, one = flat[0, 0] * 0, flat[0, 0] * 0 + 1
    cols = torch.stack([torch.stack([torch.stack([zero if q == 0 else one if q == 1 else flat[k, q - 2] for q in r]) for r in IMG])
                        for k in range(n)])                                     # [n, x, p]
    out = cc.Slot(H.tensor("o", *oshape), order=o)
    xs, ds = cc.Slot(img, order=o), cc.Slot(d, order=o)
    y = torch.stack([torch.matmul(w, cols[k]) for k in range(n)]).reshape(oshape)
    for r in (b("forward_indexed", x_input=xs, d_tensor=out, is_test=False), b("forward_indexed", xs, out, True, False)):
        same_shape(H, r, y, "gathered product")
    if how == "dense":
        H.eq("written to the tensor given", out.read(), y)
    H.eq("the image is not written", xs.read(), img)
    gx = cc.Slot(H.tensor("g", *ishape), order=o)
    back = torch.stack([torch.matmul(w.t(), d.reshape(n, D, 4)[k]) for k in range(n)])     # [n, x, p]
    want = []
    for k in range(n):
        for q in range(4):
            s = zero
            for i, r in enumerate(IMG):
                for p, v in enumerate(r):
                    if v - 2 == q:
                        s = s + back[k, i, p]
            want.append(s)
    r = b("backward_indexed", d_input=ds, x_tensor=gx)
    same_shape(H, r, torch.stack(want).reshape(ishape), "scattered gradient")
    H.eq("the error is not written", ds.read(), d)
    lr = H.real("lr", lo=0, flo=0, fhi=1)
    b("set_learning_rate", lr)
    b("update_indexed", x_input=xs, d_input=ds)
    g = sum(torch.matmul(d.reshape(n, D, 4)[k], cols[k].t()) for k in range(n))
    H.eq("weight step", b("get_weights").read(), w - lr * g)
    if kind == "float":
        m = cc.Slot(H.tensor("m", D, X))
        b("set_delta_weights", m)
        b("update_indexed", xs, ds)
        H.eq("gradient in the separate matrix", m.read(), g)
        H.eq("not in the weights", b("get_weights").read(), w - lr * g)


@contract("C28", cases=[dict(kind=k, how=h) for k in ("float", "analog") for h in ("__copy__", "__deepcopy__")])
def copies(H, kind, how):
    """a copy has the weights and parameters, and a life of its own"""
    t, w, b = new(H, kind, config=noisy(0.0) if kind == "analog" else None)
    lr = H.real("lr", lo=0, hi=1)
    b("set_learning_rate", lr)
    c = b(how) if how == "__copy__" else b(how, memo={})
    o = cc.Bound(H, c, b.cls)
    H.eq("weights of the copy", o("get_weights").read(), w)
    H.eq("learning rate of the copy", o("get_learning_rate"), lr)
    H.eq("sizes of the copy", torch.tensor([o("get_d_size"), o("get_x_size")]), torch.tensor([D, X]))
    if kind == "analog":
        H.eq("hidden parameters of the copy", o("get_hidden_parameters").read(), b("get_hidden_parameters").read())
    x, d = H.tensor("x", 1, X, lo=-1, hi=1), H.tensor("d", 1, D, lo=-1, hi=1)
    b("update", cc.Slot(x), cc.Slot(d), False)
    H.eq("the copy stays", o("get_weights").read(), w)
    o("update", cc.Slot(x), cc.Slot(d), bias=False)
    H.eq("and learns alike", o("get_weights").read(), b("get_weights").read())
    v = H.tensor("v", D, X, lo=-1, hi=1)
    o("set_weights", cc.Slot(v))
    H.eq("the original stays", b("get_weights").read(), w - lr * torch.matmul(d.t(), x))


@contract("C28", cases=[dict(dev=k) for k in ("constant", "vector", "transfer", "drift")])
def extra_state(H, dev):
    """the extra state loaded is the one dumped; a missing key raises only if asked to"""
    cc.run("bind_reset")
    t, o = cc.analog_tile(quiet(DEVICES[dev]()), X, D), cc.analog_tile(quiet(DEVICES[dev]()), X, D)
    b, ob = cc.Bound(H, t), cc.Bound(H, o)
    lr = H.real("lr", lo=0, flo=0, fhi=1)
    b("set_learning_rate", lr)
    s = b("dump_extra")
    H.ensure("there is state", len(s.d) > 3)
    ob("load_extra", state=s, strict=True)
    r = ob("dump_extra")
    H.ensure("the same keys", sorted(r.d) == sorted(s.d))
    for k in s.d:
        H.ensure("size of %s" % k, tuple(r.d[k].shape) == tuple(s.d[k].shape))
        if len(s.d[k]):
            H.eq("value of %s" % k, r.d[k], s.d[k])
    H.eq("learning rate", ob("get_learning_rate"), lr)
    few = cc.State({k: v for n, (k, v) in enumerate(sorted(s.d.items())) if n})
    H.ensure("a missing key raises", refused(lambda: ob("load_extra", few, True)))
    ob("load_extra", few, False)


@contract("C28", cases=[dict(kind="float", x=x, d=d) for x in (1, 2, 5) for d in (1, 3)])
def created(H, kind, x, d):
    """a tile made by the interface has the sizes asked for, zero weights and works"""
    cc.run("bind_reset")
    b = cc.Bound(H, None, "FloatingPointTile")
    b.t = cc.simple_tile(x, d)
    ref = b.t
    c = b("__init__", d_size=d, x_size=x)
    o = cc.Bound(H, cc.Tile(x, d, "float", handle=c.h))
    H.ensure("sizes", o("get_x_size") == x and o("get_d_size") == d and ref.x == x)
    w = H.tensor("w", d, x)
    o("set_weights", cc.Slot(w))
    v = H.tensor("v", 1, x)
    H.eq("product", o("forward", cc.Slot(v)).read(), torch.matmul(v, w.t()))
    for q in ("get_brief_info", "get_info", "__str__"):
        H.ensure(q, o(q) > 0)
    o("set_verbosity_level", verbose=0)
