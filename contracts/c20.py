"""C20 the analog optimizer: every record is applied exactly once."""
import torch
from torch.nn import Parameter
from torch.optim import SGD, Adam
from pyvc.harness import contract, last_ctx
from aihwkit import nn as ann
from aihwkit.optim import AnalogSGD, AnalogAdam, AnalogOptimizer
from aihwkit.optim.context import AnalogContext
from .common import cfg, tile, stored


def make(kind, it=False, ot=False, out=3, inp=2, bias=False, config=None, **mapping):
    c = config if config is not None else cfg(kind, **mapping)
    t = c.tile_class(out, inp, c, bias=bias, in_trans=it, out_trans=ot)
    t.train()
    return t


def through(H, t, x, d):
    """forward and backward of the tile module for one input and output gradient"""
    if H.sym:
        t(x)
        fn, c = last_ctx[-1]
        return fn.backward(c, d)[2]
    xx = x.clone().requires_grad_()
    t(xx).backward(d)
    return xx.grad


def rows(v, trans):
    return v.reshape(v.shape[0], -1).t() if trans else v.reshape(-1, v.shape[-1])


def put_in(v, trans):
    """feature dimension first"""
    return v.movedim(-1, 0) if trans and v.dim() > 1 else v


def updates(t):
    """per update call: (x, d, learning rate used)"""
    out, lr = [], None
    for c in t.tile._calls:
        if c[0] == "set_learning_rate":
            lr = c[1]
        if c[0] in ("update", "update_indexed"):
            out.append((c[1], c[2], lr))
    return out


SH = {"same": [(2,), (2,)], "one": [(2,)], "diff": [(2,), (3,)], "3d": [(1, 2), (2, 2)], "mixed": [(2, 1), (2,)], "three": [(1,), (2,), (1,)]}


@contract("C20", cases=[dict(kind=k, it=it, ot=ot, sh=sh, m=m) for k in ("fp", "analog") for it in (False, True) for ot in (False, True)
                        for sh in SH for m in (0, 1) if not ((it or ot) and (m or k == "analog")) and not ((it or ot) and sh == "three")])
def step_history(H, kind, it, ot, sh, m):
    """two optimizer steps with several recorded batches of any shape and changing learning rates"""
    t = make(kind, it, ot, **(dict(weight_scaling_omega=0.5, learn_out_scaling=True, out_scaling_columnwise=True) if m else {}))
    w0 = H.tensor("w", 3, 2)
    t.tile.set_weights(w0)
    opt = AnalogSGD([t.get_analog_ctx()], lr=0.5)
    if m:
        opt.regroup_param_groups()
    posts = []
    orig = t.post_update_step
    t.post_update_step = lambda *a, **k: (posts.append(len(updates(t))), orig(*a, **k))
    w = H.clone(w0)
    n = 0
    for s, names in ((0, SH[sh]), (1, SH[sh][:1]), (2, [])):
        lr = H.real("lr%d" % s, gt=0, flo=0.05, fhi=1)
        for g in opt.param_groups:
            g["lr"] = lr
        t.tile._calls = []
        posts.clear()
        xs, ds = [], []
        for i, pre in enumerate(names):
            x, d = H.tensor("x%d_%d" % (s, i), *pre, 2), H.tensor("d%d_%d" % (s, i), *pre, 3)
            x, d = put_in(x, it), put_in(d, ot)
            xs.append(H.clone(x))
            ds.append(H.clone(d))
            n += 1
            before = H.clone(stored(t))
            through(H, t, x, d)
            H.eq("no update before the step", stored(t), before)
        before = H.clone(stored(t))
        ret = opt.step()
        H.ensure("no loss without closure", ret is None)
        ups = updates(t)
        X = torch.cat([rows(x, it) for x in xs]) if xs else None
        D = torch.cat([rows(d, ot) for d in ds]) if ds else None
        if not xs:
            H.ensure("no record, no update", not ups)
            H.eq("weights unchanged without records", stored(t), before)
        else:
            H.eq("all records in order: inputs", torch.cat([rows(u[0], it) for u in ups]), X, shape=True)
            H.eq("all records in order: gradients", torch.cat([rows(u[1], ot) for u in ups]), D, shape=True)
            for u in ups:
                H.eq("with the current learning rate", u[2], lr * t.mapping_lr_scale)
            H.eq("the sum of the outer products", stored(t), before - (lr * t.mapping_lr_scale) * torch.matmul(D.t(), X))
        ctx = t.get_analog_ctx()
        H.ensure("records are forgotten", not ctx.analog_input and not ctx.analog_grad_output and not ctx.has_gradient())
        H.ensure("one post update step after the update", posts == [len(ups)])


@contract("C20", cases=[dict(kind=k, first=f, regroup=r) for k in ("fp", "analog") for f in (0, 1, 2) for r in (False, True)])
def zero_learning_rate(H, kind, first, regroup):
    """learning rate zero: the records are discarded, the weights stay"""
    t = make(kind)
    w0 = H.tensor("w", 3, 2)
    t.tile.set_weights(w0)
    opt = AnalogSGD([t.get_analog_ctx()], lr=0.5)
    if regroup:
        opt.regroup_param_groups()
    for i in range(first):
        through(H, t, H.tensor("x%d" % i, 2, 2), H.tensor("d%d" % i, 2, 3))
    for g in opt.param_groups:
        g["lr"] = 0.0
    t.tile._calls = []
    posts = []
    t.post_update_step = lambda *a, **k: posts.append(1)
    opt.step()
    H.eq("weights untouched", stored(t), w0)
    H.ensure("no update", not updates(t))
    H.ensure("records discarded", not t.get_analog_ctx().has_gradient() and not t.get_analog_ctx().analog_grad_output)
    H.ensure("post update step runs", posts == [1])
    lr = H.real("lr", gt=0, flo=0.05, fhi=1)
    for g in opt.param_groups:
        g["lr"] = lr
    opt.step()
    H.eq("discarded for good", stored(t), w0)
    x, d = H.tensor("x", 2, 2), H.tensor("d", 2, 3)
    through(H, t, x, d)
    opt.step()
    H.eq("later records are applied", stored(t), w0 - lr * torch.matmul(d.t(), x))


def digital(n=3):
    return [Parameter(torch.tensor([0.5 + i, -1.0 * i])) for i in range(n)]


BASES = {"sgd": (AnalogSGD, SGD, dict(lr=0.25, momentum=0.5)), "adam": (AnalogAdam, Adam, dict(lr=0.25)),
         "wrapsgd": (lambda p, **k: AnalogOptimizer(SGD, p, **k), SGD, dict(lr=0.25, momentum=0.5)),
         "wrapadam": (lambda p, **k: AnalogOptimizer(Adam, p, **k), Adam, dict(lr=0.25))}


@contract("C20", cases=[dict(base=b, regroup=r, layout=l) for b in BASES for r in (False, True) for l in ("one", "two", "mixed")])
def several_tiles(H, base, regroup, layout):
    """several tiles and digital parameters: each tile gets its own records, digital parameters the base optimizer"""
    make_opt, ref_cls, kw = BASES[base]
    ts = [make("fp", out=2), make("analog", out=2)]
    ws = [H.tensor("w%d" % i, 2, 2) for i in range(2)]
    for t, w in zip(ts, ws):
        t.tile.set_weights(w)
    dig, ref = digital(2), digital(2)
    A = [t.get_analog_ctx() for t in ts]
    lay = {"one": [[A[0], dig[0], A[1], dig[1]]], "two": [[A[0], A[1]], dig], "mixed": [[dig[0], A[0]], [A[1], dig[1]]]}[layout]
    lays = {"one": [ref], "two": [ref], "mixed": [[ref[0]], [ref[1]]]}[layout]
    opt = make_opt([dict(params=list(g)) for g in lay], **kw)
    ropt = ref_cls([dict(params=list(g)) for g in lays], **kw)
    if regroup:
        opt.regroup_param_groups()
    lrs = [H.real("lr%d" % i, gt=0, flo=0.05, fhi=1) for i in range(2)]
    same = layout != "mixed" and not regroup
    log = []
    for i, t in enumerate(ts):
        t.post_update_step = (lambda i: lambda *a, **k: log.append(("post", i)))(i)
        up = t.tile.update
        t.tile.update = (lambda i, up: lambda *a, **k: (log.append(("up", i)), up(*a, **k)))(i, up)
    for s in range(2):
        log.clear()
        used = []
        for i, t in enumerate(ts):
            lr = lrs[0] if same else lrs[i]
            for g in opt.param_groups:
                if any(p is A[i] for p in g["params"]) and not any(p is q for p in g["params"] for q in dig):
                    g["lr"] = lr
            # the learning rate of the group with the tile
            used.append(next(g["lr"] for g in opt.param_groups if any(p is A[i] for p in g["params"])))
        recs = [[(H.tensor("x%d_%d_%d" % (s, i, j), 1, 2), H.tensor("d%d_%d_%d" % (s, i, j), 1, 2)) for j in range(1 + (i + s) % 2)] for i in range(2)]
        for j in range(2):
            for i in (1, 0):
                if j < len(recs[i]):
                    through(H, ts[i], *recs[i][j])
        before = [H.clone(stored(t)) for t in ts]
        for p, q in zip(dig, ref):
            p.grad = torch.tensor([1.0 + s, 0.5])
            q.grad = p.grad.clone()
        opt.step()
        ropt.step()
        H.ensure("digital parameters are those of the base optimizer", all(torch.equal(p.detach(), q.detach()) for p, q in zip(dig, ref)))
        for i, t in enumerate(ts):
            exp = before[i]
            for x, d in recs[i]:
                exp = exp - used[i] * torch.matmul(d.t(), x)
            H.eq("tile %d step %d" % (i, s), stored(t), exp)
        H.ensure("each tile once, post update steps at the end", sorted(log[:2]) == [("up", 0), ("up", 1)] and sorted(log[2:]) == [("post", 0), ("post", 1)])


def probe(H, opt, t, base_log):
    x, d = H.tensor("xc", 2, 2), H.tensor("dc", 2, 3)

    def closure():
        base_log.append("closure")
        through(H, t, x, d)
        return 4.5
    return closure, x, d


@contract("C20", cases=[dict(wrap=w) for w in (False, True)])
def closure_step(H, wrap):
    """the base optimizer is called once with the closure, its records count for this step and its result is returned"""
    log = []

    class Base(SGD):
        def step(self, closure=None, **kw):
            log.append(("base", closure is not None, kw))
            with torch.enable_grad():
                return closure() if closure is not None else None

    if wrap:
        Opt = lambda p, **k: AnalogOptimizer(Base, p, **k)    # noqa
    else:
        from aihwkit.optim.analog_optimizer import AnalogOptimizerMixin

        class Opt(AnalogOptimizerMixin, Base):
            pass
    t = make("fp")
    w = H.tensor("w", 3, 2)
    t.tile.set_weights(w)
    opt = Opt([t.get_analog_ctx()], lr=0.5)
    x0, d0 = H.tensor("x0", 1, 2), H.tensor("d0", 1, 3)
    through(H, t, x0, d0)
    closure, x, d = probe(H, opt, t, log)
    ret = opt.step(closure, extra=7)
    H.ensure("base step once with the arguments", log == [("base", True, {"extra": 7}), "closure"])
    H.ensure("the loss is returned", ret == 4.5)
    H.eq("all records", stored(t), w - 0.5 * (torch.matmul(d0.t(), x0) + torch.matmul(d.t(), x)))
    log.clear()
    opt.step()
    H.ensure("base step without closure", log == [("base", False, {})])


GROUPS = {"one": [("a0", "d0", "a1", "d1")], "two": [("a0", "a1"), ("d0", "d1")], "mixed": [("d0", "a0"), ("a1", "a2", "d1")],
          "analog": [("a0",), ("a1", "a2")], "digital": [("d0",), ("d1", "d2")]}


@contract("C20", cases=[dict(groups=g, named=n, times=k) for g in GROUPS for n in (False, True) for k in (1, 2)])
def regroup(H, groups, named, times):
    """regrouping keeps every parameter exactly once with the options of its group; each tile has its own group"""
    lay = GROUPS[groups]
    ts = {"a%d" % i: make("fp") for i in range(3)}
    P = {k: t.get_analog_ctx() for k, t in ts.items()}
    P.update({"d%d" % i: p for i, p in enumerate(digital(3))})
    opts = {}
    gs = []
    for gi, g in enumerate(lay):
        lr = H.real("lr%d" % gi, gt=0, flo=0.05, fhi=1)
        mom, wd = H.real("mom%d" % gi, gt=0, flo=0.05, fhi=0.9), 0.125 * gi
        gs.append(dict(params=[(k, P[k]) if named else P[k] for k in g], lr=lr, momentum=mom, weight_decay=wd, initial_lr=lr, mark="g%d" % gi))
        for k in g:
            opts[k] = gs[-1]
    opt = AnalogSGD(gs, lr=0.5)
    for _ in range(times):
        opt.regroup_param_groups(None)
    found = [p for g in opt.param_groups for p in g["params"]]
    H.ensure("every parameter exactly once", sorted(map(id, found)) == sorted(id(P[k]) for g in lay for k in g))
    H.ensure("no empty group", all(len(g["params"]) > 0 for g in opt.param_groups))
    for g in opt.param_groups:
        H.ensure("a tile has its own group", len(g["params"]) == 1 or not any(isinstance(p, AnalogContext) for p in g["params"]))
        for i, p in enumerate(g["params"]):
            k = next(k for k in P if P[k] is p)
            for o in ("lr", "momentum", "weight_decay", "initial_lr"):
                if o not in g:
                    H.ensure("option %s is kept" % o, False)
                else:
                    H.eq("option %s is kept" % o, g[o], opts[k][o])
            H.ensure("own options are kept", g.get("mark") == opts[k]["mark"])
            if named:
                H.ensure("names are kept", g.get("param_names", [None] * 9)[i] == k)
            if k in ts:
                H.eq("learning rate of the tile", ts[k].get_learning_rate(), opts[k]["lr"])


@contract("C20", cases=[dict(kind=k, regroup=r) for k in ("fp", "analog") for r in (False, True)])
def set_learning_rate(H, kind, regroup):
    """setting the learning rate changes all groups and tiles"""
    ts = [make(kind), make(kind, learn_out_scaling=True)]
    dig = digital(1)
    opt = AnalogSGD([t.get_analog_ctx() for t in ts] + dig, lr=0.5)
    if regroup:
        opt.regroup_param_groups()
    lr = H.real("lr", gt=0, flo=0.05, fhi=1)
    opt.set_learning_rate(lr)
    for g in opt.param_groups:
        H.eq("group", g["lr"], lr)
    for t in ts:
        H.eq("tile", t.get_learning_rate(), lr)


@contract("C20", cases=[dict(kind=k, frozen=f, n=n) for k in ("fp", "analog", "inference", "torch") for f in (False, True) for n in (1, 2)])
def frozen(H, kind, frozen, n):
    """frozen analog parameters are not updated, the input gradient is passed on"""
    t = make(kind)
    w0 = H.tensor("w", 3, 2)
    t.tile.set_weights(w0)
    ctx = t.get_analog_ctx()
    analog = kind in ("fp", "analog")
    opt = AnalogSGD([ctx], lr=0.5)
    if frozen:
        for p in t.parameters():
            p.requires_grad_(False)
    if kind == "torch" and H.sym:
        H.ensure("bounded: gradients of torch tiles are computed by torch", True)
        return
    exp = H.clone(w0)
    for i in range(n):
        x, d = H.tensor("x%d" % i, 2, 2), H.tensor("d%d" % i, 2, 3)
        g = through(H, t, x, d)
        H.eq("input gradient", g, torch.matmul(d, w0))
        if not frozen and analog:
            exp = exp - 0.5 * torch.matmul(d.t(), x)
    if frozen:
        H.ensure("no record for frozen parameters", not ctx.has_gradient())
    if analog:
        opt.step()
        H.eq("weights", stored(t), exp)
    else:
        calls = len(updates(t)) if hasattr(t.tile, "_calls") else 0
        before = H.clone(stored(t))
        opt.step()
        H.ensure("no analog record for weights updated by torch", not ctx.has_gradient())
        if hasattr(t.tile, "_calls"):
            H.ensure("no analog update of weights updated by torch", len(updates(t)) == calls)
        H.eq("weights only change by the base optimizer", stored(t), before)


@contract("C20", cases=[dict(kind=k, what=w, off=o) for k in ("fp", "analog") for w in ("x", "d", "both") for o in (False, True)])
def records_own_memory(H, kind, what, off):
    """what happens to the input and the output gradient after the backward pass does not change the update"""
    c = cfg(kind)
    if off:
        c.runtime.offload_input = c.runtime.offload_gradient = True
    t = make(kind, config=c)
    w0 = H.tensor("w", 3, 2)
    t.tile.set_weights(w0)
    opt = AnalogSGD([t.get_analog_ctx()], lr=0.5)
    X, D = [], []
    for i in range(2):
        x, d = H.tensor("x%d" % i, 2, 2), H.tensor("d%d" % i, 2, 3)
        X.append(H.clone(x))
        D.append(H.clone(d))
        if H.sym:
            t(x)
            fn, cc = last_ctx[-1]
            fn.backward(cc, d)
        else:
            y = t(x)
            y.backward(d)
        if what in ("x", "both"):
            x.mul_(3.0)
        if what in ("d", "both"):
            d.add_(1.0)
    opt.step()
    H.eq("update with the values of the backward pass", stored(t), w0 - 0.5 * sum(torch.matmul(d.t(), x) for x, d in zip(X, D)))


@contract("C20", cases=[dict(n=n, nd=nd) for n in (1, 2, 3) for nd in (1, 2)])
def digital_bias_gradient(H, n, nd):
    """accumulating the gradient of a digital bias leaves the records alone (executed by torch)"""
    if H.sym:
        H.ensure("bounded: gradients accumulated by torch", True)
        return
    t = make("fp", bias=True)
    w0, b0 = H.tensor("w", 3, 2), H.tensor("b", 3)
    t.set_weights(w0, b0)
    opt = AnalogSGD(t.parameters(), lr=0.5)
    exp = w0.clone()
    gb = torch.zeros(3, dtype=w0.dtype)
    for i in range(n):
        x, d = H.tensor("x%d" % i, *((2,) if nd == 1 else (2, 2))), H.tensor("d%d" % i, *((3,) if nd == 1 else (2, 3)))
        t(x).backward(d)
        exp = exp - 0.5 * d.reshape(-1, 3).t() @ x.reshape(-1, 2)
        gb = gb + d.reshape(-1, 3).sum(0)
    opt.step()
    w, b = t.get_weights()
    H.eq("weights", w, exp)
    H.eq("bias", b, b0 - 0.5 * gb)


def conv_ref(w, x, d):
    """weight gradient and input gradient of a 1d convolution without padding"""
    K = w.shape[2]
    gw = [[[sum((d[n, o, j] * x[n, i, j + k] for n in range(x.shape[0]) for j in range(d.shape[2])), 0.0 * x[0, 0, 0]) for k in range(K)]
           for i in range(x.shape[1])] for o in range(d.shape[1])]
    gx = [[[sum((d[n, o, p - k] * w[o, i, k] for o in range(d.shape[1]) for k in range(K) if 0 <= p - k < d.shape[2]), 0.0 * x[0, 0, 0])
            for p in range(x.shape[2])] for i in range(x.shape[1])] for n in range(x.shape[0])]
    st = lambda v: torch.stack([st(u) for u in v]) if isinstance(v, list) else v    # noqa
    return st(gw), st(gx)


@contract("C20", cases=[dict(kind=k, sizes=s, order=o, dim=d) for k in ("fp", "analog", "inference") for s in ((3, 3), (3, 4), (4, 3), (3, 4, 3))
                        for o in ("seq", "late") for d in (1, 2) if not (d == 2 and s != (4, 3))])
def indexed_history(H, kind, sizes, order, dim):
    """indexed convolutions: images of different sizes before the backward or the step"""
    c = cfg(kind)
    if dim == 1:
        layer = ann.AnalogConv1d(1, 2, 2, bias=False, rpu_config=c)
    else:
        layer = ann.AnalogConv2d(1, 2, (2, 1), bias=False, rpu_config=c, use_indexed=True)
    t = next(layer.analog_tiles())
    w = H.tensor("w", 2, 1, 2)
    layer.set_weights(w if dim == 1 else w.reshape(2, 1, 2, 1))
    layer.train()
    opt = AnalogSGD([t.get_analog_ctx()], lr=0.5)
    xs = [H.tensor("x%d" % i, 1, 1, n) for i, n in enumerate(sizes)]
    ds = [H.tensor("d%d" % i, 1, 2, n - 1) for i, n in enumerate(sizes)]
    img = (lambda v: v) if dim == 1 else (lambda v: v.reshape(*v.shape, 1))
    grads, pending = [], []

    def back(p):
        x, d, h = p
        if H.sym:
            fn, cc = h
            r = fn.backward(cc, img(d))
            return r[2], r[3]
        h.backward(img(d))
        return x.grad, None
    for x, d in zip(xs, ds):
        x = img(x)
        if H.sym:
            layer(x)
            pending.append((x, d, last_ctx[-1]))
        else:
            x = x.clone().requires_grad_()
            pending.append((x, d, layer(x)))
        if order == "seq":
            grads.append(back(pending.pop()))
    for p in pending:
        grads.append(back(p))
    before = H.clone(stored(t))
    G = 0.0
    for (g, sg), x, d in zip(grads, xs, ds):
        gw, gx = conv_ref(w, x, d)
        H.eq("input gradient", g.reshape(gx.shape), gx)
        G = G + gw
        if sg is not None:
            H.eq("weight gradient", sg, gw.reshape(2, 2))
    if kind == "inference":
        if not H.sym:
            H.eq("weight gradient", t.shared_weights.grad, G.reshape(2, 2))
        return
    opt.step()
    H.eq("update", stored(t), before - 0.5 * G.reshape(2, 2))
    y = layer(img(xs[-1]))
    H.ensure("still set for the last size", tuple(y.shape)[2] == sizes[-1] - 1)


@contract("C20", cases=[dict(same=s) for s in (False, True)])
def wrapped_class(H, same):
    """AnalogOptimizer derives from exactly the given optimizer class"""
    class A(SGD):
        pass

    class B(SGD):
        pass
    if same:
        B.__name__ = "A"
    p = digital(1)
    for cls in (A, B, A, B, Adam):
        o = AnalogOptimizer(cls, p, lr=0.5)
        H.ensure("an instance of the wrapped class", isinstance(o, cls) and isinstance(o, AnalogOptimizer))
        H.ensure("not of another one", not isinstance(o, B if cls is A else A))
