"""C26 the floating point tile computes exact products and exact gradient descent."""
import torch
from pyvc.harness import contract
from pyvc import cc

D, X = 2, 3


def new(H, d=D, x=X, delayed=False, **kw):
    t = cc.simple_tile(x, d, delayed=delayed, **kw)
    w = H.tensor("w", d, x)
    t.set_w(w)
    return t, w


def with_bias(x, bias):
    return torch.cat([x, torch.ones_like(x[:, :1])], 1) if bias else x


def lay(a, trans):
    """memory order of a batch: [m, n], transposed [n, m]"""
    return a.t().reshape(-1) if trans else a.reshape(-1)


def unlay(v, m, n, trans):
    return v.reshape(n, m).t() if trans else v.reshape(m, n)


@contract("C26", cases=[dict(bias=b, m=m, xt=xt, dt=dt, alpha=al) for b in (0, 1) for m in (1, 2) for xt in (0, 1) for dt in (0, 1)
                        for al in (0, 1)])
def products(H, bias, m, xt, dt, alpha):
    t, w = new(H)
    x = H.tensor("x", m, X - bias)
    d = H.tensor("d", m, D)
    fa, ba = 1, 1
    if alpha:
        fa, ba = H.real("fa"), H.real("ba")
        t("set_alpha", reals=[fa, ba])
    for test in (0, 1):
        y = unlay(t.r("forward", bias, m, xt, dt, test, reals=[lay(x, xt)]), m, D, dt)
        H.eq("forward is the product with the weights", y, torch.matmul(with_bias(x, bias), w.t()) * fa)
    g = unlay(t.r("backward", bias, m, dt, xt, reals=[lay(d, dt)]), m, X - bias, xt)
    H.eq("backward is the product with the transposed weights", g, (torch.matmul(d, w) * ba)[:, :X - bias])
    H.eq("weights untouched", t.w(), w)


@contract("C26", cases=[dict(bias=b, m=m, xt=xt, dt=dt, alpha=al) for b in (0, 1) for m in (1, 2) for xt in (0, 1) for dt in (0, 1)
                        for al in (0, 1)])
def update(H, bias, m, xt, dt, alpha):
    t, w = new(H)
    lr = H.real("lr")
    t("set_lr", reals=[lr])
    ba = 1
    if alpha:
        ba = H.real("ba", gt=0, flo=0.5, fhi=2)
        t("set_alpha", reals=[1.0, ba])
    for k in range(2):
        x = H.tensor("x%d" % k, m, X - bias)
        d = H.tensor("d%d" % k, m, D)
        t("update", bias, m, xt, dt, reals=[lay(x, xt), lay(d, dt)])
        w = w - torch.matmul(d.t(), with_bias(x, bias)) * lr / ba
    H.eq("each update subtracts the learning rate times the summed outer products", t.w(), w)


def lay3(a, trans):
    """[dim3, m, n] -> memory"""
    return a.permute(0, 2, 1).reshape(-1) if trans else a.reshape(-1)


def unlay3(v, d3, m, n, trans):
    return v.reshape(d3, n, m).permute(0, 2, 1) if trans else v.reshape(d3, m, n)


def unlay3d(v, d3, m, n, trans):
    """outputs of the tensor interface carry dim3 slowest, as the inputs"""
    return unlay3(v, d3, m, n, trans)


@contract("C26", cases=[dict(bias=b, m=m, d3=d3, trans=tr) for b in (0, 1) for m in (1, 2) for d3 in (1, 2) for tr in (0, 1)])
def tensor(H, bias, m, d3, trans):
    """the three dimensional layouts"""
    t, w = new(H)
    lr = H.real("lr")
    t("set_lr", reals=[lr])
    x = H.tensor("x", d3, m, X - bias)
    d = H.tensor("d", d3, m, D)
    y = unlay3d(t.r("forward_tensor", bias, m, d3, trans, 0, reals=[lay3(x, trans)]), d3, m, D, trans)
    g = unlay3d(t.r("backward_tensor", bias, m, d3, trans, reals=[lay3(d, trans)]), d3, m, X - bias, trans)
    t("update_tensor", bias, m, d3, trans, reals=[lay3(x, trans), lay3(d, trans)])
    xf, df = with_bias(x.reshape(d3 * m, X - bias), bias), d.reshape(d3 * m, D)
    H.eq("forward", y.reshape(d3 * m, D), torch.matmul(xf, w.t()))
    H.eq("backward", g.reshape(d3 * m, X - bias), torch.matmul(df, w)[:, :X - bias])
    H.eq("update", t.w(), w - torch.matmul(df.t(), xf) * lr)


IDX = [[2, 3, 0], [4, 2, 5]]      # index matrix [x][m], entries: 0 zero, 1 one, 2.. input


@contract("C26", cases=[dict(trans=tr, d3=d3, sl=sl, one=one) for tr in (0, 1) for d3 in (1, 2) for sl in (0, 1) for one in (0, 1)])
def indexed(H, trans, d3, sl, one):
    """the indexed layouts gather the input by the index matrix"""
    x, m, n = 2, 3, 4
    t, w = new(H, 2, x)
    lr = H.real("lr")
    t("set_lr", reals=[lr])
    idx = [list(r) for r in IDX]
    if one:
        idx[1][0] = 1
    flat = [idx[i][j] for i in range(x) for j in range(m)] if trans else [idx[i][j] for j in range(m) for i in range(x)]
    t("set_indices", len(flat), *flat)
    inp = H.tensor("x", d3, n)
    d = H.tensor("d", d3, m, 2)
    ext = torch.cat([torch.zeros_like(inp[:, :1]), torch.ones_like(inp[:, :1]), inp], 1)
    cols = torch.stack([torch.stack([ext[:, idx[i][j]] for i in range(x)], 1) for j in range(m)], 1)      # d3, m, x
    if not sl:
        y = unlay3(t.r("forward_indexed", n * d3, m, d3, trans, 0, 0, reals=[inp]), d3, m, 2, trans)
        H.eq("forward", y, torch.matmul(cols, w.t()))
        g = t.r("backward_indexed", n * d3, m, d3, trans, 0, reals=[lay3(d, trans)]).reshape(d3, n)
        sel = list(range(m))
    else:
        rows = [[0, 2], [1, 0]][:d3]
        v = [k for r in rows for k in r + [0]]        # one row of m entries per image
        y = unlay3(t.r("forward_indexed", n * d3, m, d3, trans, 0, 2, len(v), *v, reals=[inp]), d3, m, 2, trans)
        full = torch.matmul(cols, w.t())
        for k in range(d3):
            for j in range(m):
                H.eq("forward of the selected samples only", y[k, j], full[k, j] if j in rows[k] else 0 * full[k, j])
        g = t.r("backward_indexed", n * d3, m, d3, trans, 2, len(v), *v, reals=[lay3(d, trans)]).reshape(d3, n)
    want = [[0 * inp[0, 0] for _ in range(n)] for _ in range(d3)]
    dw = 0 * w
    for k in range(d3):
        for j in (range(m) if not sl else rows[k]):
            gx = torch.matmul(d[k, j], w)
            for i in range(x):
                if idx[i][j] >= 2:
                    want[k][idx[i][j] - 2] = want[k][idx[i][j] - 2] + gx[i]
            dw = dw + torch.matmul(d[k, j].reshape(2, 1), cols[k, j].reshape(1, x))
    H.eq("backward scatters the gradient to the input", g, torch.stack([torch.stack(r) for r in want]))
    if not sl:
        t("update_indexed", n * d3, m, d3, trans, 0, reals=[inp, lay3(d, trans)])
    else:
        t("update_indexed", n * d3, m, d3, trans, 2, len(v), *v, reals=[inp, lay3(d, trans)])
    H.eq("update", t.w(), w - dw * lr)


@contract("C26", cases=[dict(m=1), dict(m=2)])
def delta(H, m):
    """updates can be collected in a separate matrix; the weights stay as they are"""
    t, w = new(H)
    lr = H.real("lr")
    ba = H.real("ba", gt=0, flo=0.5, fhi=2)
    t("set_lr", reals=[lr])
    t("set_alpha", reals=[1.0, ba])
    x, d = H.tensor("x", m, X), H.tensor("d", m, D)
    t("delta", 1)
    for k in range(2):
        t("update", 0, m, 0, 0, reals=[x, d])
        H.eq("the buffer holds the gradient of the last update", t.r("get_delta", shape=(D, X)), torch.matmul(d.t(), x) / ba)
        H.eq("weights untouched", t.w(), w)
    t("delta", 0)
    t("update", 0, m, 0, 0, reals=[x, d])
    H.eq("updates reach the weights again", t.w(), w - torch.matmul(d.t(), x) * lr / ba)


@contract("C26", cases=[dict(seq=s) for s in ("u", "a", "auu", "auua", "uau", "auaua")])
def delayed(H, seq):
    """delayed updates become visible when they are applied, and exactly once"""
    t, w = new(H, 1, 2, delayed=True)
    lr = H.real("lr")
    t("set_lr", reals=[lr])
    buf = None
    for k, c in enumerate(seq):
        if c == "u":
            x, d = H.tensor("x%d" % k, 1, 2), H.tensor("d%d" % k, 1, 1)
            t("update", 0, 1, 0, 0, reals=[x, d])
            g = torch.matmul(d.t(), x) * lr
            if buf is None:
                w = w - g
            else:
                buf = buf - g
        else:
            t("apply_delayed")
            w = buf = buf if buf is not None else w
        H.eq("visible weights", t.w(), w)


@contract("C26", cases=[dict(nb=0), dict(nb=1)])
def decay(H, nb):
    life = H.real("life", flo=-1, fhi=4)
    t, w = new(H, 2, 2, lifetime=life)
    a = H.real("alpha", flo=0, fhi=2)
    t("decay", 1, nb, reals=[a])
    s = 1 - a / H.ite(life > 1, life, 1.0)
    f = H.ite((life > 1) & (s > 0) & (s < 1) if H.sym else bool(life > 1 and 0 < s < 1), s, 1.0)
    w1 = w * f
    if nb:
        w1 = torch.cat([w1[:, :1], w[:, 1:]], 1)
    H.eq("decay multiplies by one minus the decay rate", t.w(), w1)


@contract("C26", cases=[dict(nb=0), dict(nb=1)])
def decay_plain(H, nb):
    life = H.real("life", flo=-1, fhi=4)
    t, w = new(H, 2, 2, lifetime=life)
    t("decay", 0, nb)
    f = H.ite(life > 1, 1 - 1 / H.ite(life > 1, life, 1.0), 1.0)
    w1 = w * f
    if nb:
        w1 = torch.cat([w1[:, :1], w[:, 1:]], 1)
    H.eq("decay multiplies by one minus the decay rate", t.w(), w1)


@contract("C26")
def diffusion(H):
    s = H.real("diffusion", flo=-1, fhi=1)
    t, w = new(H, 2, 2, diffusion=s)
    m = cc.mark()
    t("diffuse")
    z = cc.drawn(m)
    if s > 0:
        H.eq("diffusion adds the configured amount of noise", t.w(), w + s * z.reshape(2, 2))
    else:
        H.eq("no diffusion", t.w(), w)


@contract("C26")
def weight_access(H):
    t, w = new(H)
    v = H.tensor("v", D, X)
    s = H.real("s")
    dw = t.r("reset_update", reals=[v, s], shape=(D, X))
    H.eq("difference to the given weights", dw, (w - v) * s)
    H.eq("weights are the given ones", t.w(), v)
    u = H.tensor("u", D, X)
    r = t.r("apply_update", reals=[u], shape=(D, X))
    H.eq("update is added", t.w(), v + u)
    H.eq("result is returned", r, v + u)
    t("share_weights")
    H.eq("sharing keeps the weights", t.w(), v + u)
    H.eq("shared memory holds the weights", t.r("shared", shape=(D, X)), v + u)
    t.set_w(w)
    H.eq("writes reach the shared memory", t.r("shared", shape=(D, X)), w)


@contract("C26", cases=[dict(how=k) for k in (0, 1, 2, 3)])
def copies(H, how):
    """copied and moved tiles carry weights, learning rate and scales; copies are independent"""
    t, w = new(H, 1, 2)
    lr, fa, ba = H.real("lr"), H.real("fa"), H.real("ba", gt=0, flo=0.5, fhi=2)
    t("set_lr", reals=[lr])
    t("set_alpha", reals=[fa, ba])
    c = t.copy(how)
    H.eq("weights", c.w(), w)
    H.eq("learning rate", c.r("get_lr"), lr)
    x, d = H.tensor("x", 1, 2), H.tensor("d", 1, 1)
    c("update", 0, 1, 0, 0, reals=[x, d])
    w1 = w - torch.matmul(d.t(), x) * lr / ba
    H.eq("update of the copy", c.w(), w1)
    H.eq("forward of the copy", c.r("forward", 0, 1, 0, 0, 0, reals=[x]), torch.matmul(x, w1.t()).reshape(-1) * fa)
    if how < 2:
        H.eq("original untouched", t.w(), w)
