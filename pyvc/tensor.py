"""Symbolic tensors: real torch.Tensor instances whose elements are terms."""
import itertools
import math

import numpy as np
import torch
import torch.nn.functional as F
from torch.utils._pytree import tree_map

from vc import term as T
from .sym import E, Unsupported, lift, wrap, is_sym, SymReal, SymInt, SymBool, power

_DIS = torch._C.DisableTorchFunctionSubclass
IMPL = {}
SORT = {}


def sort_of(dtype):
    if dtype == torch.bool:
        return "B"
    if dtype.is_floating_point:
        return "R"
    return "I"


def as_sort(t, s):
    if t.sort == s:
        return t
    if s == "R":
        return T.toreal(t)
    if s == "I":
        return T.trunc(t) if t.sort == "R" else T.b2i(t)
    return T.truth(t)


class SymTensor(torch.Tensor):
    """elements: numpy object array of terms in ``_d`` (numpy views are tensor views)."""

    @staticmethod
    def __new__(cls, d, dtype=torch.float32, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(SymTensor, tuple(d.shape), dtype=dtype,
                                                requires_grad=False)
        r._d = d
        r._dt = dtype
        r._rg = requires_grad
        r._sgrad = None
        return r

    def __init__(self, *a, **k):
        pass

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        if "detach" in str(func) or "alias" in str(func):
            return mk(args[0]._d, args[0]._dt)
        raise Unsupported("low-level %s" % func)

    # metadata
    @property
    def shape(self):
        return torch.Size(self._d.shape)

    @property
    def ndim(self):
        return self._d.ndim

    @property
    def dtype(self):
        return self._dt

    @property
    def device(self):
        return torch.device("cpu")

    is_cuda = property(lambda s: False)
    is_sparse = property(lambda s: False)
    is_leaf = property(lambda s: True)
    layout = property(lambda s: torch.strided)
    grad_fn = property(lambda s: None)

    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v

    @property
    def grad(self):
        return self._sgrad

    @grad.setter
    def grad(self, v):
        self._sgrad = v

    @property
    def data(self):
        return mk(self._d, self._dt)

    @data.setter
    def data(self, v):
        v = to_sym(v)
        self._d, self._dt = v._d, v._dt

    @property
    def T(self):
        return mk(self._d.T, self._dt)

    @property
    def mT(self):
        return mk(np.swapaxes(self._d, -1, -2), self._dt)

    def size(self, dim=None):
        return self.shape if dim is None else self._d.shape[dim]

    def dim(self):
        return self._d.ndim

    def numel(self):
        return self._d.size

    def nelement(self):
        return self._d.size

    def __len__(self):
        if self._d.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self._d.shape[0]

    def __iter__(self):
        return iter([mk(self._d[i], self._dt) for i in range(len(self))])

    def __bool__(self):
        if self._d.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return E.decide(T.truth(self._d.reshape(-1)[0]))

    def __float__(self):
        t = lift(self)
        if t.op == "c":
            return float(t.val)
        raise Unsupported("float() of a symbolic tensor")

    def __int__(self):
        t = lift(self)
        if t.op == "c":
            return int(t.val)
        raise Unsupported("int() of a symbolic tensor")

    def __index__(self):
        t = lift(self)
        if t.op == "c" and t.sort == "I":
            return int(t.val)
        raise Unsupported("symbolic tensor as index")

    def item(self):
        return bool(self) if self._dt == torch.bool else wrap(lift(self))

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        r = mk(self._d.copy(), self._dt)
        r._rg = self._rg
        if getattr(self, "_is_param", False):
            r._is_param = True
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling of symbolic tensors")

    def __repr__(self):
        return "SymTensor(%s)" % (self._d.tolist() if self._d.size <= 6 else list(self._d.shape))

    def __format__(self, spec):
        return repr(self)

    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        setitem(self, idx, v)

    def data_ptr(self):
        return id(self._d.base if self._d.base is not None else self._d)

    def tolist(self):
        def go(a):
            if isinstance(a, np.ndarray):
                return [go(x) for x in a]
            return wrap(a)
        if self._d.ndim == 0:
            return wrap(self._d[()])
        return go(self._d)

    def numpy(self):
        o = np.empty(self._d.shape, dtype=object)
        for i in np.ndindex(*self._d.shape):
            o[i] = wrap(self._d[i])
        return o

    def __array__(self, *a, **k):
        return self.numpy()


def arr0(t):
    a = np.empty((), dtype=object)
    a[()] = t
    return a


def mk(d, dtype=torch.float32):
    if not isinstance(d, np.ndarray):
        d = arr0(d)
    return SymTensor(d, dtype)


def full(shape, t):
    d = np.empty(tuple(shape), dtype=object)
    d.fill(t)
    return d


_const_cache = {}


def lift_float(v, dtype):
    if v != v or v in (math.inf, -math.inf):
        raise Unsupported("non-finite tensor element")
    return T.real(v)


_FROM_NUMPY = torch.from_numpy


def to_sym(x, like=None):
    """anything tensor-like or scalar -> SymTensor"""
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, torch.Tensor):
        with _DIS():
            y = x.detach().cpu()
            flat = y.reshape(-1).double().tolist() if y.dtype.is_floating_point else y.reshape(-1).tolist()
            shape = tuple(y.shape)
            dt = y.dtype
        d = np.empty(len(flat), dtype=object)
        if dt == torch.float32:
            # single precision constants: shortest decimal that rounds to the same float32
            flat = [float(str(np.float32(v))) for v in flat]
        for i, v in enumerate(flat):
            if dt == torch.bool:
                d[i] = T.boolean(v)
            elif dt.is_floating_point:
                d[i] = lift_float(v, dt)
            else:
                d[i] = T.integer(v)
        return mk(d.reshape(shape), dt)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            d = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                d[i] = lift(x[i])
            return mk(d, torch.float32)
        return to_sym(_FROM_NUMPY(np.ascontiguousarray(x)))
    t = lift(x)
    return mk(arr0(t), {"R": torch.get_default_dtype(), "I": torch.int64, "B": torch.bool}[t.sort])


def _is_tensor(x):
    return isinstance(x, torch.Tensor)


def result_dtype(a, b):
    ta, tb = _is_tensor(a), _is_tensor(b)

    def dt(x):
        if _is_tensor(x):
            return x.dtype
        s = lift(x).sort
        return {"R": torch.get_default_dtype(), "I": torch.int64, "B": torch.bool}[s]
    da, db = dt(a), dt(b)
    da0 = not ta or a.ndim == 0
    db0 = not tb or b.ndim == 0
    rank = {"B": 0, "I": 1, "R": 2}
    ra, rb = rank[sort_of(da)], rank[sort_of(db)]
    if not ta and tb:
        return da if ra > rb else db
    if not tb and ta:
        return db if rb > ra else da
    if da0 and not db0:
        return da if ra > rb else db
    if db0 and not da0:
        return db if rb > ra else da
    return torch.promote_types(da, db)


def bcast(*ds):
    return np.broadcast_arrays(*ds)


def ew(f, *ds):
    """elementwise on term arrays with broadcasting"""
    bs = np.broadcast_arrays(*ds) if len(ds) > 1 else ds
    out = np.empty(bs[0].shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(*[b[()] for b in bs])
        return out
    fl = out.reshape(-1)
    its = [b.reshape(-1) for b in bs]
    for i in range(fl.size):
        fl[i] = f(*[x[i] for x in its])
    return out


def impl(*names):
    def deco(f):
        for n in names:
            IMPL[n] = f
        return f
    return deco


def binop(names, f, dtype=None, float_result=False):
    def g(a, b, *, alpha=None, out=None):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            raise Unsupported("operand")
        dt = dtype or result_dtype(a, b)
        if float_result and not dt.is_floating_point:
            dt = torch.get_default_dtype()
        A, B = to_sym(a), to_sym(b)
        bd = B._d
        if alpha is not None:
            al = lift(alpha)
            bd = ew(lambda y: T.mul(al, y), bd)
        r = ew(f, A._d, bd)
        if dtype is None:
            s = sort_of(dt)
            r = ew(lambda x: as_sort(x, s), r)
        return mk(r, dt)
    for n in names:
        IMPL[n] = g
    return g


def _tfloordiv(a, b):
    if a.sort in "IB" and b.sort in "IB":
        a, b = as_sort(a, "I"), as_sort(b, "I")
        if b.op == "c" and b.val > 0:
            return T.idiv(a, b)
        raise Unsupported("integer tensor division by symbolic")
    return T.toreal(T.floor(T.div(a, b)))


def _tmod(a, b):
    if a.sort in "IB" and b.sort in "IB":
        b = as_sort(b, "I")
        if b.op == "c" and b.val > 0:
            return T.imod(as_sort(a, "I"), b)
        raise Unsupported("integer tensor modulo")
    return T.sub(a, T.mul(b, T.toreal(T.floor(T.div(a, b)))))


binop(["add", "__add__", "__radd__"], T.add)
binop(["sub", "__sub__", "subtract"], T.sub)
binop(["rsub", "__rsub__"], lambda a, b: T.sub(b, a))
binop(["mul", "__mul__", "__rmul__", "multiply"], T.mul)
binop(["_div", "__truediv__", "true_divide", "__div__"], T.div, float_result=True)
binop(["__rtruediv__", "__rdiv__"], lambda a, b: T.div(b, a), float_result=True)
binop(["floor_divide", "__floordiv__"], _tfloordiv)
binop(["__rfloordiv__"], lambda a, b: _tfloordiv(b, a))
binop(["remainder", "__mod__"], _tmod)
binop(["pow", "__pow__", "float_power"], lambda a, b: power(a, b))
binop(["__rpow__"], lambda a, b: power(b, a))
binop(["maximum"], T.tmax)
binop(["minimum"], T.tmin)
binop(["fmod"], lambda a, b: T.sub(a, T.mul(b, T.toreal(T.trunc(T.div(a, b))))))
for _n, _f in (("lt", T.lt), ("le", T.le), ("gt", T.gt), ("ge", T.ge), ("eq", T.eq), ("ne", T.ne)):
    binop([_n, "__%s__" % _n], _f, dtype=torch.bool)


def _inf_cmp(name, base):
    """comparison with an infinite python constant"""
    def g(a, b, **k):
        if isinstance(b, float) and not is_sym(b) and math.isinf(b):
            v = {"lt": b > 0, "le": b > 0, "gt": b < 0, "ge": b < 0, "eq": False, "ne": True}[name]
            x = to_sym(a)
            return mk(ew(lambda y: T.boolean(v), x._d), torch.bool)
        return base(a, b, **k)
    return g


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    IMPL[_n] = IMPL["__%s__" % _n] = _inf_cmp(_n, IMPL[_n])
IMPL["less"] = IMPL["lt"]
IMPL["greater"] = IMPL["gt"]
IMPL["less_equal"] = IMPL["le"]
IMPL["greater_equal"] = IMPL["ge"]
IMPL["not_equal"] = IMPL["ne"]
binop(["logical_and", "__and__", "bitwise_and", "__rand__"], lambda a, b: T.and_(T.truth(a), T.truth(b)), dtype=torch.bool)
binop(["logical_or", "__or__", "bitwise_or", "__ror__"], lambda a, b: T.or_(T.truth(a), T.truth(b)), dtype=torch.bool)
binop(["logical_xor", "__xor__", "bitwise_xor"], lambda a, b: T.ne(T.b2i(T.truth(a)), T.b2i(T.truth(b))), dtype=torch.bool)


@impl("div", "divide")
def _div(a, b, *, rounding_mode=None, out=None):
    if rounding_mode is None:
        return IMPL["_div"](a, b)
    if rounding_mode == "floor":
        return IMPL["floor_divide"](a, b)
    r = IMPL["_div"](a, b)
    return mk(ew(lambda x: as_sort(T.trunc(x), "R"), r._d), r._dt)


def unop(names, f, dtype=None, keep_int=False):
    def g(x, *a, **k):
        x = to_sym(x)
        dt = x._dt
        if dtype is not None:
            dt = dtype
        elif not keep_int and not dt.is_floating_point:
            dt = torch.get_default_dtype()
        r = ew(f, x._d)
        s = sort_of(dt)
        return mk(ew(lambda y: as_sort(y, s), r), dt)
    for n in names:
        IMPL[n] = g


unop(["neg", "__neg__", "negative"], T.neg, keep_int=True)
unop(["abs", "__abs__", "absolute", "fabs"], lambda x: T.tabs(as_sort(x, "I") if x.sort == "B" else x), keep_int=True)
unop(["sign", "sgn"], T.sign, keep_int=True)
unop(["round"], lambda x: T.rnd(x), keep_int=True)
unop(["floor"], T.floor, keep_int=True)
unop(["ceil"], T.ceil, keep_int=True)
unop(["trunc", "fix"], T.trunc, keep_int=True)
unop(["exp"], lambda x: T.uf("exp", (T.toreal(x),)))
unop(["log"], lambda x: T.uf("log", (T.toreal(x),)))
unop(["log2"], lambda x: T.uf("log2", (T.toreal(x),)))
unop(["log10"], lambda x: T.uf("log10", (T.toreal(x),)))
unop(["sqrt"], lambda x: T.uf("sqrt", (T.toreal(x),)))
unop(["tanh"], lambda x: T.uf("tanh", (T.toreal(x),)))
unop(["sigmoid"], lambda x: T.uf("sigmoid", (T.toreal(x),)))
unop(["square"], lambda x: T.mul(x, x), keep_int=True)
unop(["reciprocal"], T.inv)
unop(["relu"], lambda x: T.tmax(x, T.const(0, x.sort)), keep_int=True)
unop(["logical_not", "__invert__", "bitwise_not"], lambda x: T.not_(T.truth(x)), dtype=torch.bool)
unop(["isnan", "isinf"], lambda x: T.FALSE, dtype=torch.bool)
unop(["isfinite"], lambda x: T.TRUE, dtype=torch.bool)


@impl("clamp", "clip")
def _clamp(x, min=None, max=None, *, out=None):
    x = to_sym(x)
    d = x._d

    def nolim(b):
        return b is None or (not is_sym(b) and not _is_tensor(b) and isinstance(b, float) and math.isinf(b))
    if not nolim(min):
        d = ew(lambda a, b: T.tmax(a, as_sort(b, a.sort) if b.sort != "R" else b), d, to_sym(min)._d)
    if not nolim(max):
        d = ew(lambda a, b: T.tmin(a, as_sort(b, a.sort) if b.sort != "R" else b), d, to_sym(max)._d)
    s = sort_of(x._dt)
    return mk(ew(lambda y: as_sort(y, s), d) if d is not x._d else d.copy(), x._dt)


IMPL["clamp_min"] = lambda x, min: _clamp(x, min=min)
IMPL["clamp_max"] = lambda x, max: _clamp(x, max=max)


@impl("where")
def _where(c, a=None, b=None):
    if a is None:
        return tuple(_nonzero(c).unbind(1))
    dt = result_dtype(a, b)
    s = sort_of(dt)
    return mk(ew(lambda c_, x, y: T.ite(T.truth(c_), as_sort(x, s), as_sort(y, s)),
                 to_sym(c)._d, to_sym(a)._d, to_sym(b)._d), dt)


@impl("nonzero")
def _nonzero(x, as_tuple=False):
    x = to_sym(x)
    idx = [i for i in np.ndindex(*x._d.shape) if E.decide(T.truth(x._d[i]))]
    r = torch.tensor(idx, dtype=torch.int64).reshape(len(idx), x._d.ndim)
    return tuple(r.unbind(1)) if as_tuple else r


@impl("masked_fill")
def _masked_fill(x, mask, value):
    x = to_sym(x)
    s = sort_of(x._dt)
    return mk(ew(lambda m, a, b: T.ite(T.truth(m), as_sort(b, s), a), to_sym(mask)._d, x._d, to_sym(value)._d), x._dt)


# ------------------------------------------------------------------ reductions
def _axes(x, dim):
    if dim is None or (isinstance(dim, (tuple, list)) and len(dim) == 0):
        return tuple(range(x._d.ndim))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(sorted(d % x._d.ndim if x._d.ndim else 0 for d in dim))


def reduce_(x, dim, keepdim, f):
    """f: list of terms -> term"""
    ax = _axes(x, dim)
    nd = x._d.ndim
    rest = [i for i in range(nd) if i not in ax]
    d = np.transpose(x._d, rest + list(ax)) if nd else x._d
    shp = tuple(x._d.shape[i] for i in rest)
    n = 1
    for i in ax:
        n *= x._d.shape[i] if nd else 1
    flat = np.empty((int(np.prod(shp)) if shp else 1, n), dtype=object)
    if d.size:
        flat[...] = d.reshape(flat.shape)
    out = np.empty(flat.shape[0], dtype=object)
    for i in range(flat.shape[0]):
        out[i] = f(list(flat[i]))
    out = out.reshape(shp)
    if keepdim and nd:
        out = out.reshape(tuple(1 if i in ax else x._d.shape[i] for i in range(nd)))
    return out


def _sum_terms(l):
    r = T.const(0, "R")
    if l and l[0].sort in "IB":
        r = T.I0
    for y in l:
        r = T.add(r, as_sort(y, "I") if y.sort == "B" else y)
    return r


@impl("sum")
def _sum(x, dim=None, keepdim=False, *, dtype=None, axis=None):
    x = to_sym(x)
    dim = axis if dim is None else dim
    dt = dtype or (x._dt if x._dt.is_floating_point else torch.int64)
    return mk(ew(lambda y: as_sort(y, sort_of(dt)), reduce_(x, dim, keepdim, _sum_terms)), dt)


@impl("mean")
def _mean(x, dim=None, keepdim=False, *, dtype=None, axis=None):
    x = to_sym(x)
    dim = axis if dim is None else dim
    n = 1
    for i in _axes(x, dim):
        n *= x._d.shape[i] if x._d.ndim else 1
    if n == 0:
        raise Unsupported("mean of empty")
    return mk(reduce_(x, dim, keepdim, lambda l: T.mul(T.div(T.real(1), T.real(n)), _sum_terms(l))), x._dt)


def _var_terms(l, corr):
    n = len(l)
    if n - corr <= 0:
        raise Unsupported("variance of too few elements")
    m = T.div(_sum_terms(l), T.real(n))
    s = T.real(0)
    for y in l:
        e = T.sub(y, m)
        s = T.add(s, T.mul(e, e))
    return T.div(s, T.real(n - corr))


def _corr(unbiased, correction):
    if correction is not None:
        return int(correction)
    return 1 if unbiased is None or unbiased else 0


@impl("var")
def _var(x, dim=None, unbiased=None, keepdim=False, *, correction=None):
    x = to_sym(x)
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    c = _corr(unbiased, correction)
    return mk(reduce_(x, dim, keepdim, lambda l: _var_terms(l, c)), x._dt)


@impl("std")
def _std(x, dim=None, unbiased=None, keepdim=False, *, correction=None):
    r = _var(x, dim, unbiased, keepdim, correction=correction)
    return mk(ew(lambda y: T.uf("sqrt", (y,)), r._d), r._dt)


@impl("norm")
def _norm(x, p="fro", dim=None, keepdim=False):
    x = to_sym(x)
    if p in ("fro", 2, 2.0):
        return mk(reduce_(x, dim, keepdim, lambda l: T.uf("sqrt", (_sum_terms([T.mul(y, y) for y in l]),))), x._dt)
    raise Unsupported("norm p")


def _fold(f):
    def g(l):
        if not l:
            raise RuntimeError("reduction of an empty tensor")
        r = l[0]
        for y in l[1:]:
            r = f(r, y)
        return r
    return g


def _argext(l, better):
    """index (term) of the first extreme element"""
    best, bi = l[0], T.I0
    for i, y in enumerate(l[1:], 1):
        c = better(y, best)
        best, bi = T.ite(c, y, best), T.ite(c, T.integer(i), bi)
    return bi


class _VI(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _minmax(f, better):
    def g(x, dim=None, keepdim=False, *, other=None, axis=None):
        x = to_sym(x)
        if _is_tensor(dim) or other is not None:
            o = other if other is not None else dim
            return IMPL["maximum" if f is T.tmax else "minimum"](x, o)
        if axis is not None:
            dim = axis
        if dim is None:
            return mk(reduce_(x, None, False, _fold(f)), x._dt)
        return _VI((mk(reduce_(x, dim, keepdim, _fold(f)), x._dt),
                    mk(reduce_(x, dim, keepdim, lambda l: _argext(l, better)), torch.int64)))
    return g


IMPL["max"] = _minmax(T.tmax, lambda y, b: T.lt(b, y))
IMPL["min"] = _minmax(T.tmin, lambda y, b: T.lt(y, b))


@impl("amax")
def _amax(x, dim=None, keepdim=False):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, _fold(T.tmax)), x._dt)


@impl("amin")
def _amin(x, dim=None, keepdim=False):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, _fold(T.tmin)), x._dt)


@impl("aminmax")
def _aminmax(x, *, dim=None, keepdim=False):
    return _VI((_amin(x, dim, keepdim), _amax(x, dim, keepdim)))


@impl("any")
def _any(x, dim=None, keepdim=False):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, lambda l: T.or_(*[T.truth(y) for y in l])), torch.bool)


@impl("all")
def _all(x, dim=None, keepdim=False):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, lambda l: T.and_(*[T.truth(y) for y in l])), torch.bool)


@impl("prod")
def _prod(x, dim=None, keepdim=False, *, dtype=None):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, _fold(T.mul)), x._dt)


@impl("count_nonzero")
def _cnz(x, dim=None):
    x = to_sym(x)
    return mk(reduce_(x, dim, False, lambda l: _sum_terms([T.b2i(T.truth(y)) for y in l])), torch.int64)


@impl("cumsum")
def _cumsum(x, dim, *, dtype=None):
    x = to_sym(x)
    d = np.moveaxis(x._d, dim, 0).copy()
    for i in range(1, d.shape[0]):
        d[i] = ew(T.add, np.asarray(d[i - 1], dtype=object), np.asarray(d[i], dtype=object))
    return mk(np.moveaxis(d, 0, dim), dtype or x._dt)


@impl("argmax")
def _argmax(x, dim=None, keepdim=False):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, lambda l: _argext(l, lambda y, b: T.lt(b, y))), torch.int64)


@impl("argmin")
def _argmin(x, dim=None, keepdim=False):
    x = to_sym(x)
    return mk(reduce_(x, dim, keepdim, lambda l: _argext(l, lambda y, b: T.lt(y, b))), torch.int64)


def _sorted_terms(l, descending=False):
    """sorting network (values only)"""
    l = list(l)
    n = len(l)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = l[j], l[j + 1]
            l[j], l[j + 1] = T.tmin(a, b), T.tmax(a, b)
    return l[::-1] if descending else l


@impl("sort")
def _sort(x, dim=-1, descending=False, stable=False):
    x = to_sym(x)
    d = np.moveaxis(x._d, dim, -1)
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape[:-1]):
        for j, v in enumerate(_sorted_terms(list(d[i]), descending)):
            out[i + (j,)] = v
    return _VI((mk(np.moveaxis(out, -1, dim), x._dt), None))


@impl("median")
def _median(x, dim=None, keepdim=False):
    x = to_sym(x)
    if dim is None:
        return mk(arr0(_sorted_terms(list(x._d.reshape(-1)))[(x._d.size - 1) // 2]), x._dt)
    return _VI((mk(reduce_(x, dim, keepdim, lambda l: _sorted_terms(l)[(len(l) - 1) // 2]), x._dt), None))


@impl("quantile")
def _quantile(x, q, dim=None, keepdim=False, *, interpolation="linear"):
    x = to_sym(x)
    if is_sym(q) or (_is_tensor(q) and isinstance(q, SymTensor) and not all(t.op == "c" for t in q._d.reshape(-1))):
        raise Unsupported("symbolic quantile")
    if _is_tensor(q) and q.numel() != 1:
        raise Unsupported("vector quantile")
    from fractions import Fraction
    qv = lift(q).val

    def f(l):
        s = _sorted_terms(l)
        pos = Fraction(qv) * (len(l) - 1)
        lo = int(pos)
        fr = pos - lo
        if fr == 0:
            return s[lo]
        return T.add(s[lo], T.mul(T.real(fr), T.sub(s[lo + 1], s[lo])))
    return mk(reduce_(x, dim, keepdim, f), x._dt)


# ------------------------------------------------------------------ linear algebra
def _mm2(a, b):
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%dx%d and %dx%d)" % (n, k, k2, m))
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = T.real(0)
            for q in range(k):
                s = T.add(s, T.mul(T.toreal(a[i, q]), T.toreal(b[q, j])))
            out[i, j] = s
    return out


@impl("matmul", "__matmul__", "mm", "mv", "bmm")
def _matmul(a, b, *, out=None):
    a, b = to_sym(a), to_sym(b)
    dt = torch.promote_types(a._dt, b._dt)
    x, y = a._d, b._d
    if x.ndim == 1 and y.ndim == 1:
        if x.shape != y.shape:
            raise RuntimeError("inconsistent tensor size")
        return mk(_mm2(x[None, :], y[:, None])[0, 0], dt)
    if x.ndim == 1:
        if y.ndim == 2:
            return mk(_mm2(x[None, :], y)[0], dt)
        x = x[None, :]
        r = _matmul(mk(x, a._dt), b)
        return mk(r._d[..., 0, :], dt)
    if y.ndim == 1:
        r = _matmul(a, mk(y[:, None], b._dt))
        return mk(r._d[..., 0], dt)
    bs = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    x = np.broadcast_to(x, bs + x.shape[-2:])
    y = np.broadcast_to(y, bs + y.shape[-2:])
    out = np.empty(bs + (x.shape[-2], y.shape[-1]), dtype=object)
    for i in np.ndindex(*bs):
        out[i] = _mm2(x[i], y[i])
    return mk(out, dt)


IMPL["__rmatmul__"] = lambda a, b: _matmul(b, a)


@impl("linear")
def _linear(x, w, b=None):
    r = _matmul(x, mk(np.swapaxes(to_sym(w)._d, -1, -2), to_sym(w)._dt))
    return r if b is None else IMPL["add"](r, b)


@impl("addmm")
def _addmm(c, a, b, *, beta=1, alpha=1):
    return IMPL["add"](IMPL["mul"](c, beta), IMPL["mul"](_matmul(a, b), alpha))


@impl("outer", "ger")
def _outer(a, b):
    a, b = to_sym(a), to_sym(b)
    return mk(_mm2(a._d[:, None], b._d[None, :]), a._dt)


@impl("dot")
def _dot(a, b):
    return _matmul(a, b)


@impl("einsum")
def _einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (tuple, list)):
        ops = ops[0]
    ops = [to_sym(o) for o in ops]
    lhs, _, rhs = eq.replace(" ", "").partition("->")
    ins = lhs.split(",")
    if "." in eq:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o._d.shape):
            dims[c] = n
    if not rhs and "->" not in eq:
        rhs = "".join(sorted(c for c in set(lhs) - {","} if lhs.count(c) == 1))
    summed = [c for c in dims if c not in rhs]
    out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    for oi in np.ndindex(*out.shape):
        env = dict(zip(rhs, oi))
        s = T.real(0)
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = T.real(1)
            for st, o in zip(ins, ops):
                p = T.mul(p, T.toreal(o._d[tuple(env[c] for c in st)]))
            s = T.add(s, p)
        out[oi] = s
    return mk(out, ops[0]._dt)


# ------------------------------------------------------------------ shape operations
def _shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list, torch.Size)):
        a = tuple(a[0])
    return tuple(int(x) for x in a)


@impl("view", "reshape", "_unsafe_view")
def _reshape(x, *shape, **kw):
    x = to_sym(x)
    if kw:
        shape = kw.get("shape", kw.get("size", shape))
        shape = (shape,) if not isinstance(shape, tuple) or (shape and not isinstance(shape[0], int)) else shape
    if len(shape) == 1 and isinstance(shape[0], torch.dtype):
        raise Unsupported("view as dtype")
    return mk(x._d.reshape(_shape_args(shape)), x._dt)


@impl("view_as", "reshape_as")
def _view_as(x, o):
    x = to_sym(x)
    return mk(x._d.reshape(tuple(o.shape)), x._dt)


@impl("flatten")
def _flatten(x, start_dim=0, end_dim=-1):
    x = to_sym(x)
    s = x._d.shape
    if not s:
        return mk(x._d.reshape(1), x._dt)
    a, b = start_dim % len(s), end_dim % len(s)
    return mk(x._d.reshape(s[:a] + (int(np.prod(s[a:b + 1])),) + s[b + 1:]), x._dt)


@impl("ravel")
def _ravel(x):
    return _flatten(x)


@impl("unflatten")
def _unflatten(x, dim, sizes):
    x = to_sym(x)
    s = x._d.shape
    dim %= len(s)
    return mk(x._d.reshape(s[:dim] + tuple(sizes) + s[dim + 1:]), x._dt)


@impl("transpose", "swapaxes", "swapdims")
def _transpose(x, a, b):
    x = to_sym(x)
    return mk(np.swapaxes(x._d, a, b), x._dt)


@impl("permute")
def _permute(x, *dims):
    x = to_sym(x)
    return mk(np.transpose(x._d, _shape_args(dims)), x._dt)


@impl("t")
def _t(x):
    x = to_sym(x)
    return mk(x._d.T, x._dt)


@impl("movedim", "moveaxis")
def _movedim(x, a, b):
    x = to_sym(x)
    return mk(np.moveaxis(x._d, a, b), x._dt)


@impl("unsqueeze")
def _unsqueeze(x, dim):
    x = to_sym(x)
    if dim < 0:
        dim += x._d.ndim + 1
    return mk(np.expand_dims(x._d, dim), x._dt)


@impl("squeeze")
def _squeeze(x, dim=None):
    x = to_sym(x)
    if dim is None:
        return mk(x._d.reshape(tuple(s for s in x._d.shape if s != 1)), x._dt)
    if isinstance(dim, int):
        dim = (dim,)
    dim = [d % max(x._d.ndim, 1) for d in dim]
    return mk(x._d.reshape(tuple(s for i, s in enumerate(x._d.shape) if i not in dim or s != 1)), x._dt)


@impl("expand")
def _expand(x, *shape):
    x = to_sym(x)
    shape = _shape_args(shape)
    off = len(shape) - x._d.ndim
    shape = tuple(x._d.shape[i - off] if s == -1 else s for i, s in enumerate(shape))
    return mk(np.broadcast_to(x._d, shape), x._dt)


@impl("expand_as", "broadcast_to")
def _expand_as(x, o):
    x = to_sym(x)
    return mk(np.broadcast_to(x._d, tuple(o.shape) if _is_tensor(o) else tuple(o)), x._dt)


@impl("repeat", "tile")
def _repeat(x, *r):
    x = to_sym(x)
    return mk(np.tile(x._d, _shape_args(r)), x._dt)


@impl("repeat_interleave")
def _rint(x, r, dim=None):
    x = to_sym(x)
    return mk(np.repeat(x._d, int(r), axis=dim), x._dt)


@impl("cat", "concat", "concatenate", "hstack_")
def _cat(ts, dim=0, *, axis=None, out=None):
    if axis is not None:
        dim = axis
    ts = [to_sym(t) for t in ts]
    dt = ts[0]._dt
    for t in ts[1:]:
        dt = torch.promote_types(dt, t._dt)
    ds = [t._d for t in ts if not (t._d.ndim == 1 and t._d.size == 0)] or [ts[0]._d]
    nd = ds[0].ndim
    for d in ds:
        if d.ndim != nd:
            raise RuntimeError("Tensors must have same number of dimensions")
        for i in range(nd):
            if i != dim % nd and d.shape[i] != ds[0].shape[i]:
                raise RuntimeError("Sizes of tensors must match except in dimension %d" % dim)
    s = sort_of(dt)
    r = np.concatenate(ds, axis=dim)
    return mk(ew(lambda y: as_sort(y, s), r) if r.size else r, dt)


@impl("stack")
def _stack(ts, dim=0, *, axis=None, out=None):
    ts = [to_sym(t) for t in ts]
    return mk(np.stack([t._d for t in ts], axis=dim if axis is None else axis), ts[0]._dt)


@impl("split", "split_with_sizes")
def _split(x, sz, dim=0):
    x = to_sym(x)
    n = x._d.shape[dim]
    if isinstance(sz, int):
        sz = [min(sz, n - i) for i in range(0, n, sz)]
    if sum(sz) != n:
        raise RuntimeError("split_with_sizes expects split_sizes to sum exactly to %d" % n)
    out, o = [], 0
    for s in sz:
        out.append(_narrow(x, dim, o, s))
        o += s
    return tuple(out)


@impl("narrow")
def _narrow(x, dim, start, length):
    x = to_sym(x)
    ix = [slice(None)] * x._d.ndim
    ix[dim] = slice(start, start + length)
    return mk(x._d[tuple(ix)], x._dt)


@impl("chunk")
def _chunk(x, n, dim=0):
    x = to_sym(x)
    s = x._d.shape[dim]
    return _split(x, -(-s // n), dim)


@impl("unbind")
def _unbind(x, dim=0):
    x = to_sym(x)
    d = np.moveaxis(x._d, dim, 0)
    return tuple(mk(d[i], x._dt) for i in range(d.shape[0]))


@impl("select")
def _select(x, dim, i):
    x = to_sym(x)
    return mk(np.moveaxis(x._d, dim, 0)[i], x._dt)


@impl("flip")
def _flip(x, *dims):
    x = to_sym(x)
    return mk(np.flip(x._d, _shape_args(dims)).copy(), x._dt)


@impl("roll")
def _roll(x, shifts, dims=None):
    x = to_sym(x)
    return mk(np.roll(x._d, shifts, dims), x._dt)


@impl("index_select")
def _index_select(x, dim, index):
    x = to_sym(x)
    return mk(np.take(x._d, conc_index(index), axis=dim), x._dt)


@impl("gather")
def _gather(x, dim, index):
    x = to_sym(x)
    return mk(np.take_along_axis(x._d, conc_index(index), dim), x._dt)


@impl("diag", "diagonal")
def _diag(x):
    x = to_sym(x)
    return mk(np.diagonal(x._d).copy(), x._dt)


@impl("meshgrid")
def _meshgrid(*a, **k):
    raise Unsupported("meshgrid")


@impl("pad")
def _pad(x, pad, mode="constant", value=0):
    x = to_sym(x)
    if mode != "constant":
        raise Unsupported("pad mode")
    pw = [(0, 0)] * x._d.ndim
    for i in range(len(pad) // 2):
        pw[x._d.ndim - 1 - i] = (int(pad[2 * i]), int(pad[2 * i + 1]))
    v = as_sort(lift(0 if value is None else value), sort_of(x._dt))
    out = np.empty(tuple(s + a + b for s, (a, b) in zip(x._d.shape, pw)), dtype=object)
    out.fill(v)
    out[tuple(slice(a, a + s) for s, (a, b) in zip(x._d.shape, pw))] = x._d
    return mk(out, x._dt)


def _pair(v):
    return (v, v) if isinstance(v, int) else tuple(v)


@impl("unfold")
def _unfold(x, *a, **k):
    x = to_sym(x)
    if "kernel_size" in k or (x._d.ndim in (3, 4) and len(a) != 3):
        ks = _pair(a[0] if a else k["kernel_size"])
        dl = _pair(k.get("dilation", a[1] if len(a) > 1 else 1))
        pd = _pair(k.get("padding", a[2] if len(a) > 2 else 0))
        st = _pair(k.get("stride", a[3] if len(a) > 3 else 1))
        d = x._d
        unb = d.ndim == 3
        if unb:
            d = d[None]
        p = _pad(mk(d, x._dt), (pd[1], pd[1], pd[0], pd[0]))._d
        B, C, H, W = p.shape
        oh = (H - dl[0] * (ks[0] - 1) - 1) // st[0] + 1
        ow = (W - dl[1] * (ks[1] - 1) - 1) // st[1] + 1
        if oh < 1 or ow < 1:
            raise RuntimeError("unfold output too small")
        out = np.empty((B, C * ks[0] * ks[1], oh * ow), dtype=object)
        for c in range(C):
            for i in range(ks[0]):
                for j in range(ks[1]):
                    for y in range(oh):
                        for z in range(ow):
                            out[:, (c * ks[0] + i) * ks[1] + j, y * ow + z] = \
                                p[:, c, y * st[0] + i * dl[0], z * st[1] + j * dl[1]]
        return mk(out[0] if unb else out, x._dt)
    dim, size, step = (list(a) + [None] * 3)[:3]
    dim = k.get("dimension", dim)
    size = k.get("size", size)
    step = k.get("step", step)
    dim %= x._d.ndim
    n = (x._d.shape[dim] - size) // step + 1
    parts = [np.moveaxis(np.take(x._d, range(i * step, i * step + size), axis=dim), dim, -1) for i in range(n)]
    return mk(np.stack(parts, axis=dim), x._dt)


def _conv_nd(nd):
    def g(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
        x, w = to_sym(x), to_sym(w)
        tup = lambda v: (v,) * nd if isinstance(v, int) else tuple(v)
        st, pd, dl = tup(stride), tup(padding), tup(dilation)
        d = x._d
        unb = d.ndim == nd + 1
        if unb:
            d = d[None]
        padl = []
        for p in reversed(pd):
            padl += [p, p]
        d = _pad(mk(d, x._dt), padl)._d
        B, C = d.shape[:2]
        O, Ci = w._d.shape[:2]
        ks = w._d.shape[2:]
        osz = tuple((d.shape[2 + i] - dl[i] * (ks[i] - 1) - 1) // st[i] + 1 for i in range(nd))
        out = np.empty((B, O) + osz, dtype=object)
        og = O // groups
        for b in range(B):
            for o in range(O):
                g0 = o // og
                for pos in np.ndindex(*osz):
                    s = T.real(0) if bias is None else to_sym(bias)._d[o]
                    for c in range(Ci):
                        for kk in np.ndindex(*ks):
                            ii = tuple(pos[i] * st[i] + kk[i] * dl[i] for i in range(nd))
                            s = T.add(s, T.mul(w._d[(o, c) + kk], d[(b, g0 * Ci + c) + ii]))
                    out[(b, o) + pos] = s
        return mk(out[0] if unb else out, x._dt)
    return g


for _i in (1, 2, 3):
    IMPL["conv%dd" % _i] = _conv_nd(_i)


# ------------------------------------------------------------------ indexing
def conc_index(ix):
    if isinstance(ix, SymTensor):
        flat = [t for t in ix._d.reshape(-1)]
        if not all(t.op == "c" for t in flat):
            raise Unsupported("symbolic index tensor")
        return np.array([int(t.val) for t in flat], dtype=np.int64).reshape(ix._d.shape)
    if isinstance(ix, torch.Tensor):
        with _DIS():
            return ix.detach().cpu().numpy()
    return np.asarray(ix)


def _norm_index(x, idx):
    """returns numpy-ready index (symbolic masks are concretised by forking)"""
    if isinstance(idx, list) and idx and all(isinstance(i, torch.Tensor) or hasattr(i, "_d") for i in idx):
        idx = tuple(idx)
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    for i in idx:
        if isinstance(i, SymTensor) and i._dt == torch.bool:
            m = np.empty(i._d.shape, dtype=bool)
            for j in np.ndindex(*i._d.shape):
                m[j] = E.decide(i._d[j])
            out.append(m)
        elif isinstance(i, SymTensor) or isinstance(i, torch.Tensor):
            a = conc_index(i)
            out.append(a if a.dtype == bool else (int(a) if a.ndim == 0 else a))
        elif is_sym(i):
            raise Unsupported("symbolic index")
        elif isinstance(i, list):
            out.append(np.array([int(y) if not isinstance(y, bool) else y for y in i]) if i else np.array([], dtype=np.int64))
        else:
            out.append(i)
    return tuple(out)


def getitem(x, idx):
    r = x._d[_norm_index(x, idx)]
    return mk(r if isinstance(r, np.ndarray) else arr0(r), x._dt)


def setitem(x, idx, v):
    s = sort_of(x._dt)
    V = to_sym(v)._d
    V = ew(lambda y: as_sort(y, s), V) if V.size else V
    if isinstance(idx, SymTensor) and idx._dt == torch.bool:
        if V.size == 1:
            # masked scalar write: no fork needed
            m = idx._d
            while m.ndim < x._d.ndim:
                m = m[..., None]
            x._d[...] = ew(lambda c, a, b: T.ite(c, b, a), m, x._d, V.reshape(()))
            return
    x._d[_norm_index(x, idx)] = V if V.ndim else V[()]


IMPL["__getitem__"] = lambda x, i: getitem(to_sym(x), i)


@impl("__setitem__")
def _setitem(x, i, v):
    if not isinstance(x, SymTensor):
        if isinstance(i, SymTensor):
            raise Unsupported("symbolic index into a concrete tensor")
        if promote_inplace(x, to_sym(v)):
            pass
        raise Unsupported("symbolic write into a concrete tensor")
    setitem(x, i, v)


def promote_inplace(x, v):
    return False


# ------------------------------------------------------------------ copies and conversion
def conv(x, dtype):
    x = to_sym(x)
    if dtype is None or dtype == x._dt:
        return x
    s = sort_of(dtype)
    if s == sort_of(x._dt):
        return mk(x._d, dtype)
    return mk(ew(lambda y: as_sort(y, s), x._d), dtype)


@impl("clone")
def _clone(x, **k):
    x = to_sym(x)
    return mk(x._d.copy(), x._dt)


@impl("detach", "cpu", "contiguous", "cuda", "requires_grad_", "detach_", "alias", "view_copy", "pin_memory", "retain_grad")
def _same(x, *a, **k):
    return to_sym(x)


def _detach(x, *a, **k):
    return mk(x._d, x._dt)


IMPL["detach"] = lambda x: mk(to_sym(x)._d, to_sym(x)._dt)


@impl("requires_grad_")
def _rg(x, v=True):
    x._rg = v
    return x


@impl("to", "type")
def _to(x, *a, **k):
    dt = k.get("dtype")
    for y in a:
        if isinstance(y, torch.dtype):
            dt = y
        elif isinstance(y, torch.Tensor):
            dt = y.dtype
    r = conv(x, dt)
    if k.get("copy"):
        r = _clone(r)
    return r


@impl("type_as")
def _type_as(x, o):
    return conv(x, o.dtype)


for _n, _d in (("float", torch.float32), ("double", torch.float64), ("half", torch.float16), ("bfloat16", torch.bfloat16),
               ("int", torch.int32), ("long", torch.int64), ("bool", torch.bool), ("short", torch.int16)):
    IMPL[_n] = (lambda d: lambda x, *a, **k: conv(x, d))(_d)


@impl("copy_")
def _copy_(x, src, non_blocking=False):
    if not isinstance(x, SymTensor):
        raise Unsupported("copy_ of symbolic values into a concrete tensor")
    s = sort_of(x._dt)
    v = to_sym(src)._d
    x._d[...] = ew(lambda y: as_sort(y, s), np.broadcast_to(v, x._d.shape)) if x._d.ndim else as_sort(v.reshape(-1)[0], s)
    return x


@impl("fill_")
def _fill_(x, v):
    x._d[...] = as_sort(lift(v), sort_of(x._dt))
    return x


IMPL["zero_"] = lambda x: _fill_(x, 0)


@impl("set_")
def _set_(x, src):
    src = to_sym(src)
    x._d, x._dt = src._d, src._dt
    return x


@impl("lerp")
def _lerp(a, b, w):
    return IMPL["add"](a, IMPL["mul"](w, IMPL["sub"](b, a)))


@impl("addcmul")
def _addcmul(a, b, c, *, value=1):
    return IMPL["add"](a, IMPL["mul"](IMPL["mul"](b, c), value))


@impl("addcdiv")
def _addcdiv(a, b, c, *, value=1):
    return IMPL["add"](a, IMPL["mul"](IMPL["_div"](b, c), value))


@impl("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    c = ew(lambda x, y: T.le(T.tabs(T.sub(x, y)), T.add(T.real(atol), T.mul(T.real(rtol), T.tabs(y)))), to_sym(a)._d, to_sym(b)._d)
    return E.decide(T.and_(*list(c.reshape(-1))))


@impl("equal")
def _equal(a, b):
    a, b = to_sym(a), to_sym(b)
    if a._d.shape != b._d.shape:
        return False
    return E.decide(T.and_(*[T.eq(x, y) for x, y in zip(a._d.reshape(-1), b._d.reshape(-1))]))


@impl("dropout")
def _dropout(x, p=0.5, training=True, inplace=False):
    if not training or p == 0.0:
        return to_sym(x)
    raise Unsupported("dropout")


# ------------------------------------------------------------------ metadata on mixed calls
IMPL["dim"] = lambda x: to_sym(x)._d.ndim
IMPL["numel"] = lambda x: to_sym(x)._d.size
IMPL["size"] = lambda x, d=None: x.size(d)
IMPL["is_floating_point"] = lambda x: x._dt.is_floating_point
IMPL["is_complex"] = lambda x: False
IMPL["is_contiguous"] = lambda x, **k: True
IMPL["get_device"] = lambda x: -1
IMPL["item"] = lambda x: x.item()
IMPL["tolist"] = lambda x: x.tolist()
IMPL["element_size"] = lambda x: 4
IMPL["as_subclass"] = lambda x, cls: x
IMPL["result_type"] = result_dtype
IMPL["is_nonzero"] = lambda x: bool(x)
IMPL["backward"] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("autograd"))
IMPL["register_hook"] = lambda x, h: None


# ------------------------------------------------------------------ random
def _draw_like(shape, kind, dtype):
    d = np.empty(tuple(shape), dtype=object)
    if d.ndim == 0:
        d[()] = E.fresh_draw(kind)
    else:
        f = d.reshape(-1)
        for i in range(f.size):
            f[i] = E.fresh_draw(kind)
    return mk(d, dtype)


def _shape_from(a, k):
    if "size" in k:
        a = (k["size"],)
    return _shape_args(a)


def _affine(shape, kind, dtype, scale, shift):
    u = _draw_like(shape, kind, dtype)
    return IMPL["add"](IMPL["mul"](u, scale), shift)


@impl("randn_like")
def _randn_like(x, dtype=None, **k):
    return _draw_like(x.shape, "normal", dtype or x.dtype)


@impl("rand_like")
def _rand_like(x, dtype=None, **k):
    return _draw_like(x.shape, "uniform", dtype or x.dtype)


@impl("normal_")
def _normal_(tensor, mean=0.0, std=1.0, *, generator=None):
    x = tensor
    return _copy_(x, _affine(x.shape, "normal", x._dt, std, mean))


@impl("kaiming_uniform_")
def _kaiming(tensor, a=0, mode="fan_in", nonlinearity="leaky_relu", generator=None):
    n = 1
    for k in tensor.shape[1:]:
        n *= k
    bound = math.sqrt(3.0) * math.sqrt(2.0 / (1 + a ** 2)) / math.sqrt(n)
    return _uniform_(tensor, -bound, bound)


@impl("uniform_")
def _uniform_(tensor, a=0.0, b=1.0, *, generator=None):
    x = tensor
    return _copy_(x, _affine(x.shape, "uniform", x._dt, wrap(T.sub(lift(b), lift(a))), a))


@impl("normal")
def _normal(mean=0.0, std=1.0, size=None, **k):
    if size is not None:
        return _affine(_shape_args((size,)), "normal", torch.get_default_dtype(), std, mean)
    m, s = to_sym(mean), to_sym(std)
    shp = np.broadcast_shapes(m._d.shape, s._d.shape)
    return IMPL["add"](IMPL["mul"](_draw_like(shp, "normal", torch.get_default_dtype()), s), m)


@impl("bernoulli")
def _bernoulli(x, p=None, *, generator=None):
    x = to_sym(x)
    pr = x._d if p is None else np.broadcast_to(to_sym(p)._d, x._d.shape)
    u = _draw_like(x._d.shape, "uniform", torch.float32)
    return mk(ew(lambda a, b: T.toreal(T.lt(a, b)), u._d, pr), x._dt)


def f_zeros(*a, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    return mk(full(_shape_from(a, k), T.const(0, sort_of(dt)) if sort_of(dt) != "B" else T.FALSE), dt)


def f_ones(*a, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    return mk(full(_shape_from(a, k), T.const(1, sort_of(dt)) if sort_of(dt) != "B" else T.TRUE), dt)


def f_empty(*a, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    s = sort_of(dt)
    d = full(_shape_from(a, k), T.const(0, s))
    for i in np.ndindex(*d.shape):
        d[i] = E.fresh("uninit", s)
    return mk(d, dt)


def f_full(size, fill_value, dtype=None, **k):
    t = lift(fill_value)
    dt = dtype or {"R": torch.get_default_dtype(), "I": torch.int64, "B": torch.bool}[t.sort]
    return mk(full(_shape_args((size,)), as_sort(t, sort_of(dt))), dt)


def f_tensor(data, dtype=None, **k):
    if isinstance(data, torch.Tensor):
        return conv(_clone(data), dtype)

    def go(x):
        if isinstance(x, (list, tuple)):
            return [go(y) for y in x]
        if hasattr(x, "_d"):
            return go(x.tolist()) if x._d.ndim else x._d[()]
        if isinstance(x, np.ndarray):
            return go(x.tolist())
        return lift(x)
    nested = go(data)

    def shape(n):
        return (len(n),) + (shape(n[0]) if n else ()) if isinstance(n, list) else ()
    shp = shape(nested)
    d = np.empty(shp, dtype=object)

    def put(n, i):
        if isinstance(n, list):
            for j, y in enumerate(n):
                put(y, i + (j,))
        else:
            d[i] = n
    put(nested, ())
    sorts = {t.sort for t in d.reshape(-1)}
    if dtype is None:
        dtype = torch.get_default_dtype() if "R" in sorts or not sorts else torch.int64 if "I" in sorts else torch.bool
    s = sort_of(dtype)
    return mk(ew(lambda y: as_sort(y, s), d) if d.size else d, dtype)


def f_arange(*a, dtype=None, **k):
    if any(is_sym(x) for x in a):
        raise Unsupported("symbolic arange")
    with _DIS():
        return to_sym(_orig["arange"](*a, dtype=dtype))


def f_eye(n, m=None, dtype=None, **k):
    with _DIS():
        return to_sym(_orig["eye"](n, m if m is not None else n, dtype=dtype))


def f_linspace(a, b, n, dtype=None, **k):
    A, B = lift(a), lift(b)
    d = np.empty(n, dtype=object)
    for i in range(n):
        d[i] = T.add(T.toreal(A), T.mul(T.real(0) if n == 1 else T.div(T.real(i), T.real(n - 1)), T.sub(B, A)))
    return mk(d, dtype or torch.get_default_dtype())


def f_randn(*a, dtype=None, **k):
    return _draw_like(_shape_from(a, k), "normal", dtype or torch.get_default_dtype())


def f_rand(*a, dtype=None, **k):
    return _draw_like(_shape_from(a, k), "uniform", dtype or torch.get_default_dtype())


def f_from_numpy(a):
    return to_sym(a)


IMPL["zeros_like"] = lambda x, dtype=None, **k: f_zeros(tuple(x.shape), dtype=dtype or x.dtype)
IMPL["ones_like"] = lambda x, dtype=None, **k: f_ones(tuple(x.shape), dtype=dtype or x.dtype)
IMPL["empty_like"] = lambda x, dtype=None, **k: f_empty(tuple(x.shape), dtype=dtype or x.dtype)
IMPL["full_like"] = lambda x, v, dtype=None, **k: f_full(tuple(x.shape), v, dtype=dtype or x.dtype)
IMPL["new_zeros"] = lambda x, *a, dtype=None, **k: f_zeros(*a, dtype=dtype or x.dtype, **k)
IMPL["new_ones"] = lambda x, *a, dtype=None, **k: f_ones(*a, dtype=dtype or x.dtype, **k)
IMPL["new"] = lambda x, *a, **k: f_empty(*a, dtype=x.dtype)
IMPL["new_empty"] = lambda x, *a, dtype=None, **k: f_empty(*a, dtype=dtype or x.dtype, **k)
IMPL["new_full"] = lambda x, s, v, dtype=None, **k: f_full(s, v, dtype=dtype or x.dtype)
IMPL["new_tensor"] = lambda x, d, dtype=None, **k: f_tensor(d, dtype=dtype or x.dtype)

FACTORIES = dict(zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full, tensor=f_tensor, as_tensor=lambda d, dtype=None, **k:
                 conv(d, dtype) if isinstance(d, torch.Tensor) else f_tensor(d, dtype=dtype),
                 arange=f_arange, eye=f_eye, linspace=f_linspace, randn=f_randn, rand=f_rand, from_numpy=f_from_numpy,
                 zeros_like=IMPL["zeros_like"], ones_like=IMPL["ones_like"], empty_like=IMPL["empty_like"],
                 full_like=IMPL["full_like"], randn_like=_randn_like, rand_like=_rand_like, normal=_normal)
_orig = {}


# ------------------------------------------------------------------ dispatch
class _Ctx:
    depth = 0


@impl("_has_compatible_shallow_copy_type")
def _shallow(a, b):
    return True


def dispatch(func, args, kwargs):
    name = getattr(func, "__name__", None) or str(func)
    if name == "__get__":
        prop = func.__self__.__name__
        x = to_sym(args[0])
        if prop in ("data", "shape", "dtype", "device", "requires_grad", "is_cuda", "grad", "ndim", "T", "mT",
                    "is_leaf", "layout", "grad_fn", "is_sparse"):
            return getattr(SymTensor, prop).__get__(x)
        if prop in ("is_quantized", "is_meta", "is_mkldnn", "is_xpu", "is_mps", "is_nested", "is_complex"):
            return False
        if prop in ("names",):
            return (None,) * x._d.ndim
        if prop == "H":
            return SymTensor.T.__get__(x)
        if prop == "_version":
            return 0
        raise Unsupported("property %s" % prop)
    if name == "__set__":
        prop = func.__self__.__name__
        if not isinstance(args[0], SymTensor):
            if prop == "data":
                raise Unsupported("symbolic .data of a concrete tensor")
        return getattr(SymTensor, prop).__set__(args[0], args[1])
    f = IMPL.get(name)
    if f is not None:
        kwargs.pop("non_blocking", None) if name in ("to", "copy_", "cpu", "cuda") else None
        return f(*args, **kwargs)
    base = None
    if name.startswith("__i") and name.endswith("__") and "__" + name[3:] in IMPL:
        base = "__" + name[3:]
    elif name.endswith("_") and not name.endswith("__") and name[:-1] in IMPL:
        base = name[:-1]
    if base is not None:
        x = args[0]
        if not isinstance(x, SymTensor):
            if is_sym(x):
                return IMPL[base](*args, **kwargs)
            raise Unsupported("in-place %s on a concrete tensor" % name)
        r = IMPL[base](*args, **kwargs)
        if base in ("unsqueeze", "squeeze", "t", "transpose"):
            x._d = r._d
            return x
        if np.broadcast_shapes(r._d.shape, x._d.shape) != x._d.shape:
            raise RuntimeError("output with shape %s doesn't match the broadcast shape" % (x._d.shape,))
        return _copy_(x, r)
    raise Unsupported("torch function %s" % name)


def _replay(kind, shape, dtype):
    """next values of a recorded draw sequence as a real tensor (None: not replaying)"""
    q = E.replay
    if q is None:
        return None
    n = int(np.prod(shape)) if len(shape) else 1
    vals = []
    for _ in range(n):
        if not q:
            return None
        vals.append(q.pop(0)[1])
    return _orig["tensor"](vals, dtype=dtype or torch.get_default_dtype()).reshape(tuple(shape))


_RAND = {"randn": "normal", "rand": "uniform", "randn_like": "normal", "rand_like": "uniform", "normal": "normal"}


def install():
    """wrap torch's tensor factories; must run before the project is imported"""
    if _orig:
        return

    def wrapf(name, f):
        o = getattr(torch, name)
        _orig[name] = o

        def g(*a, **k):
            if E.active:
                k.pop("out", None)
                for d in ("device", "requires_grad", "layout", "pin_memory", "generator", "memory_format"):
                    k.pop(d, None)
                return f(*a, **k)
            if E.replay is not None and name in _RAND:
                dt = k.get("dtype")
                if name.endswith("_like"):
                    r = _replay(_RAND[name], a[0].shape, dt or a[0].dtype)
                elif name == "normal":
                    m, s = (list(a) + [k.get("mean", 0.0), k.get("std", 1.0)])[:2] if len(a) < 2 else a[:2]
                    shp = a[2] if len(a) > 2 else k.get("size")
                    if shp is None:
                        shp = torch.broadcast_shapes(getattr(m, "shape", ()), getattr(s, "shape", ()))
                    r = _replay("normal", shp, dt)
                    r = None if r is None else r * s + m
                else:
                    r = _replay(_RAND[name], _shape_from(a, {x: y for x, y in k.items() if x == "size"}), dt)
                if r is not None:
                    return r
            return o(*a, **k)
        g.__name__ = name
        setattr(torch, name, g)
    for n, f in FACTORIES.items():
        wrapf(n, f)

    def wrapm(name):
        o = getattr(torch.Tensor, name)

        def g(self, *a, **k):
            if isinstance(self, SymTensor) or any(isinstance(x, SymTensor) or is_sym(x) for x in a) or \
                    any(isinstance(x, SymTensor) or is_sym(x) for x in k.values()):
                return dispatch(o, (self,) + a, k)
            if E.active:
                raise Unsupported("%s on a concrete tensor" % name)
            if E.replay is not None:
                k.pop("generator", None)
                if name == "bernoulli_":
                    p = a[0] if a else k.get("p", 0.5)
                    r = _replay("uniform", self.shape, self.dtype)
                    r = None if r is None else (r < p).to(self.dtype)
                else:
                    kind = "normal" if name == "normal_" else "uniform"
                    p0 = a[0] if a else k.get("mean", k.get("from", 0.0))
                    p1 = a[1] if len(a) > 1 else k.get("std", k.get("to", 1.0))
                    r = _replay(kind, self.shape, self.dtype)
                    if r is not None:
                        r = r * p1 + p0 if kind == "normal" else r * (p1 - p0) + p0
                if r is not None:
                    return self.copy_(r)
            return o(self, *a, **k)
        g.__name__ = name
        setattr(torch.Tensor, name, g)
    for n in ("normal_", "uniform_", "bernoulli_"):
        wrapm(n)
