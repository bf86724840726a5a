"""Symbolic scalars and path exploration.

The functions under contract are executed by CPython itself; every branch on a
symbolic condition is a fork, and the function is executed again until all
feasible paths have been enumerated.  The conditions collected along a path are
the hypotheses of the obligations raised on that path.
"""
import math
import numbers
import time
from fractions import Fraction

from vc import term as T
from vc import solver as S


class Unsupported(Exception):
    """The code left the fragment the engine gives a meaning to."""


class Infeasible(Exception):
    """assume(False) on this path."""


class PathLimit(Exception):
    pass


class Engine:
    def __init__(self):
        self.active = False
        self.replay = None
        self.reset_path([])
        self.max_paths = 4000
        self.branch_timeout = 2000

    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []         # decisions taken (value, forced)
        self.pc = []
        self.pcset = {}
        self.draws = []
        self.redraw = []
        self.counter = 0
        self.names = {}

    # hypotheses
    def assume(self, t):
        if t is T.TRUE:
            return
        d = S.decide_const(t)
        if d is True:
            return
        if d is False or self.pcset.get(t.id) is False or (t.op == "not" and self.pcset.get(t.args[0].id) is True):
            raise Infeasible()
        self._push(t)

    def _push(self, t):
        for x in (t.args if t.op == "and" else (t,)):
            self.pc.append(x)
            self.pcset[x.id] = True
            if x.op == "not":
                self.pcset[x.args[0].id] = False

    def decide(self, t):
        d = S.decide_const(t)
        if d is not None:
            return d
        k = self.pcset.get(t.id)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, True))
            self._push(t if v else T.not_(t))
            return v
        rel = S._relevant(self.pc, t)
        st, _ = S.check_sat(rel + [t], self.branch_timeout, want_model=False)
        can_t = st != "unsat"
        can_f = True
        if can_t:
            sf, _ = S.check_sat(rel + [T.not_(t)], self.branch_timeout, want_model=False)
            can_f = sf != "unsat"
        v = can_t
        self.trace.append((v, not (can_t and can_f)))
        self._push(t if v else T.not_(t))
        return v

    def fresh_draw(self, kind):
        if self.redraw:
            k, v = self.redraw.pop(0)
            if k != kind:
                raise Unsupported("draws of different kinds when repeating")
            self.draws.append((k, v))
            return v
        n = len(self.draws)
        v = T.var("draw%d_%s" % (n, kind))
        self.draws.append((kind, v))
        if kind == "uniform":
            self._push(T.le(T.real(0), v))
            self._push(T.lt(v, T.real(1)))
        elif kind == "uniform1":
            self._push(T.le(T.real(0), v))
            self._push(T.le(v, T.real(1)))
        return v

    def fresh(self, prefix, sort="R"):
        n = self.names.get(prefix, 0)
        self.names[prefix] = n + 1
        return T.var("%s#%d" % (prefix, n), sort)


E = Engine()


def explore(fn, on_path, max_paths=None, deadline=None):
    """Run fn() along every feasible path; on_path(exc) after each."""
    limit = max_paths or E.max_paths
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > limit:
            raise PathLimit("more than %d paths" % limit)
        if deadline and n > 1 and time.time() > deadline:
            raise PathLimit("time limit after %d paths" % (n - 1))
        E.reset_path(prefix)
        E.active = True
        exc = None
        try:
            fn()
        except Infeasible:
            exc = "infeasible"
        except Unsupported:
            raise
        except Exception as e:  # an exception raised by the code on this path
            exc = e
        finally:
            E.active = False
        for i in range(len(prefix), len(E.trace)):
            v, forced = E.trace[i]
            if not forced:
                work.append([x for x, _ in E.trace[:i]] + [not v])
        on_path(exc)
    return n


def lift(x, want=None):
    """python / symbolic scalar -> Term"""
    t = type(x)
    if t is SymReal or t is SymInt or t is SymBool:
        return x.t
    if isinstance(x, T.Term):
        return x
    if t is bool:
        return T.boolean(x)
    if t is int:
        return T.integer(x)
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant %r" % x)
        return T.real(x)
    if t is Fraction:
        return T.real(x)
    if hasattr(x, "_d"):
        if x._d.size == 1:
            return x._d.reshape(-1)[0]
        raise Unsupported("tensor where scalar expected")  # noqa
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return T.boolean(bool(x))
        if isinstance(x, np.integer):
            return T.integer(int(x))
        if isinstance(x, np.floating):
            return lift(float(x))
    except ImportError:
        pass
    if isinstance(x, numbers.Number):
        return T.real(float(x))
    import torch
    if isinstance(x, torch.Tensor) and x.numel() == 1:
        v = x.item()
        return lift(v)
    raise Unsupported("cannot lift %r" % (type(x),))


def wrap(t):
    if t.op == "c":
        if t.sort == "B":
            return bool(t.val)
        if t.sort == "I":
            return int(t.val)
        if t.sort == "R":
            f = float(t.val)
            if Fraction(repr(f)) == t.val:
                return f
            return SymReal(t)
    return {"R": SymReal, "I": SymInt, "B": SymBool}[t.sort](t)


def _scalar_ok(o):
    return isinstance(o, (int, float, bool, SymReal, SymInt, SymBool, Fraction)) or type(o).__module__ == "numpy" and getattr(o, "ndim", 1) == 0


def _bin(f, rev=False):
    def m(self, o):
        if not _scalar_ok(o):
            return NotImplemented
        a, b = self.t, lift(o)
        if rev:
            a, b = b, a
        return wrap(f(a, b))
    return m


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        return _idiv_checked(a, b)
    return T.toreal(T.floor(T.div(a, b)))


def pymod(a, b):
    if a.sort in "IB" and b.sort in "IB":
        a, b = _int(a), _int(b)
        if b.op == "c" and b.val > 0:
            return T.imod(a, b)
        if E.decide(T.lt(T.I0, b)):
            return T.imod(a, b)
        raise Unsupported("modulo by non-positive")
    # float modulo: a - b*floor(a/b) for python semantics
    return T.sub(a, T.mul(b, T.toreal(T.floor(T.div(a, b)))))


def _int(a):
    return T.b2i(a) if a.sort == "B" else a


def _idiv_checked(a, b):
    a, b = _int(a), _int(b)
    if b.op == "c" and b.val > 0:
        return T.idiv(a, b)
    if b.op == "c" and b.val == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if E.decide(T.lt(T.I0, b)):
        return T.idiv(a, b)
    if E.decide(T.eq(b, T.I0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    return T.idiv(T.neg(a), T.neg(b))


def truediv(a, b):
    b_ = T.toreal(b)
    if not (b_.op == "c" and b_.val != 0):
        # python raises on scalar division by zero
        if E.active and E.decide(T.eq(b_, T.real(0))):
            raise ZeroDivisionError("float division by zero")
    return T.div(a, b)


def power(a, b):
    if a.sort != "R" and b.op == "c" and b.sort == "I" and b.val >= 0:
        r = T.I1
        for _ in range(b.val):
            r = T.mul(r, a)
        return r
    if b.op == "c" and b.val == 2:
        a = T.toreal(a)
        return T.mul(a, a)
    if b.sort == "I" and b.op != "c" and a.op == "c" and a.val == 2 and a.sort == "I":
        return T.uf("pow2", (b,), "I")
    return T.uf("pow", (T.toreal(a), T.toreal(b)))


class _Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__ = _bin(T.add)
    __radd__ = _bin(T.add, True)
    __sub__ = _bin(T.sub)
    __rsub__ = _bin(T.sub, True)
    __mul__ = _bin(T.mul)
    __rmul__ = _bin(T.mul, True)
    __truediv__ = _bin(truediv)
    __rtruediv__ = _bin(truediv, True)
    __floordiv__ = _bin(floordiv)
    __rfloordiv__ = _bin(floordiv, True)
    __mod__ = _bin(pymod)
    __rmod__ = _bin(pymod, True)
    __pow__ = _bin(power)
    __rpow__ = _bin(power, True)
    __lt__ = _bin(T.lt)
    __le__ = _bin(T.le)
    __gt__ = _bin(T.gt)
    __ge__ = _bin(T.ge)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return wrap(lift(o)) // self, wrap(pymod(lift(o), self.t))

    def __eq__(self, o):
        if o is self:
            return True
        if not _scalar_ok(o):
            return NotImplemented
        return wrap(T.eq(self.t, lift(o)))

    def __ne__(self, o):
        if not _scalar_ok(o):
            return NotImplemented
        return wrap(T.ne(self.t, lift(o)))

    def __hash__(self):
        return self.t.id

    def __neg__(self):
        return wrap(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(T.tabs(self.t))

    def __bool__(self):
        return E.decide(T.truth(self.t))

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        raise Unsupported("symbolic value used as an index")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<%s>" % T.show(self.t)

    def __format__(self, spec):
        return repr(self)

    def __floor__(self):
        return wrap(T.floor(T.toreal(self.t)))

    def __ceil__(self):
        return wrap(T.ceil(T.toreal(self.t)))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return wrap(T.rnd(self.t))

    def __trunc__(self):
        return wrap(T.trunc(self.t))

    def sqrt(self):
        return wrap(T.uf("sqrt", (T.toreal(self.t),)))

    def log(self):
        return wrap(T.uf("log", (T.toreal(self.t),)))

    def exp(self):
        return wrap(T.uf("exp", (T.toreal(self.t),)))

    def tanh(self):
        return wrap(T.uf("tanh", (T.toreal(self.t),)))

    def conjugate(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return wrap(T.eq(T.toreal(T.floor(T.toreal(self.t))), T.toreal(self.t)))

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from . import tensor
        return tensor.dispatch(func, args, kwargs or {})


class SymReal(_Sym):
    __slots__ = ()
    __class__ = property(lambda self: float)


class SymInt(_Sym):
    __slots__ = ()
    __class__ = property(lambda self: int)


class SymBool(_Sym):
    __slots__ = ()

    def __and__(self, o):
        return wrap(T.and_(self.t, T.truth(lift(o))))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(T.or_(self.t, T.truth(lift(o))))

    __ror__ = __or__

    def __invert__(self):
        return wrap(T.not_(self.t))


def is_sym(x):
    t = type(x)
    return t is SymReal or t is SymInt or t is SymBool


# replacements injected for builtins / math functions in the modules under contract
def sym_float(x=0.0):
    if is_sym(x):
        return wrap(T.toreal(x.t))
    if hasattr(x, "_d"):
        return wrap(T.toreal(lift(x)))
    return float(x)


def sym_int(x=0, *a):
    if is_sym(x):
        if x.t.sort == "R":
            return wrap(T.trunc(x.t))
        return wrap(_int(x.t))
    if hasattr(x, "_d"):
        return sym_int(wrap(lift(x)))
    return int(x, *a) if a else int(x)


def sym_bool(x=False):
    return bool(x)


def sym_max(*a, **k):
    if k or len(a) == 1:
        seq = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(is_sym(x) for x in seq):
            return max(*a, **k)
        a = seq
    if any(is_sym(x) for x in a):
        r = lift(a[0])
        for x in a[1:]:
            y = lift(x)
            if r.sort != y.sort:
                r, y = T.toreal(r), T.toreal(y)
            r = T.tmax(r, y)
        return wrap(r)
    return max(*a)


def sym_min(*a, **k):
    if k or len(a) == 1:
        seq = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(is_sym(x) for x in seq):
            return min(*a, **k)
        a = seq
    if any(is_sym(x) for x in a):
        r = lift(a[0])
        for x in a[1:]:
            y = lift(x)
            if r.sort != y.sort:
                r, y = T.toreal(r), T.toreal(y)
            r = T.tmin(r, y)
        return wrap(r)
    return min(*a)


def _m1(name, ufname=None):
    real = getattr(math, name)
    uf = ufname or name

    def f(x, *rest):
        if is_sym(x) or hasattr(x, "_d"):
            if rest:
                raise Unsupported("math.%s with base" % name)
            return wrap(T.uf(uf, (T.toreal(lift(x)),)))
        return real(x, *rest)
    return f


class SymMath:
    """stands in for the module ``math``"""
    def __getattr__(self, n):
        return getattr(math, n)

    sqrt = staticmethod(_m1("sqrt"))
    exp = staticmethod(_m1("exp"))
    log = staticmethod(_m1("log"))
    log10 = staticmethod(_m1("log10"))
    tanh = staticmethod(_m1("tanh"))

    @staticmethod
    def floor(x):
        return x.__floor__() if is_sym(x) else math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if is_sym(x) else math.ceil(x)

    @staticmethod
    def fabs(x):
        return abs(x) if is_sym(x) else math.fabs(x)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    @staticmethod
    def pow(x, y):
        return wrap(power(T.toreal(lift(x)), T.toreal(lift(y)))) if is_sym(x) or is_sym(y) else math.pow(x, y)


symmath = SymMath()
