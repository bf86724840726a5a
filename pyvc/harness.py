"""Contract harness: the same contract text is run

* symbolically  - every feasible path of the real functions, obligations to the provers,
* concretely    - real torch tensors (replay of counterexamples, random evaluation).
"""
import builtins
import contextlib
import importlib
import inspect
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import torch

from vc import term as T
from vc import solver as S
from . import tensor as TT
from . import sym
from .sym import E, Unsupported, Infeasible, PathLimit, lift, wrap, is_sym

REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = {}          # property -> list of Contract


class Violated(Exception):
    pass


class Rejected(Exception):
    """a random input does not satisfy the precondition"""


class Mismatch(Exception):
    """the harness does not fit the code any more (private names moved, ...)"""


class Contract:
    def __init__(self, prop, fn, cases, tier, samples, name, tol, note, timeout, max_paths):
        self.cpp = "cc." in inspect.getsource(fn)
        self.prop, self.fn, self.cases, self.tier, self.samples = prop, fn, cases, tier, samples
        self.name, self.tol, self.note, self.timeout, self.max_paths = name, tol, note, timeout, max_paths


def contract(prop, cases=None, tier="quick", samples=12, tol=2e-5, note="", timeout=None, max_paths=600, thorough_cases=None):
    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(
            Contract(prop, fn, cases or [{}], tier, samples, fn.__name__, tol, note, timeout, max_paths))
        if thorough_cases:
            CONTRACTS[prop].append(
                Contract(prop, fn, thorough_cases, "thorough", samples, fn.__name__, tol, note, timeout, max_paths))
        return fn
    return deco


def _np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return np.asarray(x, dtype=object) if is_sym(x) else np.asarray(x)


class H:
    def __init__(self, mode, values=None, draws=None, rng=None, tol=2e-5):
        self.mode = mode
        self.sym = mode == "sym"
        self.values = dict(values or {})
        self.given = values is not None
        self.draws = draws
        self.rng = rng
        self.tol = tol
        self.obligations = []
        self.inputs = {}            # name -> (kind, shape, var(s))
        self.seen = 0
        self.float_dtype = torch.float32 if self.sym else torch.float64

    # ---------------------------------------------------------------- inputs
    def _gen(self, n, lo, hi, kind="R"):
        r = self.rng
        out = np.empty(n)
        for i in range(n):
            if kind == "I":
                l = lo if lo is not None else -5
                h = hi if hi is not None else l + 10
                out[i] = r.randint(l, h)
                continue
            m = r.random()
            if lo is not None and hi is not None:
                v = lo if m < 0.05 else hi if m < 0.1 else r.uniform(lo, hi)
            elif lo is not None:
                v = lo if m < 0.05 else lo + abs(r.gauss(0, 1)) * (10 if m > 0.9 else 1)
            elif hi is not None:
                v = hi if m < 0.05 else hi - abs(r.gauss(0, 1)) * (10 if m > 0.9 else 1)
            else:
                v = 0.0 if m < 0.05 else r.gauss(0, 1) * (10 if m > 0.9 else 1)
            out[i] = v
        return out

    def tensor(self, name, *shape, lo=None, hi=None, dtype=None, flo=None, fhi=None, int_=False):
        """lo/hi: precondition bounds (inclusive); flo/fhi only steer random generation"""
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, torch.Size)):
            shape = tuple(shape[0])
        n = int(np.prod(shape)) if shape else 1
        srt = "I" if int_ else "R"
        if self.sym:
            d = np.empty(shape, dtype=object)
            vs = []
            f = d.reshape(-1) if d.ndim else None
            for i in range(n):
                v = T.var("%s[%d]" % (name, i), srt)
                vs.append(v)
                t = v
                if lo is not None:
                    E.assume(T.le(T.const(lo, srt) if not isinstance(lo, float) else T.real(lo), v))
                if hi is not None:
                    E.assume(T.le(v, T.const(hi, srt) if not isinstance(hi, float) else T.real(hi)))
                if f is not None:
                    f[i] = t
                else:
                    d[()] = t
            self.inputs[name] = ("tensor", tuple(shape), vs)
            return TT.mk(d, dtype or (torch.int64 if int_ else self.float_dtype))
        if name in self.values:
            a = np.array([float(v) for v in self.values[name]])
        else:
            a = self._gen(n, lo if flo is None else flo, hi if fhi is None else fhi, srt)
        self.inputs[name] = ("tensor", tuple(shape), [float(v) for v in a])
        t = torch.from_numpy(a.copy()).reshape(shape)
        return t.to(dtype or (torch.int64 if int_ else self.float_dtype))

    def real(self, name, lo=None, hi=None, gt=None, lt=None, flo=None, fhi=None):
        if self.sym:
            v = T.var(name)
            if lo is not None:
                E.assume(T.le(T.real(lo), v))
            if hi is not None:
                E.assume(T.le(v, T.real(hi)))
            if gt is not None:
                E.assume(T.lt(T.real(gt), v))
            if lt is not None:
                E.assume(T.lt(v, T.real(lt)))
            self.inputs[name] = ("real", (), [v])
            return wrap(v)
        if name in self.values:
            x = float(self.values[name][0] if isinstance(self.values[name], (list, tuple)) else self.values[name])
        else:
            l, h = (lo if lo is not None else gt), (hi if hi is not None else lt)
            l, h = (l if flo is None else flo), (h if fhi is None else fhi)
            for _ in range(50):
                x = float(self._gen(1, l, h)[0])
                if (gt is None or x > gt) and (lt is None or x < lt):
                    break
        self.inputs[name] = ("real", (), [x])
        if (gt is not None and not x > gt) or (lt is not None and not x < lt) or (lo is not None and x < lo) or \
                (hi is not None and x > hi):
            raise Rejected()
        return x

    def int(self, name, lo=None, hi=None):
        if self.sym:
            v = T.var(name, "I")
            if lo is not None:
                E.assume(T.le(T.integer(lo), v))
            if hi is not None:
                E.assume(T.le(v, T.integer(hi)))
            self.inputs[name] = ("int", (), [v])
            return wrap(v)
        if name in self.values:
            x = int(self.values[name][0] if isinstance(self.values[name], (list, tuple)) else self.values[name])
        else:
            x = int(self._gen(1, lo, hi, "I")[0])
        self.inputs[name] = ("int", (), [x])
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Rejected()
        return x

    # ---------------------------------------------------------------- logic
    def _terms(self, c):
        if isinstance(c, (bool, np.bool_)):
            return [T.boolean(bool(c))]
        if isinstance(c, torch.Tensor):
            return [T.truth(t) for t in TT.to_sym(c)._d.reshape(-1)]
        if isinstance(c, (list, tuple)):
            out = []
            for x in c:
                out += self._terms(x)
            return out
        return [T.truth(lift(c))]

    def assume(self, c):
        if self.sym:
            for t in self._terms(c):
                E.assume(t)
        else:
            if not _conc_all(c):
                raise Rejected()

    def ensure(self, label, c, note=None):
        """obligation"""
        self.seen += 1
        if self.sym:
            for i, t in enumerate(self._terms(c)):
                self.obligations.append((label, list(E.pc), t, list(E.draws)))
        else:
            if not _conc_all(c):
                self._fail(label, note or "condition is false")

    def _fail(self, label, detail):
        raise Violated(label, detail)

    def _shape_check(self, label, a, b):
        sa, sb = tuple(getattr(a, "shape", ())), tuple(getattr(b, "shape", ()))
        if sa != sb:
            if self.sym:
                self.obligations.append((label + " (shape)", list(E.pc), T.FALSE, list(E.draws)))
            else:
                self._fail(label + " (shape)", "shape %s instead of %s" % (sa, sb))
            return False
        return True

    def eq(self, label, a, b, tol=None, when=None, shape=True):
        """elementwise equality (of tensors of the same shape or of scalars)"""
        self.seen += 1
        if shape and isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.ndim + b.ndim > 0:
            if not self._shape_check(label, a, b):
                return
        if self.sym:
            A, B = TT.to_sym(a)._d, TT.to_sym(b)._d
            A, B = np.broadcast_arrays(A, B)
            for x, y in zip(A.reshape(-1), B.reshape(-1)):
                g = T.eq(x, y) if x.sort == y.sort else T.eq(T.toreal(x), T.toreal(y))
                if when is not None:
                    g = T.implies(T.truth(lift(when)), g)
                self.obligations.append((label, list(E.pc), g, list(E.draws)))
            return
        if when is not None and not _conc_all(when):
            return
        a, b = _f64(a), _f64(b)
        t = self.tol if tol is None else tol
        if not np.all(np.isfinite(a)) or not np.all(np.abs(a - b) <= t * (1 + np.maximum(np.abs(a), np.abs(b)))):
            self._fail(label, "got %s expected %s" % (_short(a), _short(b)))

    def le(self, label, a, b, tol=None, when=None):
        self.seen += 1
        if self.sym:
            A, B = TT.to_sym(a)._d, TT.to_sym(b)._d
            A, B = np.broadcast_arrays(A, B)
            for x, y in zip(A.reshape(-1), B.reshape(-1)):
                g = T.le(x, y)
                if when is not None:
                    g = T.implies(T.truth(lift(when)), g)
                self.obligations.append((label, list(E.pc), g, list(E.draws)))
            return
        if when is not None and not _conc_all(when):
            return
        a, b = _f64(a), _f64(b)
        t = self.tol if tol is None else tol
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))) or \
                not np.all(a <= b + t * (1 + np.maximum(np.abs(a), np.abs(b)))):
            self._fail(label, "%s not <= %s" % (_short(a), _short(b)))

    def within(self, label, lo, x, hi, tol=None, when=None):
        self.le(label + " lower", lo, x, tol, when)
        self.le(label + " upper", x, hi, tol, when)

    def grid(self, label, x, step, tol=None, when=None):
        """x is a whole multiple of step (step != 0)"""
        self.seen += 1
        if self.sym:
            X, D = np.broadcast_arrays(TT.to_sym(x)._d, TT.to_sym(step)._d)
            for a, s in zip(X.reshape(-1), D.reshape(-1)):
                g = whole(a, s)
                if when is not None:
                    g = T.implies(T.truth(lift(when)), g)
                self.obligations.append((label, list(E.pc), g, list(E.draws)))
            return
        if when is not None and not _conc_all(when):
            return
        q = _f64(x) / _f64(step)
        if not np.all(np.abs(q - np.round(q)) <= max(self.tol if tol is None else tol, 1e-6) * (1 + np.abs(q))):
            self._fail(label, "off grid: %s / step = %s" % (_short(_f64(x)), _short(q)))

    def implies(self, a, b):
        if self.sym:
            return wrap(T.implies(T.truth(lift(a)), T.truth(lift(b))))
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        if self.sym:
            x, y = lift(a), lift(b)
            if x.sort != y.sort:
                x, y = T.toreal(x), T.toreal(y)
            return wrap(T.ite(T.truth(lift(c)), x, y))
        return a if bool(c) else b

    # ---------------------------------------------------------------- random draws
    def mark(self):
        """remember this point of the random sequence"""
        if self.sym:
            return len(E.draws)
        return torch.get_rng_state(), np.random.get_state()

    def rewind(self, m):
        """the next draws repeat those made since the mark"""
        if self.sym:
            E.redraw = list(E.draws[m:])
        elif E.replay is None:
            torch.set_rng_state(m[0])
            np.random.set_state(m[1])

    # ---------------------------------------------------------------- environment
    @contextlib.contextmanager
    def setup(self):
        """concrete construction phase"""
        a = E.active
        E.active = False
        try:
            yield
        finally:
            E.active = a

    def put(self, module, name, value):
        """replace a parameter/buffer/attribute of a module by a (symbolic or real) tensor"""
        if hasattr(module, "_parameters") and name in module._parameters:
            old = module._parameters[name]
            if self.sym:
                v = TT.to_sym(value)
                p = TT.mk(v._d, v._dt)
                p._rg = bool(old.requires_grad) if old is not None else False
                p._is_param = True
                module._parameters[name] = p
            else:
                module._parameters[name] = torch.nn.Parameter(value.detach().clone().to(self.float_dtype),
                                                              requires_grad=bool(old.requires_grad) if old is not None else False)
        elif hasattr(module, "_buffers") and name in module._buffers:
            module._buffers[name] = value if self.sym else value.detach().clone()
        elif hasattr(module, name):
            setattr(module, name, value)
        else:
            raise Mismatch("no attribute %s" % name)

    def clone(self, x):
        return TT.mk(x._d.copy(), x._dt) if isinstance(x, TT.SymTensor) else x.detach().clone()

    def const(self, x):
        return torch.tensor(x, dtype=self.float_dtype) if not self.sym else TT.f_tensor(x, dtype=self.float_dtype)


def whole(a, s):
    """boolean term: a is a whole multiple of s"""
    q = T.div(a, s)
    return T.eq(q, T.toreal(T.floor(q)))


def _f64(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().double().numpy()
    return np.asarray(x, dtype=float)


def _short(a):
    s = np.array2string(np.asarray(a), threshold=12, precision=8)
    return s if len(s) < 300 else s[:300] + "..."


def _conc_all(c):
    if isinstance(c, torch.Tensor):
        return bool(c.all())
    if isinstance(c, (list, tuple)):
        return all(_conc_all(x) for x in c)
    if isinstance(c, np.ndarray):
        return bool(c.all())
    return bool(c)


# -------------------------------------------------------------------- module instrumentation
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)

    def __call__(cls, *a, **k):
        if a and (is_sym(a[0]) or isinstance(a[0], TT.SymTensor)):
            return sym.sym_float(*a)
        return builtins.float(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class _IntMeta(_FloatMeta):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)

    def __call__(cls, *a, **k):
        if a and (is_sym(a[0]) or isinstance(a[0], TT.SymTensor)):
            return sym.sym_int(*a)
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class float_(metaclass=_FloatMeta):
    pass


class int_(metaclass=_IntMeta):
    pass


def sym_interp(x, xp, fp, *a, **k):
    """numpy.interp on symbolic values (xp increasing)"""
    if not E.active:
        return np.interp(x, xp, fp, *a, **k)
    if a or k:
        raise Unsupported("interp options")
    xp = [T.toreal(lift(v)) for v in (xp.tolist() if hasattr(xp, "tolist") else xp)]
    fp = [T.toreal(lift(v)) for v in (fp.tolist() if hasattr(fp, "tolist") else fp)]

    def one(t):
        r = fp[-1]
        for i in range(len(xp) - 2, -1, -1):
            dx = T.sub(xp[i + 1], xp[i])
            seg = fp[i] if fp[i] is fp[i + 1] else T.add(fp[i], T.mul(T.sub(fp[i + 1], fp[i]), T.div(T.sub(t, xp[i]), dx)))
            r = T.ite(T.lt(t, xp[i + 1]), seg, r)
        return T.ite(T.lt(t, xp[0]), fp[0], r)
    d = TT.to_sym(x)._d
    return TT.mk(TT.ew(lambda y: one(T.toreal(y)), d), torch.float64)


_NPFUN = ("log", "sqrt", "log10", "exp")


def _npfun(f):
    """numpy function of a scalar, also on symbolic scalars and tensors"""
    def g(x, *a, **k):
        if hasattr(x, "_d"):
            return getattr(torch, f.__name__)(x)
        if sym.is_sym(x):
            return getattr(sym.symmath, f.__name__)(x)
        return f(x, *a, **k)
    return g


_instrumented = set()
_EXTRA = {}


def instrument():
    """builtins that would concretise a symbolic value are shadowed in the project's modules"""
    for n, m in list(sys.modules.items()):
        if not n.startswith("aihwkit") or n in _instrumented or m is None:
            continue
        _instrumented.add(n)
        d = m.__dict__
        for k in ("float", "int"):
            if k not in d:
                d[k] = float_ if k == "float" else int_
        for k, f in (("max", sym.sym_max), ("min", sym.sym_min)):
            if k not in d:
                d[k] = f
        for k, v in list(d.items()):
            if v is np.interp:
                d[k] = sym_interp
            elif isinstance(v, np.ufunc) and v.__name__ in _NPFUN and v is getattr(np, v.__name__):
                d[k] = _npfun(v)
            elif v is math:
                d[k] = sym.symmath
            elif type(v).__name__ == "builtin_function_or_method" and getattr(v, "__module__", "") == "math":
                r = getattr(sym.symmath, v.__name__)
                d[k] = r


_apply_done = []


class Ctx:
    """stand-in for the autograd context of a Function executed directly"""
    def __init__(self):
        self.saved_tensors = ()
        self.needs_input_grad = (True,) * 16
        self.non_differentiable = ()

    def save_for_backward(self, *a):
        self.saved_tensors = a

    def mark_dirty(self, *a):
        pass

    def mark_non_differentiable(self, *a):
        self.non_differentiable = a

    def set_materialize_grads(self, v):
        pass


last_ctx = []


def patch_apply():
    if _apply_done:
        return
    _apply_done.append(1)
    orig = torch.autograd.Function.apply

    def apply(cls, *args, **kwargs):
        if E.active:
            ctx = Ctx()
            # frozen parameters need no gradient (other tensors are taken to need one)
            ctx.needs_input_grad = tuple(not isinstance(a, torch.nn.Parameter) or bool(a.requires_grad) for a in args)
            r = cls.forward(ctx, *args, **kwargs)
            last_ctx.append((cls, ctx))
            return r
        return orig.__func__(cls, *args, **kwargs) if hasattr(orig, "__func__") else orig(*args, **kwargs)
    torch.autograd.Function.apply = classmethod(apply)


def patch_context():
    """A real torch Parameter cannot hold symbolic data: during symbolic runs the analog context keeps it aside."""
    from aihwkit.optim.context import AnalogContext
    raw, rep, new = AnalogContext._raw_data, AnalogContext._replace_raw_data, AnalogContext.__new__

    def _raw_data(self):
        if E.active:
            s = self.__dict__.get("_sym_raw")
            if s is not None:
                return s
        return raw(self)

    def _replace_raw_data(self, data):
        if isinstance(data, TT.SymTensor):
            self.__dict__["_sym_raw"] = data
            return
        self.__dict__.pop("_sym_raw", None)
        rep(self, data)

    def __new__(cls, analog_tile, parameter=None):
        if E.active and parameter is None:
            ref = analog_tile._get_tile_weights_ref()
            if isinstance(ref, TT.SymTensor):
                o = torch.nn.Parameter.__new__(cls, data=torch.Tensor.__new__(torch.Tensor, *tuple(ref.shape)))
                o.__dict__["_sym_raw"] = ref
                return o
        return new(cls, analog_tile, parameter)
    AnalogContext._raw_data, AnalogContext._replace_raw_data, AnalogContext.__new__ = _raw_data, _replace_raw_data, __new__

    # subclass views of symbolic data: the data themselves (the protection of the views is checked on real tensors)
    from aihwkit.optim import weight_view as WV
    for cls in (WV.ReadOnlyWeightView, WV.PlaceholderDataView):
        def view(c, data, new=cls.__new__):
            return data if isinstance(data, TT.SymTensor) else new(c, data)
        cls.__new__ = staticmethod(view)


# -------------------------------------------------------------------- running a contract case
def repo_frame(exc):
    """where in the project the exception was raised (None: not in the project)"""
    tb, hit = exc.__traceback__, None
    if getattr(exc, "cpp", False):
        return "rpucuda"
    for f in traceback.extract_tb(tb):
        if "/aihwkit/" in f.filename and "/verif/" not in f.filename:
            hit = "%s:%s" % (f.filename.split("/aihwkit/")[-1], f.name)
    return hit


def run_conc(c, case, values=None, draws=None, seed=0, tries=40):
    """('ok'|'rejected'|'violated'|'mismatch', detail, H)"""
    h = None
    for k in range(tries if values is None else 1):
        rng = random.Random("%s-%s-%d-%d" % (c.name, sorted(case.items(), key=str), seed, k))
        h = H("conc", values, draws, rng, c.tol)
        E.active = False
        E.replay = list(draws) if draws is not None else None
        torch.manual_seed(seed * 1000 + k)
        np.random.seed((seed * 1000 + k) % 2**31)
        old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float64)
        last_ctx.clear()
        try:
            with np.errstate(all="ignore"):
                c.fn(h, **case)
            return "ok", "", h
        except Rejected:
            continue
        except Violated as v:
            return "violated", (v.args[0], v.args[1]), h
        except Exception as e:
            fr = repo_frame(e)
            det = "%s: %s" % (type(e).__name__, str(e)[:300])
            if isinstance(e, Mismatch) or fr is None:
                return "mismatch", det, h
            return "violated", ("raises no exception", det + " in " + fr), h
        finally:
            torch.set_default_dtype(old)
            E.replay = None
    return "rejected", "", h


def _model_inputs(inputs, model):
    out = {}
    for n, (kind, shape, vs) in inputs.items():
        out[n] = [float(model.get(v, 0)) if kind != "int" else int(model.get(v, 0)) for v in vs]
    return out


def run_case(c, case, tier, seed, deadline):
    """symbolic run + concrete evaluations; returns a result record"""
    t_start = time.time()
    res = {"contract": c.name, "case": {k: str(v) for k, v in case.items()}, "engine": "python", "obligations": 0,
           "discharged": 0, "backends": {}, "undecided": [], "violations": [], "paths": 0, "labels": {},
           "samples": 0, "functions": [], "solver_s": 0.0, "note": c.note}
    prove_to = 3000 if tier == "quick" else 15000
    funcs = set()
    mon = sys.monitoring
    TOOL = 4
    try:
        mon.use_tool_id(TOOL, "verif")
        have_mon = True
    except Exception:
        have_mon = False

    def on_start(code, off):
        if E.active and "/aihwkit/" in code.co_filename and "/verif/" not in code.co_filename:
            funcs.add("%s:%s" % (code.co_filename.split("/aihwkit/")[-1], code.co_qualname))
            return mon.DISABLE
        return None if "/aihwkit/" in code.co_filename else mon.DISABLE
    if have_mon:
        mon.register_callback(TOOL, mon.events.PY_START, on_start)
        mon.set_events(TOOL, mon.events.PY_START)
    S.stats.update(time=0.0)
    bad = []
    cur = {}
    proved_cache = {}

    def body():
        h = H("sym", tol=c.tol)
        cur["h"] = h
        torch.manual_seed(12345)
        np.random.seed(12345)
        last_ctx.clear()
        c.fn(h, **case)

    def on_path(exc):
        h = cur["h"]
        if exc == "infeasible":
            if not h.obligations:
                return
            exc = None
        res["paths"] += 1
        obls = h.obligations
        if exc is not None:
            fr = repo_frame(exc)
            if fr is None:
                raise Mismatch("%s: %s" % (type(exc).__name__, exc))
            msg = "%s: %s in %s" % (type(exc).__name__, str(exc)[:200], fr)
            obls = obls + [("raises no exception", list(E.pc), T.FALSE, list(E.draws), msg)]
        for ob in obls:
            label, pc, goal, draws = ob[:4]
            lab = res["labels"].setdefault(label, [0, 0])
            key = (goal.id, tuple(a.id for a in pc)) if len(pc) < 400 else None
            if key in proved_cache:
                lab[0] += 1
                lab[1] += 1
                res["obligations"] += 1
                res["discharged"] += 1
                continue
            res["obligations"] += 1
            lab[0] += 1
            if time.time() > deadline:
                res["undecided"].append([label, "time limit"])
                continue
            st, info = S.prove(pc, goal, prove_to)
            if st == "proved":
                res["discharged"] += 1
                lab[1] += 1
                res["backends"][info] = res["backends"].get(info, 0) + 1
                proved_cache[key] = True
            elif st == "refuted":
                if len(bad) < 12:
                    # extend the model to all hypotheses
                    st2, full = S.check_sat(pc + [T.not_(goal)], prove_to)
                    model = full if st2 == "sat" else info
                    exact = st2 == "sat" and len(ob) == 4 and not T.has_uf(pc + [goal])
                    bad.append((label, _model_inputs(h.inputs, model),
                                [(k, float(model.get(v, Fraction(1, 2) if k == "uniform" else 0))) for k, v in draws],
                                ob[4] if len(ob) > 4 else T.show(goal)[:400], exact))
                res["undecided"].append([label, "refuted"])
            else:
                res["undecided"].append([label, str(info)[:100]])
        obls.clear()
    try:
        sym.explore(body, on_path, c.max_paths, deadline)
    except Unsupported as u:
        res["undecided"].append(["*", "unsupported: %s" % str(u)[:200]])
    except PathLimit as u:
        res["undecided"].append(["*", str(u)])
    except Mismatch as u:
        res["undecided"].append(["*", "mismatch: %s" % str(u)[:200]])
    except RecursionError:
        res["undecided"].append(["*", "recursion limit"])
    finally:
        E.active = False
        if have_mon:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
    res["solver_s"] = round(S.stats.get("time", 0.0), 2)
    if c.cpp:
        from . import cc
        funcs |= cc.functions()
    res["functions"] = sorted(funcs)
    res["vacuous"] = res["obligations"] == 0
    # replay counterexamples on the real code
    seenlab = set()
    for label, values, draws, goal, _ in bad:
        st, det, h = run_conc(c, case, values, draws)
        if st == "violated":
            k = det[0]
            if k in seenlab:
                continue
            seenlab.add(k)
            res["violations"].append({"label": k, "detail": det[1], "values": values, "draws": draws, "found": "verifier model"})
    # random evaluation of the same contract on the real code
    n = c.samples if not res["undecided"] else max(c.samples, 60 if tier == "quick" else 400)
    if tier != "quick":
        n *= 4
    mism = None
    t0 = time.time()
    lim = 20 if tier == "quick" else 120
    for i in range(n):
        st, det, h = run_conc(c, case, None, None, seed=seed * 7919 + i)
        res["samples"] += st == "ok"
        if st == "mismatch":
            mism = det
            break
        if st == "violated" and det[0] not in seenlab:
            seenlab.add(det[0])
            res["violations"].append({"label": det[0], "detail": det[1], "seed": seed * 7919 + i,
                                      "values": {k: v[2] for k, v in h.inputs.items()}, "draws": None,
                                      "found": "random evaluation"})
        if time.time() - t0 > lim:
            break
    if mism:
        res["undecided"].append(["*", "harness mismatch (concrete): " + mism])
    # refuted with an exact model (no uninterpreted functions) but not replayed
    res["refuted"] = [[l, g + " model %s draws %s" % (v, [x for _, x in d])] for l, v, d, g, _ in bad]
    # (not if the concrete contract itself does not accept the inputs or the labels differ between the engines)
    res["no_input"] = [{"label": l, "detail": "counterexample of the verifier, not reproduced in floating point: " + g, "values": v, "draws": d,
                        "found": "verifier model", "noinput": True, "output": g}
                       for l, v, d, g, exact in bad if exact and l not in seenlab]
    res["wall_s"] = round(time.time() - t_start, 2)
    return res


def run_case_conc_only(c, case, tier, seed, reason):
    """bounded stand-in after the symbolic run of a case was lost (time, memory)"""
    t0 = time.time()
    res = {"contract": c.name, "case": {k: str(v) for k, v in case.items()}, "engine": "python", "obligations": 0,
           "discharged": 0, "backends": {}, "undecided": [["*", reason]], "violations": [], "paths": 0, "labels": {},
           "samples": 0, "functions": [], "solver_s": 0.0, "note": c.note, "refuted": []}
    seen = set()
    for i in range(100 if tier == "quick" else 1000):
        st, det, h = run_conc(c, case, None, None, seed=seed * 7919 + i)
        res["samples"] += st == "ok"
        if st == "mismatch":
            break
        if st == "violated" and det[0] not in seen:
            seen.add(det[0])
            res["violations"].append({"label": det[0], "detail": det[1], "seed": seed * 7919 + i,
                                      "values": {k: v[2] for k, v in h.inputs.items()}, "draws": None,
                                      "found": "random evaluation"})
        if time.time() - t0 > 40:
            break
    res["wall_s"] = round(time.time() - t0, 2)
    return res
