"""Execution of the C++ functions of /repo/src/rpucuda under contract.

The translation units are compiled from /repo's current tree, unchanged, with the scalar type of the
templates replaced by a class (cc/prelude.h) whose operations call back into this module: every
arithmetic operation builds a term, every comparison that reaches an ``if`` forks the path.  The same
sources compiled with the scalar as double evaluate the contracts concretely.
"""
import ctypes
import glob
import math
import os
import re
import shutil
import subprocess
import tempfile
from fractions import Fraction

import numpy as np
import torch

from vc import term as T
from vc import solver as S
from . import tensor as TT
from .sym import E, Unsupported, Infeasible, lift

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "rpucuda")
BASE_SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "aihwkit", "simulator", "rpu_base_src")
KINDS = {0: "normal", 1: "uniform", 2: "uniform1"}


class CppError(Exception):
    """exception raised by the C++ code"""
    cpp = True


class BuildError(Exception):
    pass


PINF, NINF = object(), object()
_lib = {}
_tab = [T.ZERO]
_idx = {T.ZERO.id: 0}
_consts = {}
_err = [None]


def _put(t):
    if t is PINF or t is NINF:
        k = ("inf", t is PINF)
    else:
        k = t.id
    i = _idx.get(k)
    if i is None:
        i = _idx[k] = len(_tab)
        _tab.append(t)
    return i


def _guard(f):
    def g(*a):
        try:
            return f(*a)
        except BaseException as e:      # noqa
            if _err[0] is None:
                _err[0] = e
            return -1
    return g


def _constant(x, is_float):
    k = (x, is_float)
    r = _consts.get(k)
    if r is None:
        if math.isinf(x):
            t = PINF if x > 0 else NINF
        elif x != x:
            raise Unsupported("NaN constant")
        else:
            t = T.real(Fraction(str(np.float32(x))) if is_float else Fraction(repr(x)))
        r = _consts[k] = _put(t)
    return r


_UN = ["neg", "abs", "sqrt", "exp", "log", "tanh", "rint", "round", "floor", "ceil", "trunc", "log10", "log2"]


def _round_away(t):
    """round() of libm: halves away from zero"""
    h = T.real(Fraction(1, 2))
    return T.ite(T.lt(t, T.ZERO), T.neg(T.toreal(T.floor(T.add(T.neg(t), h)))), T.toreal(T.floor(T.add(t, h))))


def _unary(op, a):
    n, t = _UN[op], _tab[a]
    if t is PINF or t is NINF:
        if n == "neg":
            return _put(NINF if t is PINF else PINF)
        if n == "abs":
            return _put(PINF)
        raise Unsupported("%s of infinity" % n)
    if n == "neg":
        r = T.neg(t)
    elif n == "abs":
        r = T.tabs(t)
    elif n == "rint":
        r = T.toreal(T.rnd(t))
    elif n == "round":
        r = T.toreal(_round_away(t))
    elif n in ("floor", "ceil", "trunc"):
        r = T.toreal(getattr(T, n)(t))
    else:
        r = T.uf(n, (t,))
    return _put(r)


_BIN = ["add", "sub", "mul", "div", "min", "max", "lt", "le", "eq", "pow", "fmod"]


def _binary(op, a, b):
    n, x, y = _BIN[op], _tab[a], _tab[b]
    xi, yi = x is PINF or x is NINF, y is PINF or y is NINF
    if xi or yi:
        vx = (math.inf if x is PINF else -math.inf) if xi else 0.0
        vy = (math.inf if y is PINF else -math.inf) if yi else 0.0
        if n == "lt":
            return _put(T.boolean(vx < vy))
        if n == "le":
            return _put(T.boolean(vx <= vy))
        if n == "eq":
            return _put(T.boolean(vx == vy))
        if n == "min":
            return a if vx < vy or (xi and yi and vx == vy) else b
        if n == "max":
            return a if vx > vy or (xi and yi and vx == vy) else b
        if n == "add" and not (xi and yi and vx != vy):
            return a if xi else b
        if n == "sub" and not (xi and yi and vx == vy):
            return a if xi else _put(NINF if y is PINF else PINF)
        if n == "div" and yi and not xi:
            return 0
        if n in ("mul", "div") and (x.op == "c" if yi else y.op == "c"):
            f = x.val if yi else y.val
            if f != 0:
                s = (f > 0) == ((y if yi else x) is PINF)
                return _put(PINF if s else NINF)
        raise Unsupported("%s with infinity" % n)
    if n == "add":
        r = T.add(x, y)
    elif n == "sub":
        r = T.sub(x, y)
    elif n == "mul":
        r = T.mul(x, y)
    elif n == "div":
        if y.op == "c" and y.val == 0:
            raise Unsupported("division by the constant zero")
        r = T.div(x, y)
    elif n == "min":
        r = T.tmin(x, y)
    elif n == "max":
        r = T.tmax(x, y)
    elif n == "lt":
        r = T.lt(x, y)
    elif n == "le":
        r = T.le(x, y)
    elif n == "eq":
        r = T.eq(x, y)
    elif n == "pow":
        if y.op == "c" and y.val == 2:
            r = T.mul(x, x)
        elif y.op == "c" and y.val == 1:
            r = x
        elif y.op == "c" and y.val == 0:
            r = T.ONE
        else:
            r = T.uf("pow", (x, y))
    else:   # fmod truncates
        r = T.sub(x, T.mul(y, T.toreal(T.trunc(T.div(x, y)))))
    return _put(r)


def _ite(c, a, b):
    x, y = _tab[a], _tab[b]
    if x is y:
        return a
    if x in (PINF, NINF) or y in (PINF, NINF):
        return a if E.decide(_tab[c]) else b
    return _put(T.ite(_tab[c], x, y))


def _decide(c):
    return 1 if E.decide(T.truth(_tab[c])) else 0


def _toint(a, out):
    t = T.trunc(_tab[a])
    if t.op == "c":
        out[0] = int(t.val)
        return 0
    for k in range(0, 70):
        for v in ((k, -k) if k else (0,)):
            if E.decide(T.eq(t, T.integer(v))):
                out[0] = v
                return 0
    raise Unsupported("unbounded integer conversion")


def _draw(kind):
    return _put(E.fresh_draw(KINDS[kind]))


_log = []


def _draw_conc(kind):
    q = E.replay
    if q:
        k, v = q.pop(0)
        v = float(v)
    elif kind == 0:
        v = torch.randn(1, dtype=torch.float64).item()
    else:
        v = torch.rand(1, dtype=torch.float64).item()
    _log.append(v)
    return v


def mark():
    """position in the sequence of the draws made by C++ code"""
    return len(E.draws) if E.active else len(_log)


def drawn(m, n=None):
    """the draws made since the mark, as a tensor"""
    if E.active:
        d = [v for _, v in E.draws[m:]]
        a = np.empty(len(d), dtype=object)
        a[:] = d
        return TT.mk(a, torch.float64)
    return torch.tensor(_log[m:], dtype=torch.float64)


def enum(name):
    """values of an enumeration of the current sources"""
    for f in sorted(glob.glob(os.path.join(SRC, "*.h"))):
        m = re.search(r"enum class %s\s*\{(.*?)\}" % name, re.sub(r"//[^\n]*", "", open(f).read()), re.S)
        if m:
            out, k = {}, 0
            for e in m.group(1).split(","):
                e = e.strip()
                if e:
                    n, _, v = e.partition("=")
                    k = int(v) if v.strip() else k
                    out[n.strip()] = k
                    k += 1
            return out
    raise Unsupported("no enumeration %s" % name)


i64, dbl = ctypes.c_int64, ctypes.c_double
_F = dict(constant=ctypes.CFUNCTYPE(i64, dbl, ctypes.c_int), unary=ctypes.CFUNCTYPE(i64, ctypes.c_int, i64),
          binary=ctypes.CFUNCTYPE(i64, ctypes.c_int, i64, i64), ite=ctypes.CFUNCTYPE(i64, i64, i64, i64),
          decide=ctypes.CFUNCTYPE(i64, i64), toint=ctypes.CFUNCTYPE(i64, i64, ctypes.POINTER(i64)),
          draw=ctypes.CFUNCTYPE(i64, ctypes.c_int))


class SymHooks(ctypes.Structure):
    _fields_ = [(n, _F[n]) for n in ("constant", "unary", "binary", "ite", "decide", "toint", "draw")]


class ConcHooks(ctypes.Structure):
    _fields_ = [("draw", ctypes.CFUNCTYPE(dbl, ctypes.c_int))]


_fields = {}        # (binding class, python field) -> number
_classes = {}       # device parameter class -> number
_all = {}           # binding class -> number


def gen_params(path):
    """setters for every parameter field declared by the python bindings"""
    from . import rpu_stub as R
    classes, _ = R.parse_bindings()
    alias = {m.group(1): m.group(2).strip() for m in re.finditer(r"using\s+(\w+)\s*=\s*([^;]+);", R._read("rpu_base_devices.cpp"))}

    def cxx(t):
        t = alias.get(t.strip(), t.strip())
        return re.sub(r"<\s*T(_RPU)?\s*>", "<float>", t)
    classes = {n: c for n, c in classes.items() if "Parameter" in n or "Param" in cxx(c["cxx"])}
    by = {cxx(c["cxx"]): n for n, c in classes.items()}
    _fields.clear()
    _classes.clear()
    _all.clear()
    decl, body, dev, rt, gd = [], [], [], [], []

    def bases(n):
        return [cxx(b) for b in classes[n]["bases"] if cxx(b) in by]

    def isdev(n):
        return n == "AbstractResistiveDeviceParameter" or any(isdev(by[b]) for b in bases(n))
    for n, c in classes.items():
        x = cxx(c["cxx"])
        decl.append("inline void setf(%s &p, int id, Io &io);" % x)
        b = "inline void setf(%s &p, int id, Io &io) {\n  switch (id) {\n" % x
        for f, m in c["fields"].items():
            k = len(_fields) + 1
            _fields[n, f] = k
            b += "  case %d: vset(p.%s, io); break;\n" % (k, m)
        bs = bases(n)
        b += "  default: %s\n  }\n}" % ("setf(static_cast<%s &>(p), id, io);" % bs[0] if bs else
                                     'throw std::logic_error("kernel: unknown field of " + std::string(typeid(p).name()) + " " + std::to_string(id));')
        body.append(b)
        decl.append("inline void getall(%s &p, Io &io);" % x)
        own = [(_fields[n, f], m) for f, m in c["fields"].items()]
        body.append("inline void getall(%s &p, Io &io) {\n%s  %s\n}" % (
            x, "".join("  io.iouti(%d); vget(p.%s, io);\n" % fm for fm in own),
            "getall(static_cast<%s &>(p), io);" % bs[0] if bs else "io.iouti(0);"))
        _all[n] = len(_all) + 1
        rt.append("  case %d: { %s p; vset(p, io); back(p, io); return; }" % (_all[n], x) if not isdev(n) else "")
        if isdev(n):
            gd.append("  if (typeid(p) == typeid(%s)) { io.iouti(%d); getall(static_cast<%s &>(p), io); members(p, io); return; }" % (x, len(_classes) + 1, x))
        if isdev(n):
            k = len(_classes) + 1
            _classes[n] = k
            dev.append("  case %d: p = mk<%s>(io); break;" % (k, x))
    for n, c in classes.items():     # inherited fields
        todo = bases(n)
        while todo:
            b = by[todo.pop(0)]
            for f in classes[b]["fields"]:
                _fields.setdefault((n, f), _fields[b, f])
            todo += bases(b)
    heads = sorted(os.path.basename(f) for f in glob.glob(os.path.join(SRC, "rpu_*.h")))
    with open(path, "w") as f:
        f.write("\n".join('#include "%s"' % h for h in heads) + "\n" + "\n".join(decl) + """
template <class M> typename std::enable_if<std::is_arithmetic<M>::value || std::is_enum<M>::value>::type vset(M &m, Io &io) {
  if (io.i()) throw std::logic_error("kernel: real value for an integer field");
  m = (M)io.i64();
}
template <class M> typename std::enable_if<std::is_class<M>::value>::type vset(M &m, Io &io) {
  for (int n = io.i(); n > 0; n--) { int id = io.i(); setf(m, id, io); }
}
template <int K> void vset(VsS<K> &m, Io &io) { if (io.i()) m = io.r(); else m = (long)io.i64(); }
template <class U> void vset(std::vector<U> &v, Io &io) {
  int n = io.i();
  v.clear();
  while (n--) { U u; vset(u, io); v.push_back(u); }
}
template <class M> typename std::enable_if<std::is_arithmetic<M>::value || std::is_enum<M>::value>::type vget(M &m, Io &io) {
  io.iouti(1); io.iouti((int64_t)m);
}
template <class M> typename std::enable_if<std::is_class<M>::value>::type vget(M &m, Io &io) { io.iouti(3); getall(m, io); }
template <int K> void vget(VsS<K> &m, Io &io) { io.iouti(2); io.out(VsReal(m)); }
template <class U> void vget(std::vector<U> &v, Io &io) {
  io.iouti(4); io.iouti((int64_t)v.size());
  for (auto &u : v) vget(u, io);
}
""" + "\n".join(body) + """
void getdev(DevPar &p, Io &io);
void members(DevPar &p, Io &io) {
  if (auto *v = dynamic_cast<VectorRPUDeviceMetaParameter<float> *>(&p)) {
    io.iouti((int64_t)v->vec_par.size());
    for (auto &c : v->vec_par) getdev(*c, io);
  } else if (auto *v = dynamic_cast<MixedPrecRPUDeviceBaseMetaParameter<float> *>(&p)) {
    io.iouti(v->device_par ? 1 : 0);
    if (v->device_par) getdev(*v->device_par, io);
  } else
    io.iouti(0);
}
void getdev(DevPar &p, Io &io) {
""" + "\n".join(gd) + """
  throw std::logic_error("kernel: no such device parameter");
}
template <class P> typename std::enable_if<std::is_copy_constructible<P>::value>::type back(P &p, Io &io) {
  P q(p);
  p = P();
  getall(q, io);
}
template <class P> typename std::enable_if<!std::is_copy_constructible<P>::value>::type back(P &p, Io &io) { getall(p, io); }
void pars_back(Io &io) {
  switch (io.i()) {
""" + "\n".join(rt) + """
  }
  throw std::logic_error("kernel: no such parameter class");
}
template <class P> typename std::enable_if<std::is_abstract<P>::value, DevPar *>::type mk(Io &) { throw std::logic_error("kernel: abstract"); }
template <class P> typename std::enable_if<!std::is_abstract<P>::value, DevPar *>::type mk(Io &io) {
  P *p = new P();
  vset(*p, io);
  for (int n = io.i(); n > 0; n--) {
    std::unique_ptr<DevPar> c(mkdev(io));
    bool ok = false;
    if (auto *v = dynamic_cast<VectorRPUDeviceMetaParameter<float> *>((DevPar *)p)) ok = v->appendVecPar(*c);
    else if (auto *v = dynamic_cast<MixedPrecRPUDeviceBaseMetaParameter<float> *>((DevPar *)p)) ok = v->setDevicePar(*c);
    if (!ok) throw std::runtime_error("device parameter not accepted");
  }
  return p;
}
DevPar *mkdev(Io &io) {
  DevPar *p = nullptr;
  switch (io.i()) {
""" + "\n".join(dev) + """
  }
  if (!p) throw std::logic_error("kernel: no such device");
  return p;
}
""")


def params(p, ints, reals):
    """a parameter object of the binding layer, in the order read by vset"""
    from . import rpu_stub as R
    from enum import Enum as PyEnum
    if isinstance(p, R.ParamBase):
        ints.append(len(p._set))
        for f, v in p._set.items():
            ints.append(_fields[p._pyname, f])
            params(v, ints, reals)
    elif isinstance(p, R.StubEnumValue):
        ints.extend([0, R.cxx_enum(p)])
    elif isinstance(p, (bool, int)):
        ints.extend([0, int(p)])
    elif isinstance(p, (list, tuple)):
        ints.append(len(p))
        for v in p:
            params(v, ints, reals)
    else:
        ints.append(1)
        reals.append(p)


def device(p, ints, reals):
    """a device parameter object with its members, in the order read by mkdev"""
    ints.append(_classes[p._pyname])
    params(p, ints, reals)
    ints.append(len(p._list))
    for c in p._list:
        device(c, ints, reals)


def read_back(p, dev):
    """the parameter object as the C++ library holds it after copying: {field: value}, [members]"""
    iv, rv = [], []
    if dev:
        device(p, iv, rv)
        o, v = run("dev_back", iv, rv)
    else:
        iv.append(_all[p._pyname])
        params(p, iv, rv)
        o, v = run("pars_back", iv, rv)
    v, pos = list(v), [0]
    names = {k: f for (_, f), k in _fields.items()}

    def val():
        k = v.pop(0)
        if k == 1:
            return v.pop(0)
        if k == 2:
            pos[0] += 1
            return o[pos[0] - 1]
        if k == 3:
            return fields()
        return [val() for _ in range(v.pop(0))]

    def fields():
        out = {}
        while True:
            k = v.pop(0)
            if k == 0:
                return out
            out[names[k]] = val()

    def dev_():
        name = next(n for n, k in _classes.items() if k == v[0])
        v.pop(0)
        f = fields()
        return name, f, [dev_() for _ in range(v.pop(0))]
    return dev_() if dev else (p._pyname, fields(), [])


class Tile:
    """a tile of the C++ library, created with the parameters of a python configuration"""

    def __init__(self, x, d, kind="analog", pars=None, device_pars=None, full=False, delayed=False, handle=None):
        self.x, self.d, self.kind = x, d, kind
        if handle is not None:
            self.h = handle
            return
        iv, rv = [0 if kind == "float" else 1, x, d, int(full)], []
        params(pars, iv, rv) if pars is not None else iv.append(0)
        if kind != "float":
            device(device_pars, iv, rv)
        iv.append(int(delayed))
        self.h = run("tile", iv, rv)[1][0]

    def __call__(self, kernel, *ints, reals=()):
        return run(kernel, [self.h] + [int(k) for k in ints], reals)

    def r(self, kernel, *ints, reals=(), shape=None):
        o = self(kernel, *ints, reals=reals)[0]
        return o.reshape(shape) if shape is not None else o

    def w(self):
        return self.r("get_weights", shape=(self.d, self.x))

    def raw(self):
        return self.r("raw_weights", shape=(self.d, self.x))

    def set_w(self, w):
        self("set_weights", reals=[w])

    def copy(self, how=0):
        return Tile(self.x, self.d, self.kind, handle=self("copy", how)[1][0])

    def hidden_names(self):
        v = self("hidden_names")[1]
        return _strings(v[1:], v[0])[0]

    def hidden(self):
        n = self.hidden_names()
        o = self.r("get_hidden")
        k = self.d * self.x
        return {a: o[i * k:(i + 1) * k].reshape(self.d, self.x) for i, a in enumerate(n)}

    def set_hidden(self, values):
        n = self.hidden_names()
        self("set_hidden", reals=[values[a] for a in n])

    def dump(self):
        o, v = self("dump")
        n, v = v[0], v[1:]
        out, p = {}, 0
        for _ in range(n):
            (key,), v = _strings(v, 1)
            k, v = v[0], v[1:]
            out[key] = o[p:p + k]
            p += k
        return out

    def load(self, state, strict=True):
        iv, rv = [self.h, int(strict), len(state)], []
        for k, v in state.items():
            iv += [len(k)] + [ord(c) for c in k] + [len(v)]
            rv.append(v)
        run("load", iv, rv)

    def load_from(self, other, strict=True):
        """the state dumped last by the other tile"""
        run("load_from", [self.h, other.h, int(strict)])


_TYPES = {"half": 0, "float": 1, "double": 2, "int32": 3, "int64": 4}


class Slot:
    """a torch tensor of the compiled interface; `order` lays the dimensions out in another order in memory, `device` 1: not a CPU tensor"""

    def __init__(self, values=None, shape=None, dtype="float", order=None, device=0, slot=None, alias=None):
        self.alias = alias
        if slot is not None:
            self.k = slot
            return
        shape = list(values.shape) if shape is None else list(shape)
        order = list(range(len(shape))) if order is None else order
        strides, n = [0] * len(shape), 1
        for a in reversed(order):
            strides[a] = n
            n *= max(1, shape[a])
        iv = [_TYPES[dtype], device, len(shape)] + shape + strides
        cnt = 0 if 0 in shape else n
        iv.append(cnt)
        if not cnt:
            vals = []
        elif hasattr(values, "permute"):
            vals = values.permute(*order).contiguous() if len(shape) > 1 else values
        else:
            vals = values
        if dtype in ("int32", "int64"):
            self.k = run("bind_tensor", iv + [int(v) for v in (vals.reshape(-1).tolist() if hasattr(vals, "reshape") else vals)])[1][0]
        else:
            self.k = run("bind_tensor", iv, [vals])[1][0]

    def meta(self):
        o, v = run("bind_read", [self.k])
        return o, v

    @property
    def shape(self):
        v = self.meta()[1]
        return tuple(v[3:3 + v[2]])

    def read(self):
        o, v = self.meta()
        sh = v[3:3 + v[2]]
        if v[0] >= 3:
            return torch.tensor(v[3 + v[2]:], dtype=torch.int64).reshape(sh)
        return o.reshape(sh)

    def dtype(self):
        return {b: a for a, b in _TYPES.items()}[self.meta()[1][0]]

    def write(self, values):
        run("bind_write", [self.k], [values])

    def free(self):
        run("bind_free", [self.k])


class Bound:
    """the functions of rpu_base_tiles.cpp on a tile; H checks after every call that nothing was written outside the tensors"""

    def __init__(self, H, tile, cls=None):
        self.H, self.t = H, tile
        self.cls = cls or ("FloatingPointTile" if tile is None or tile.kind == "float" else "AnalogTile")

    def _arg(self, a, iv, rv):
        if a is None:
            iv.append(0)
        elif isinstance(a, bool):
            iv += [1, int(a)]
        elif isinstance(a, int):
            iv += [2, a]
        elif isinstance(a, Slot):
            iv += [4, a.k]
        elif isinstance(a, State):
            iv += [5, len(a.d)]
            for k, v in a.d.items():
                iv += _enc(k) + [len(v)]
                rv.append(v)
        elif a == {}:
            iv.append(6)
        elif isinstance(a, Par):
            iv.append(a.code)
            if a.code == 8:
                params(a.p, iv, rv)
            else:
                iv.append(a.p[0])
                rv.extend(a.p[1:])
        else:
            iv.append(3)
            rv.append(a)

    def __call__(self, name, *args, **kw):
        iv, rv = [self.t.h if self.t is not None else -1] + _enc(name) + _enc(self.cls) + [len(args)], []
        for a in args:
            self._arg(a, iv, rv)
        iv.append(len(kw))
        for k, a in kw.items():
            iv += _enc(k)
            self._arg(a, iv, rv)
        o, v = run("bind_call", iv, rv)
        self.H.ensure("nothing is written outside the tensors (%s)" % name, v[0] == 1)
        k, v = v[1], v[2:]
        if k in (1, 2):
            return bool(v[0]) if k == 1 else v[0]
        if k == 3:
            return o.reshape(-1)[0]
        if k == 4:
            return v[0]
        if k == 5:
            return _strings(v[1:], v[0])[0]
        if k == 6:
            return Slot(slot=v[0], alias=v[1] if v[1] >= 0 else None)
        if k == 7:
            n, v, out, p = v[0], v[1:], {}, 0
            for _ in range(n):
                (key,), v = _strings(v, 1)
                m, v = v[0], v[1:]
                out[key] = o[p:p + m]
                p += m
            return State(out)
        if k == 8:
            return None if v[0] < 0 else Tile(self.t.x, self.t.d, self.t.kind, handle=v[0])
        return None


class State:
    def __init__(self, d):
        self.d = d


class Par:
    """a parameter object given to a bound function; code 7: clip, 8: modifier, 9: remap"""

    def __init__(self, code, p):
        self.code, self.p = code, p


def _enc(s):
    return [len(s)] + [ord(c) for c in s]


def bind_signature(cls, name):
    """the overloads: (number of arguments, [(name, has a default)])"""
    v = run("bind_signature", _enc(cls) + _enc(name))[1]
    n, v, out = v[0], v[1:], []
    for _ in range(n):
        k, m, v, a = v[0], v[1], v[2:], []
        for _ in range(m):
            d, v = v[0], v[1:]
            (s,), v = _strings(v, 1)
            a.append((s, bool(d)))
        out.append((k, a))
    return out


def _strings(v, n):
    out = []
    for _ in range(n):
        k = v[0]
        out.append("".join(chr(c) for c in v[1:1 + k]))
        v = v[1 + k:]
    return out, v


def _fill(top, values):
    for k, v in values.items():
        o, path = top, k.split(".")
        for a in path[:-1]:
            o = getattr(o, a)
        setattr(o, path[-1], v)


def simple_tile(x, d, full=False, delayed=False, **kw):
    from . import rpu_stub as R
    p = R.CLASS["FloatingPointTileParameter"]()
    _fill(p, kw)
    return Tile(x, d, "float", p, full=full, delayed=delayed)


def analog_tile(config, x, d, full=False, delayed=False, fields=(), **override):
    """the tile a configuration describes; override sets fields of the device parameters, fields (path, value) those of the
    tile parameters to (symbolic) values"""
    dt = config.runtime.data_type
    p, dp = config.as_bindings(), config.device.as_bindings(dt)
    _fill(dp, override)
    _fill(p, dict(fields))
    return Tile(x, d, "analog", p, dp, full=full, delayed=delayed)


def build(kernels=None):
    """compile both variants from the current tree; called once, before the workers are forked"""
    if _lib:
        return
    d = tempfile.mkdtemp(prefix="verif-cc-")
    try:
        units = []
        for f in sorted(glob.glob(os.path.join(SRC, "*"))):
            b = os.path.basename(f)
            if b.endswith("_test.cpp") or b in ("rng.cpp", "rng.h") or not b.endswith((".h", ".cpp")):
                continue
            shutil.copy(f, os.path.join(d, b))
            if b.endswith(".cpp"):
                units.append(b)
        for f in glob.glob(os.path.join(ROOT, "cc", "*.*")):
            b = os.path.basename(f)
            if b.startswith("k_") and kernels is not None and b[2:-4] not in kernels:
                continue
            shutil.copy(f, os.path.join(d, b))
            if b.endswith(".cpp"):
                units.append(b)
        inc = []
        if kernels is None or "bind" in kernels:
            shutil.copytree(os.path.join(ROOT, "cc", "mock"), os.path.join(d, "mock"))
            for b in ("rpu_base_tiles.cpp", "rpu_base.h"):
                shutil.copy(os.path.join(BASE_SRC, b), os.path.join(d, b))
            units.append("rpu_base_tiles.cpp")
            inc = ["-I" + os.path.join(d, "mock")]
        open(os.path.join(d, "cblas.h"), "w").close()
        gen_params(os.path.join(d, "params.inc"))
        base = ["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-fpermissive"]
        variants = {"sym": ["-DVS_SYM", "-finstrument-functions", "-finstrument-functions-exclude-file-list=prelude.h,/usr/,kern.h,main.cpp"],
                    "conc": []}
        procs = []
        for v, fl in variants.items():
            os.mkdir(os.path.join(d, v))
            shutil.copy(os.path.join(d, "prelude.h"), os.path.join(d, v, "prelude.h"))
            procs.append(subprocess.Popen(base + fl + ["-x", "c++-header", os.path.join(d, v, "prelude.h"), "-o",
                                                       os.path.join(d, v, "prelude.h.gch")], cwd=d, stderr=subprocess.PIPE))
        for p in procs:
            e = p.communicate()[1]
            if p.returncode:
                raise BuildError(e.decode()[-2000:])
        todo = [(v, u) for u in sorted(units, key=lambda u: -os.path.getsize(os.path.join(d, u))) for v in variants]
        run, err = [], []
        while todo or run:
            while todo and len(run) < (os.cpu_count() or 1):
                v, u = todo.pop(0)
                cmd = base + variants[v] + ["-include", os.path.join(d, v, "prelude.h"), "-I" + d] + inc + ["-c", u, "-o",
                                            os.path.join(d, v, u[:-4] + ".o")]
                run.append((u, subprocess.Popen(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, v, u + ".err"), "w")), v))
            u, p, v = run.pop(0)
            if p.wait():
                err.append("%s: %s" % (u, [l for l in open(os.path.join(d, v, u + ".err")) if "error" in l][:3]))
        if err:
            raise BuildError("\n".join(err)[:3000])
        procs = [subprocess.Popen(["g++", "-shared", "-o", os.path.join(d, v + ".so")] + glob.glob(os.path.join(d, v, "*.o")) + ["-ldl"],
                                  stderr=subprocess.PIPE) for v in variants]
        for p in procs:
            e = p.communicate()[1]
            if p.returncode:
                raise BuildError(e.decode()[-2000:])
        g = {n: _F[n](_guard(f)) for n, f in dict(constant=_constant, unary=_unary, binary=_binary, ite=_ite, decide=_decide,
                                                  toint=_toint, draw=_draw).items()}
        hs = SymHooks(*[g[n] for n, _ in SymHooks._fields_])
        hc = ConcHooks(ConcHooks._fields_[0][1](_draw_conc))
        for v, h in (("sym", hs), ("conc", hc)):
            lib = ctypes.CDLL(os.path.join(d, v + ".so"))
            lib.vs_run.restype = ctypes.c_long
            lib.vs_functions.restype = ctypes.c_long
            if lib.vs_check():
                raise BuildError("undefined state")
            lib.vs_init(ctypes.byref(h))
            _lib[v] = lib
        _lib["keep"] = (hs, hc, g)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def functions():
    buf = ctypes.create_string_buffer(1 << 18)
    _lib["sym"].vs_functions(buf, len(buf))
    out = set()
    for l in buf.value.decode().split("\n"):
        for _ in range(6):
            l = re.sub(r"<[^<>]*>", "", l)
        m = re.search(r"RPU::([\w:~]+(?:operator\S+)?)\(", l)
        if m:
            out.add("rpucuda/" + m.group(1))
    return out


def _flat(x, out):
    if isinstance(x, (list, tuple)):
        for y in x:
            _flat(y, out)
    elif isinstance(x, torch.Tensor) or hasattr(x, "_d"):
        if E.active:
            out.extend(TT.to_sym(x)._d.reshape(-1))
        else:
            out.extend(x.detach().double().reshape(-1).tolist())
    else:
        out.append(T.toreal(lift(x)) if E.active and not _isinf(x) else x)


def _isinf(x):
    return type(x) is float and math.isinf(x)


def run(name, ints=(), reals=(), cap=4096):
    """call the kernel -> (tensor of the reals it wrote, list of the integers it wrote)"""
    if not _lib:
        raise Unsupported("the C++ sources were not built")
    r = []
    _flat(list(reals), r)
    iv = [int(x) for x in ints]
    ii = (i64 * max(1, len(iv)))(*iv)
    io = (i64 * cap)()
    cnt = (ctypes.c_long * 4)()
    err = ctypes.create_string_buffer(2000)
    if E.active:
        lib, ct = _lib["sym"], i64
        rv = [_constant(float(t), 0) if _isinf(t) else _put(T.toreal(t)) for t in r]
        _err[0] = None
    else:
        lib, ct = _lib["conc"], dbl
        rv = [float(x) for x in r]
    ri = (ct * max(1, len(rv)))(*rv)
    ro = (ct * cap)()
    st = lib.vs_run(name.encode(), ri, ctypes.c_long(len(rv)), ii, ctypes.c_long(len(iv)), ro, ctypes.c_long(cap), io,
                    ctypes.c_long(cap), cnt, err, ctypes.c_long(len(err)))
    if st == 1:
        e = _err[0]
        _err[0] = None
        raise e if e is not None else Unsupported("aborted")
    if st == 3:
        raise Unsupported(err.value.decode(errors="replace"))
    if st == 2:
        raise CppError(err.value.decode(errors="replace").strip()[:300])
    if E.active:
        d = np.empty(cnt[0], dtype=object)
        for k in range(cnt[0]):
            t = _tab[ro[k]]
            if t is PINF or t is NINF:
                raise Unsupported("infinite result")
            d[k] = T.toreal(t)
        return TT.mk(d, torch.float64), [io[k] for k in range(cnt[1])]
    return torch.tensor([ro[k] for k in range(cnt[0])], dtype=torch.float64), [io[k] for k in range(cnt[1])]
