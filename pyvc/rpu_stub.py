"""Stand-in for the compiled module aihwkit.simulator.rpu_base.

The compiled tiles are represented by their contract: an ideal tile (exact products, exact rank-one update).
The contract is assumed for the python side only; the C++ code itself is checked against the same statements in
the contracts of C06, C12..C19, C26 and C27.

Parameter classes and enumerations are generated from the pybind11 sources of the current tree.
"""
import os
import re
import sys
import types

import torch

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "aihwkit", "simulator", "rpu_base_src")


class BindingError(Exception):
    pass


def _read(name):
    with open(os.path.join(SRC, name)) as f:
        s = f.read()
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)


def parse_bindings():
    """-> classes {pyname: dict(cxx, bases, fields{py: member}, module)}, enums {pyname: dict(module, values{py: cxx})}"""
    classes, enums = {}, {}
    for fn in ("rpu_base_devices.cpp", "rpu_base_tiles.cpp", "rpu_base_utils.cpp"):
        s = _read(fn)
        heads = []
        for m in re.finditer(r"py::class_<", s):
            # matching '>'
            i, depth = m.end(), 1
            while depth:
                depth += {"<": 1, ">": -1}.get(s[i], 0)
                i += 1
            targs = s[m.end():i - 1]
            j = s.index("(", i)
            rest = s[j + 1:j + 300]
            name = re.search(r'"(\w+)"', rest).group(1)
            var = re.match(r"\s*(\w+)", rest).group(1)
            heads.append((m.start(), j, name, _split(targs), var))
        stops = sorted([h[0] for h in heads] + [m.start() for m in re.finditer(r"py::enum_<", s)] + [len(s)])
        for st, j, name, targs, var in heads:
            end = min(x for x in stops if x > st)
            body = s[j:end]
            fields = {}
            for f in re.finditer(r'\.def_readwrite\(\s*"(\w+)"\s*,\s*&\s*([\w:<>\s]+?)::(\w+)\s*[,)]', body):
                fields[f.group(1)] = f.group(3)
            n_all = len(re.findall(r"\.def_(?:readwrite|property|readonly)\w*\(", body))
            mod = "devices" if fn == "rpu_base_devices.cpp" else "tiles"
            classes[name] = dict(cxx=targs[0].strip(), bases=[t.strip() for t in targs[1:]], fields=fields, module=mod,
                                 opaque=n_all - len(fields), file=fn)
        for m in re.finditer(r"py::enum_<([\w:]+)>\(\s*(\w+)\s*,\s*\"(\w+)\"\s*\)(.*?);", s, re.S):
            vals = {}
            for v in re.finditer(r'\.value\(\s*"(\w+)"\s*,\s*([\w:]+)\s*\)', m.group(4)):
                vals[v.group(1)] = v.group(2)
            enums[m.group(3)] = dict(cxx=m.group(1), module="devices" if "device" in m.group(2) else "tiles", values=vals)
    return classes, enums


def _split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += {"<": 1, ">": -1}.get(ch, 0)
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


class StubEnumValue:
    def __init__(self, enum, name, cxx):
        self.enum, self.name, self.cxx = enum, name, cxx

    def __repr__(self):
        return "%s.%s" % (self.enum, self.name)

    def __eq__(self, o):
        return isinstance(o, StubEnumValue) and self.cxx == o.cxx

    def __hash__(self):
        return hash(self.cxx)

    def __deepcopy__(self, memo):
        return self


class ParamBase:
    _fields = {}
    _pyname = ""

    def __init__(self):
        object.__setattr__(self, "_set", {})
        object.__setattr__(self, "_list", [])

    def __setattr__(self, name, value):
        if name not in self._fields:
            raise AttributeError("'%s' object has no attribute '%s'" % (self._pyname, name))
        self._set[name] = value

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in self._fields:
            return self._set.get(name)
        raise AttributeError("'%s' object has no attribute '%s'" % (self._pyname, name))

    def append_parameter(self, p):
        self._list.append(p)
        return True

    def set_device_parameter(self, p):
        self._list.append(p)
        return True

    def calc_weight_granularity(self):
        """of devices with the same step everywhere"""
        if "dw_min" not in self._fields:
            raise AttributeError("calc_weight_granularity")
        return self._set["dw_min"]

    def __deepcopy__(self, memo):
        import copy
        n = type(self)()
        n._set.update(copy.deepcopy(self._set, memo))
        n._list.extend(copy.deepcopy(self._list, memo))
        return n

    def create_array(self, x_size, d_size, device=None):
        t = CLASS["AnalogTile"](x_size, d_size)
        t._pars = self
        t._device = device
        if device is None and self._pyname == "AnalogTileParameter":
            raise TypeError("create_array(): incompatible function arguments")
        return t


class FloatParamBase(ParamBase):
    def create_array(self, x_size, d_size):
        t = CLASS["FloatingPointTile"](x_size, d_size)
        t._pars = self
        return t


CLASS = {}
CALLS = []


def _is2(w, d, x):
    return w.dim() == 2 and tuple(w.shape) == (d, x)


def cxx_enum(v):
    from . import cc
    n = v.cxx.split("::")
    return cc.enum(n[-2])[n[-1]]


class FloatingPointTile:
    """ideal tile"""
    _fb = None
    _fb_test = None
    def __init__(self, x_size, d_size):
        self._x, self._d = int(x_size), int(d_size)
        self._w = torch.zeros(self._d, self._x)
        self._shared = False
        self._delta = None
        self._lr = 0.0
        self._idx = None
        self._hidden_names = []
        self._hidden = torch.zeros(0, self._d, self._x)
        self._hidden_idx = 0
        self._extra = {"rpu.ctr": [0.0]}
        self._pars = None
        self._device = None
        self._calls = []
        self._on_forward = None

    # -- info
    def __str__(self):
        return "Tile[%d,%d]" % (self._d, self._x)
    get_info = get_brief_info = __str__

    def get_meta_parameters(self):
        return self._pars

    def get_x_size(self):
        return self._x

    def get_d_size(self):
        return self._d

    def get_learning_rate(self):
        return self._lr

    def set_learning_rate(self, learning_rate):
        self._calls.append(("set_learning_rate", learning_rate))
        self._lr = learning_rate

    def set_verbosity_level(self, verbose):
        pass

    # -- weights
    def get_weights(self):
        return self._w.detach().clone()

    def _check(self, w, what="weights"):
        if not _is2(w, self._d, self._x):
            raise RuntimeError("Invalid %s dimensions: expected [%d,%d] tensor" % (what, self._d, self._x))

    def set_weights(self, weights):
        self._check(weights)
        self._calls.append(("set_weights",))
        self._store(weights.detach().clone())

    def _store(self, w):
        if self._shared:
            self._w.copy_(w)
        else:
            self._w = w

    def set_shared_weights(self, weights):
        self._check(weights)
        if not weights.is_contiguous():
            raise RuntimeError("weights must be contiguous")
        weights.copy_(self._w)
        self._w = weights
        self._shared = True

    def get_shared_weights_if(self):
        return self._shared

    def set_delta_weights(self, delta_weights):
        self._check(delta_weights, "delta weights")
        self._delta = delta_weights

    def reset_delta_weights(self):
        self._delta = None

    def set_weights_uniform_random(self, min_value, max_value):
        self._calls.append(("set_weights_uniform_random", min_value, max_value))
        self._store(torch.empty(self._d, self._x).uniform_(min_value, max_value))

    # -- state
    def dump_extra(self):
        return {k: list(v) for k, v in self._extra.items()}

    def load_extra(self, state, strict):
        self._calls.append(("load_extra", strict))
        if strict:
            for k in self._extra:
                if k not in state:
                    raise RuntimeError("key %s not found" % k)
        for k in self._extra:
            if k in state:
                self._extra[k] = list(state[k])

    def get_hidden_parameter_names(self):
        return list(self._hidden_names)

    def get_hidden_parameters(self):
        if not self._hidden_names:
            return torch.empty(0)
        return self._hidden.detach().clone()

    def set_hidden_parameters(self, hidden_parameters):
        if not self._hidden_names:
            return
        if tuple(hidden_parameters.shape) != (len(self._hidden_names), self._d, self._x):
            raise RuntimeError("Hidden parameter shape mismatch!")
        self._calls.append(("set_hidden_parameters",))
        self._hidden = hidden_parameters.detach().clone()

    def get_hidden_update_index(self):
        return self._hidden_idx

    def set_hidden_update_index(self, idx):
        self._calls.append(("set_hidden_update_index", idx))
        self._hidden_idx = idx

    def get_pulse_counters(self):
        return torch.zeros(0)

    # -- weight processing: the C++ functions themselves when they were built, else only recorded
    def _cc(self, kernel, ints, reals):
        from . import cc
        if not cc._lib:
            return None
        out, iout = cc.run(kernel, ints, reals)
        return out.to(self._w.dtype) if out.dtype != self._w.dtype else out, iout

    def decay_weights(self, alpha=1.0):
        self._calls.append(("decay_weights", alpha))

    def drift_weights(self, time_since_last_call):
        self._calls.append(("drift_weights", time_since_last_call))

    def clip_weights(self, weight_clipper_params):
        self._calls.append(("clip_weights", weight_clipper_params))
        p = weight_clipper_params
        r = self._cc("clip", [cxx_enum(p.type), self._x, self._d, 0], [p.fixed_value, p.sigma, self._w])
        if r:
            self._store(r[0].reshape(self._d, self._x))

    def remap_weights(self, weight_remap_params, scales):
        if scales.dim() != 1 or scales.numel() != self._d:
            raise RuntimeError("Invalid scales dimensions")
        self._calls.append(("remap_weights", weight_remap_params, scales))
        p = weight_remap_params
        z = torch.zeros(self._d)
        r = self._cc("remap", [cxx_enum(p.type), self._x, self._d, 0, 1],
                     [p.max_scale_range, p.max_scale_ref, 1.0, p.remapped_wmax, self._w, scales, z])
        if r:
            n = self._d * self._x
            self._store(r[0][:n].reshape(self._d, self._x))
            scales.copy_(r[0][n:n + self._d])
        return scales

    def modify_weights(self, weight_modifier_params):
        self._calls.append(("modify_weights", weight_modifier_params))
        p = weight_modifier_params
        r = self._cc("modify", [cxx_enum(p.type), self._x, self._d, 0, p.sto_round, p.copy_last_column, p.rel_to_actual_wmax,
                                p.enable_during_test, p.per_batch_sample, len(p.coeffs)],
                     [p.std_dev, p.res, p.dorefa_clip, p.pdrop, p.assumed_wmax, p.g_max] + list(p.coeffs) + [self._w])
        if r:
            n = self._d * self._x
            self._fb = r[0][:n].reshape(self._d, self._x)
            self._fb_test = r[0][2 * n:].reshape(self._d, self._x)

    def diffuse_weights(self):
        self._calls.append(("diffuse_weights",))

    def reset_columns(self, start_column_idx=0, num_columns=1, reset_prob=1.0):
        self._calls.append(("reset_columns", start_column_idx, num_columns, reset_prob))

    # -- products
    def _cat_one(self, x, bias):
        """x [n, x_size - bias] -> [n, x_size]"""
        if bias:
            return torch.cat([x, torch.ones(x.shape[0], 1, dtype=x.dtype)], -1)
        return x

    @staticmethod
    def _rows(x, trans):
        """-> [n, size], batch shape"""
        if trans:
            size = x.shape[0]
            rest = tuple(x.shape[1:])
            n = 1
            for r in rest:
                n *= r
            return x.reshape(size, n).t(), rest
        rest = tuple(x.shape[:-1])
        n = 1
        for r in rest:
            n *= r
        return x.reshape(n, x.shape[-1]), rest

    @staticmethod
    def _unrows(y, rest, trans):
        if trans:
            return y.t().reshape(y.shape[1], *rest)
        return y.reshape(*rest, y.shape[1])

    def forward(self, x_input, bias=False, x_trans=False, d_trans=False, is_test=False, non_blocking=False):
        x, rest = self._rows(x_input, x_trans)
        self._calls.append(("forward", x_input, bias, x_trans, d_trans, is_test))
        if x.shape[1] != self._x - int(bool(bias)):
            raise RuntimeError("Invalid x_input dimensions")
        w = self._w if self._fb is None else self._fb_test if is_test else self._fb
        y = torch.matmul(self._cat_one(x, bias), w.t())
        if self._on_forward is not None:
            y = self._on_forward(y)
        return self._unrows(y, rest, d_trans)

    def backward(self, d_input, bias=False, d_trans=False, x_trans=False, non_blocking=False):
        d, rest = self._rows(d_input, d_trans)
        self._calls.append(("backward", d_input, bias, d_trans, x_trans))
        if d.shape[1] != self._d:
            raise RuntimeError("Invalid d_input dimensions")
        y = torch.matmul(d, self._w if self._fb is None else self._fb)
        if bias:
            y = y[:, :-1]
        return self._unrows(y, rest, x_trans)

    def _upd(self, x, d):
        g = torch.matmul(d.t(), x)
        if self._delta is not None:
            self._delta.copy_(g)      # beta 0, learning rate -1 (RPUSimple::getAlphaLearningRate, getUpBeta)
            return
        self._w_add(g * (-1.0 * self._lr))

    def _w_add(self, g):
        if self._shared:
            self._w.add_(g)
        else:
            self._w = self._w + g

    def update(self, x_input, d_input, bias, x_trans=False, d_trans=False, non_blocking=False):
        x, _ = self._rows(x_input, x_trans)
        d, _ = self._rows(d_input, d_trans)
        self._calls.append(("update", x_input, d_input, bias, x_trans, d_trans))
        if x.shape[1] != self._x - int(bool(bias)) or d.shape[1] != self._d or x.shape[0] != d.shape[0]:
            raise RuntimeError("Invalid update dimensions")
        self._upd(self._cat_one(x, bias), d)

    # -- indexed products
    def set_matrix_indices(self, indices):
        if indices.dtype != torch.int32:
            raise RuntimeError("expected scalar type Int")
        if not indices.is_contiguous():
            raise RuntimeError("indices must be contiguous")
        self._calls.append(("set_matrix_indices", indices))
        self._idx = indices

    def has_matrix_indices(self):
        return self._idx is not None

    def _gather(self, x_input, image):
        n = x_input.shape[0]
        flat = x_input.reshape(n, -1)
        idx = self._idx.reshape(-1)
        if idx.numel() < self._x * image:
            raise IndexError("index matrix has %d entries, %d are read" % (idx.numel(), self._x * image))
        idx = idx[:self._x * image]
        idx = idx.to(torch.int64).numpy() if not hasattr(idx, "_d") else _conc_idx(idx)
        if idx.min() < 0 or idx.max() - 2 >= flat.shape[1]:
            raise IndexError("index outside of the image")
        ext = torch.cat([torch.zeros(n, 1, dtype=flat.dtype), torch.ones(n, 1, dtype=flat.dtype), flat], 1)
        cols = ext[:, torch.from_numpy(idx)]                    # n, x*image
        cols = cols.reshape(n, self._x, image)
        return cols.permute(0, 2, 1).reshape(n * image, self._x), idx, flat

    def forward_indexed(self, x_input, d_tensor, is_test=False, non_blocking=False):
        n = x_input.shape[0]
        image = d_tensor.numel() // d_tensor.shape[0] // d_tensor.shape[1]
        if d_tensor.shape[0] != n or d_tensor.shape[1] != self._d:
            raise IndexError("d_tensor has the wrong shape")
        self._calls.append(("forward_indexed", x_input, is_test))
        cols, _, _ = self._gather(x_input, image)
        y = torch.matmul(cols, self._w.t())                      # n*image, d
        y = y.reshape(n, image, self._d).permute(0, 2, 1).reshape(tuple(d_tensor.shape))
        return y

    def backward_indexed(self, d_input, x_tensor, non_blocking=False):
        n = d_input.shape[0]
        image = d_input.numel() // n // d_input.shape[1]
        if x_tensor.shape[0] != n or d_input.shape[1] != self._d:
            raise IndexError("wrong shape")
        self._calls.append(("backward_indexed", d_input))
        d = d_input.reshape(n, self._d, image).permute(0, 2, 1).reshape(n * image, self._d)
        g = torch.matmul(d, self._w).reshape(n, image, self._x).permute(0, 2, 1).reshape(n, self._x * image)
        idx = self._idx.reshape(-1)
        if idx.numel() < self._x * image:
            raise IndexError("index matrix size")
        idx = idx[:self._x * image]
        idx = idx.to(torch.int64).numpy() if not hasattr(idx, "_d") else _conc_idx(idx)
        size = x_tensor.numel() // n
        if idx.min() < 0 or idx.max() - 2 >= size:
            raise IndexError("index outside of the image")
        cols = [torch.zeros(n, dtype=g.dtype) for _ in range(size)]
        for k, j in enumerate(idx):
            if j >= 2:
                cols[int(j) - 2] = cols[int(j) - 2] + g[:, k]
        return torch.stack(cols, 1).reshape(tuple(x_tensor.shape))

    def update_indexed(self, x_input, d_input, non_blocking=False):
        n = d_input.shape[0]
        image = d_input.numel() // n // d_input.shape[1]
        self._calls.append(("update_indexed", x_input, d_input))
        cols, _, _ = self._gather(x_input, image)
        d = d_input.reshape(n, self._d, image).permute(0, 2, 1).reshape(n * image, self._d)
        self._upd(cols, d)

    def __deepcopy__(self, memo):
        n = type(self)(self._x, self._d)
        n.__dict__.update(self.__dict__)
        n._w = self._w.detach().clone()
        n._shared = False
        n._delta = None
        n._hidden = self._hidden.detach().clone()
        n._hidden_names = list(self._hidden_names)
        n._extra = {k: list(v) for k, v in self._extra.items()}
        n._calls = []
        n._idx = self._idx.clone() if self._idx is not None else None
        memo[id(self)] = n
        return n
    def __copy__(self):
        return self.__deepcopy__({})

    def __reduce__(self):
        raise TypeError("cannot pickle '%s' object" % type(self).__name__)


def _conc_idx(t):
    import numpy as np
    return np.array([int(str(x.args[0] if hasattr(x, "args") and x.args else x)) for x in t._d.reshape(-1)])


class AnalogTile(FloatingPointTile):
    pass


CLASS.update(FloatingPointTile=FloatingPointTile, AnalogTile=AnalogTile)
CLASSES, ENUMS = {}, {}


def install():
    global CLASSES, ENUMS
    CLASSES, ENUMS = parse_bindings()
    base = types.ModuleType("aihwkit.simulator.rpu_base")
    mods = {}
    for sub in ("devices", "tiles", "cuda"):
        m = types.ModuleType("aihwkit.simulator.rpu_base." + sub)
        mods[sub] = m
        setattr(base, sub, m)
        sys.modules[m.__name__] = m
    sys.modules[base.__name__] = base
    mods["cuda"].is_compiled = lambda: False
    by_cxx = {}

    def norm(t):
        return re.sub(r"\s|RPU::|<T(?:_RPU)?>|MetaParameter|Param$|RPUDevice", "", t)
    alias = {}
    for fn in ("rpu_base_devices.cpp",):
        for m in re.finditer(r"using\s+(\w+)\s*=\s*([^;]+);", _read(fn)):
            alias[m.group(1)] = m.group(2).strip()

    def canon(t):
        t = t.strip()
        return re.sub(r"\s", "", alias.get(t, t))
    for name, info in CLASSES.items():
        by_cxx[canon(info["cxx"])] = name
    for name, info in CLASSES.items():
        allf = dict(info["fields"])
        todo = list(info["bases"])
        while todo:
            b = by_cxx.get(canon(todo.pop()))
            if b:
                for k, v in CLASSES[b]["fields"].items():
                    allf.setdefault(k, v)
                todo += CLASSES[b]["bases"]
        info["all_fields"] = allf
        if name in CLASS:
            c = CLASS[name]
        else:
            c = type(name, (FloatParamBase if name == "FloatingPointTileParameter" else ParamBase,),
                     {"_fields": allf, "_pyname": name})
            CLASS[name] = c
        c.__module__ = "aihwkit.simulator.rpu_base." + info["module"]
        c.__qualname__ = name
        setattr(mods[info["module"]], name, c)
    for c in (FloatingPointTile, AnalogTile):
        setattr(mods["tiles"], c.__name__, c)
    for name, info in ENUMS.items():
        e = types.SimpleNamespace()
        for k, v in info["values"].items():
            setattr(e, k, StubEnumValue(name, k, v))
        setattr(mods[info["module"]], name, e)
    for sub in ("devices", "tiles"):
        m = types.ModuleType("aihwkit.simulator.rpu_base.%s.double" % sub)
        m.__dict__.update({k: v for k, v in mods[sub].__dict__.items() if not k.startswith("_")})
        mods[sub].double = m
    return base
