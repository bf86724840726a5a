"""Discharging obligations: rational-function normaliser, z3, cvc5."""
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # interpreter of the project: take only the solver from the tool venv
    sys.path.append(_VT)
    import z3

from . import term as T
from .term import Term

sys.setrecursionlimit(100000)

stats = {"z3": 0, "normaliser": 0, "cvc5": 0, "const": 0, "time": 0.0, "queries": 0}

# ---------------------------------------------------------------- polynomial normal form
_atoms = {}        # key -> index
_atom_info = []    # index -> (term or None, poly or None for 'poly' atoms)


def _atom(key, info):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_info)
        _atoms[key] = i
        _atom_info.append(info)
    return i


class Poly:
    """dict monomial -> Fraction; monomial = tuple of (atom, exponent) sorted."""
    __slots__ = ("m", "key", "side")

    def __init__(self, m, side=frozenset()):
        self.m = m
        self.key = None
        self.side = side     # set of ('nz', polykey) / ('ge0', ...) terms used

    def k(self):
        if self.key is None:
            self.key = frozenset(self.m.items())
        return self.key


class TooBig(Exception):
    pass


def _madd(a, b):
    m = dict(a.m)
    for k, v in b.m.items():
        w = m.get(k, 0) + v
        if w:
            m[k] = w
        else:
            m.pop(k, None)
    return Poly(m, a.side | b.side)


def _mono_mul(x, y, sides):
    d = dict(x)
    for a, e in y:
        n = d.get(a, 0)
        if n and (n > 0) != (e > 0):
            sides.add(("nz", a))
        n += e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    # sqrt(x)^2 -> handled by caller through reduction; abs(x)^2 likewise
    return tuple(sorted(d.items()))


def _reduce_sq(mono):
    for a, e in mono:
        if e >= 2:
            t = _atom_info[a][0]
            if t is not None and (t.op == "abs" or (t.op == "uf" and t.val == "sqrt")):
                return a, e, t
    return None


def _mmul(a, b):
    if len(a.m) * len(b.m) > 4000:
        raise TooBig()
    m = {}
    sides = set()
    pend = []
    for k1, v1 in a.m.items():
        for k2, v2 in b.m.items():
            k = _mono_mul(k1, k2, sides)
            r = _reduce_sq(k)
            if r is not None:
                pend.append((k, v1 * v2, r))
                continue
            w = m.get(k, 0) + v1 * v2
            if w:
                m[k] = w
            else:
                m.pop(k, None)
    out = Poly(m, a.side | b.side | frozenset(sides))
    for k, v, (at, e, t) in pend:
        rest = tuple((x, y) if x != at else (x, e % 2) for x, y in k if x != at or e % 2)
        base = poly(t.args[0])
        sq = _mmul(base, base) if t.op == "abs" else base
        if t.op == "uf":
            sq = Poly(sq.m, sq.side | frozenset([("ge0", t.args[0])]))
        p = Poly({rest: v})
        for _ in range(e // 2):
            p = _mmul(p, sq)
        out = _madd(out, p)
    return out


def _const_poly(v):
    return Poly({(): Fraction(v)} if v else {})


def _scale_norm(p):
    """(scale, normalised poly with leading coefficient +-1 kept sign)."""
    if not p.m:
        return Fraction(1), p
    lead = min(p.m)  # deterministic
    c = abs(p.m[lead])
    return c, Poly({k: v / c for k, v in p.m.items()}, p.side)


def poly(t):
    if t._poly is not None:
        return t._poly
    o = t.op
    if o == "c":
        p = _const_poly(t.val)
    elif o == "v":
        p = Poly({((_atom(("v", t.val, t.sort), (t, None)), 1),): Fraction(1)})
    elif o == "+":
        p = _madd(poly(t.args[0]), poly(t.args[1]))
    elif o == "*":
        p = _mmul(poly(t.args[0]), poly(t.args[1]))
    elif o == "toreal":
        p = poly(t.args[0])
    elif o == "inv":
        q = poly(t.args[0])
        if len(q.m) == 1:
            (mono, c), = q.m.items()
            p = Poly({tuple((a, -e) for a, e in mono): 1 / c}, q.side)
        elif not q.m:
            p = Poly({((_atom(("inv0",), (t, None)), 1),): Fraction(1)})
        else:
            c, n = _scale_norm(q)
            sgn = 1 if n.m[min(n.m)] > 0 else -1
            if sgn < 0:
                n = Poly({k: -v for k, v in n.m.items()}, n.side)
            a = _atom(("poly", n.k()), (None, n))
            p = Poly({((a, -1),): sgn / c}, q.side)
    elif o in ("floor", "round") and int_valued(poly(t.args[0])):
        p = poly(t.args[0])
    else:
        key, side = atomkey(t)
        p = Poly({((_atom(key, (t, None)), 1),): Fraction(1)}, side)
    t._poly = p
    return p


def int_valued(p):
    """integer combination of products of integer valued atoms"""
    for mono, c in p.m.items():
        if c.denominator != 1:
            return False
        for at, e in mono:
            t = _atom_info[at][0]
            if e < 0 or t is None or t.sort != "I":
                return False
    return True


def atomkey(t):
    """canonical key of a non-polynomial term (also used for booleans)"""
    side = frozenset()
    if t.op in ("c", "v"):
        return (t.op, t.val, t.sort), side
    if t.op in ("<=", "=") and t.args[0].sort in "RI":
        p = _madd(poly(t.args[1]), _mmul(_const_poly(-1), poly(t.args[0])))
        _, n = _scale_norm(p)
        if t.op == "=" and n.m and n.m[min(n.m)] < 0:
            n = Poly({k: -v for k, v in n.m.items()}, n.side)
        return (t.op, n.k()), n.side
    ks = []
    for a in t.args:
        if a.sort == "B":
            k, s = atomkey(a)
            ks.append(k)
            side |= s
        else:
            p = poly(a)
            if t.op == "abs" and p.m and p.m[min(p.m)] < 0:
                p = Poly({k: -v for k, v in p.m.items()}, p.side)
            ks.append(p.k())
            side |= p.side
    return (t.op, t.val, t.sort, tuple(ks)), side


def _clear(p):
    """multiply away negative exponents of 'poly' atoms (side conditions recorded)."""
    for _ in range(12):
        need = {}
        for mono in p.m:
            for a, e in mono:
                if e < 0:
                    need[a] = max(need.get(a, 0), -e)
        if not need:
            return p
        f = Poly({(): Fraction(1)})
        side = set()
        for a, e in need.items():
            side.add(("nz", a))
            f = _mmul(f, Poly({((a, e),): Fraction(1)}))
        q = {}
        for mono, c in p.m.items():
            d = dict(mono)
            for a, e in need.items():
                d[a] = d.get(a, 0) + e
            q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        # expand positive powers of poly atoms
        out = Poly({}, p.side | frozenset(side))
        for mono, c in q.items():
            r = Poly({(): c})
            for a, e in mono:
                n = _atom_info[a][1]
                b = n if n is not None else Poly({((a, 1),): Fraction(1)})
                for _ in range(e):
                    r = _mmul(r, b)
            out = _madd(out, r)
        p = out
    return p


def norm_eq(a, b):
    """Try to show a == b as rational functions.  Returns list of side conditions
    (terms) under which it holds, or None."""
    try:
        p = _madd(poly(a), _mmul(_const_poly(-1), poly(b)))
        if p.m:
            p = _clear(p)
    except TooBig:
        return None
    if p.m:
        return None
    conds = []
    for kind, x in p.side:
        if kind == "nz":
            tt = _atom_info[x][0]
            if tt is None:
                tt = poly_to_term(_atom_info[x][1])
            conds.append(T.ne(tt, T.const(0, tt.sort)))
        else:
            conds.append(T.ge(x, T.real(0)))
    return conds


def poly_to_term(p):
    s = T.real(0)
    for mono, c in p.m.items():
        t = T.real(c)
        for a, e in mono:
            b = _atom_info[a][0]
            if b is None:
                b = poly_to_term(_atom_info[a][1])
            b = T.toreal(b)
            if e < 0:
                b = T.inv(b)
            for _ in range(abs(e)):
                t = T.mul(t, b)
        s = T.add(s, t)
    return s


def clear_caches():
    _atoms.clear()
    del _atom_info[:]


# ---------------------------------------------------------------- z3 translation
class Z3Ctx:
    def __init__(self):
        self.cache = {}
        self.ufs = {}
        self.apps = {}
        self.axioms = []
        self.funs = {}

    def fun(self, name, args, sort):
        key = (name, tuple(a.sort for a in args), sort)
        f = self.funs.get(key)
        if f is None:
            so = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
            f = z3.Function(name + "".join(a.sort for a in args), *[so[a.sort] for a in args], so[sort])
            self.funs[key] = f
        return f

    def tr(self, t):
        c = self.cache
        r = c.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in c:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in c]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            c[x.id] = self.one(x, [c[a.id] for a in x.args])
        return c[t.id]

    def one(self, x, a):
        o = x.op
        if o == "c":
            if x.sort == "R":
                return z3.RealVal(str(x.val))
            if x.sort == "I":
                return z3.IntVal(x.val)
            return z3.BoolVal(x.val)
        if o == "v":
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[x.sort](x.val)
        if o == "+":
            return a[0] + a[1]
        if o == "*":
            # keep divisions as divisions
            if x.args[1].op == "inv":
                return a[0] / self.cache[x.args[1].args[0].id]
            if x.args[0].op == "inv":
                return a[1] / self.cache[x.args[0].args[0].id]
            return a[0] * a[1]
        if o == "inv":
            return z3.RealVal(1) / a[0]
        if o == "toreal":
            return z3.ToReal(a[0])
        if o == "idiv":
            return a[0] / a[1]
        if o == "imod":
            return a[0] % a[1]
        if o == "floor":
            return z3.ToInt(a[0])
        if o == "round":
            f = self.fun("round", x.args, "I")
            r = f(a[0])
            rr = z3.ToReal(r)
            h = z3.Q(1, 2)
            self.axioms.append((x, z3.And(a[0] - rr <= h, rr - a[0] <= h)))
            return r
        if o == "ite":
            return z3.If(a[0], a[1], a[2])
        if o == "<=":
            return a[0] <= a[1]
        if o == "=":
            return a[0] == a[1]
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(*a)
        if o == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if o == "uf":
            r = self.fun(x.val, x.args, x.sort)(*a)
            self.uf_axioms(x, r, a)
            return r
        raise KeyError(o)

    def uf_axioms(self, x, r, a):
        n = x.val
        if n not in ("exp", "log", "sqrt", "pow", "tanh", "sigmoid"):
            return
        prev = self.apps.setdefault(n, [])
        ax = self.axioms
        if n == "exp":
            ax.append((x, z3.And(r > 0, (a[0] >= 0) == (r >= 1), (a[0] <= 0) == (r <= 1), r >= 1 + a[0])))
            for b, s in prev[:12]:
                ax.append((x, (a[0] <= b[0]) == (r <= s)))
            for b, s in self.apps.get("log", ()):
                if s.eq(a[0]):
                    ax.append((x, z3.Implies(b[0] > 0, r == b[0])))
        elif n == "log":
            ax.append((x, z3.Implies(a[0] > 0, z3.And((a[0] >= 1) == (r >= 0), (a[0] <= 1) == (r <= 0), r <= a[0] - 1))))
            for b, s in prev[:12]:
                ax.append((x, z3.Implies(z3.And(a[0] > 0, b[0] > 0), (a[0] <= b[0]) == (r <= s))))
        elif n == "sqrt":
            ax.append((x, z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0]))))
            for b, s in prev[:8]:
                ax.append((x, z3.Implies(z3.And(a[0] >= 0, b[0] >= 0), (a[0] <= b[0]) == (r <= s))))
        elif n == "tanh":
            ax.append((x, z3.And(r < 1, r > -1, (a[0] >= 0) == (r >= 0), (a[0] <= 0) == (r <= 0))))
        elif n == "sigmoid":
            ax.append((x, z3.And(r < 1, r > 0)))
        elif n == "pow":
            b_, e_ = a
            ax.append((x, z3.Implies(b_ > 0, r > 0)))
            ax.append((x, z3.Implies(z3.Or(e_ == 0, b_ == 1), r == 1)))
            ax.append((x, z3.Implies(e_ == 1, r == b_)))
            ax.append((x, z3.Implies(z3.And(b_ >= 0), r >= 0)))
            ax.append((x, z3.Implies(z3.And(b_ >= 1, e_ >= 0), r >= 1)))
            ax.append((x, z3.Implies(z3.And(b_ >= 1, e_ <= 0), r <= 1)))
            ax.append((x, z3.Implies(z3.And(b_ > 0, b_ <= 1, e_ >= 0), r <= 1)))
            ax.append((x, z3.Implies(z3.And(b_ > 0, b_ <= 1, e_ <= 0), r >= 1)))
            ax.append((x, z3.Implies(z3.And(b_ == 0, e_ > 0), r == 0)))
        prev.append((a, r))


def _relevant(assumptions, goal):
    if goal.op == "c":
        return list(assumptions)
    vs = set(T.free_vars(goal))
    rest = [(a, T.free_vars(a)) for a in assumptions]
    picked = []
    changed = True
    while changed:
        changed = False
        nr = []
        for a, v in rest:
            if not v or (v & vs):
                picked.append(a)
                vs |= v
                changed = True
            else:
                nr.append((a, v))
        rest = nr
    return picked


def _model_values(m, vars_):
    out = {}
    for v in vars_:
        if v.sort == "R":
            x = m.eval(z3.Real(v.val), model_completion=True)
            if z3.is_rational_value(x):
                out[v] = Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                y = x.approx(30)
                out[v] = Fraction(y.numerator_as_long(), y.denominator_as_long())
            else:
                out[v] = Fraction(0)
        elif v.sort == "I":
            x = m.eval(z3.Int(v.val), model_completion=True)
            out[v] = x.as_long() if z3.is_int_value(x) else 0
        else:
            out[v] = z3.is_true(m.eval(z3.Bool(v.val), model_completion=True))
    return out


def check_sat(formulas, timeout_ms=5000, want_model=True):
    """('sat', model) / ('unsat', None) / ('unknown', reason)"""
    fs = [f for f in formulas if f is not T.TRUE]
    if any(f is T.FALSE for f in fs):
        return "unsat", None
    t0 = time.time()
    stats["queries"] += 1
    cx = Z3Ctx()
    zs = [cx.tr(f) for f in fs]
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*zs)
    s.add(*[a for _, a in cx.axioms])
    r = s.check()
    res = ("unknown", "z3: " + s.reason_unknown() if r == z3.unknown else "")
    if r == z3.unsat:
        res = ("unsat", None)
    elif r == z3.sat:
        vs = set()
        for f in fs:
            vs |= T.free_vars(f)
        res = ("sat", _model_values(s.model(), vs) if want_model else None)
    stats["time"] += time.time() - t0
    return res


def _cvc5(formulas, timeout_ms):
    cx = Z3Ctx()
    s = z3.Solver()
    s.add(*[cx.tr(f) for f in formulas])
    s.add(*[a for _, a in cx.axioms])
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


_simp_cache = {}


def decide_const(t):
    """boolean term -> True/False if decided by cheap normalisation, else None."""
    if t.op == "c":
        return bool(t.val)
    if t.op == "not":
        r = decide_const(t.args[0])
        return None if r is None else not r
    if t.op == "and":
        rs = [decide_const(a) for a in t.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if t.op in ("=", "<=") and t.args[0].sort in "RI":
        try:
            p = _madd(poly(t.args[1]), _mmul(_const_poly(-1), poly(t.args[0])))
        except TooBig:
            return None
        if p.side:
            return None
        if not p.m:
            return True
        if len(p.m) == 1 and () in p.m:
            return False if t.op == "=" else p.m[()] >= 0
    return None


def prove(assumptions, goal, timeout_ms=8000, use_cvc5=True):
    """('proved', backend) | ('refuted', model) | ('unknown', reason)"""
    if goal is T.TRUE:
        stats["const"] += 1
        return "proved", "simplifier"
    if goal.op == "and":
        bk = []
        for g in goal.args:
            r = prove(assumptions, g, timeout_ms, use_cvc5)
            if r[0] != "proved":
                return r
            bk.append(r[1])
        return "proved", bk[-1]
    if assumptions and has_ite(goal):
        g = T.substitute(goal, literals(assumptions, goal))
        if g is not goal:
            r = prove(assumptions, g, timeout_ms, use_cvc5)
            return r
    if goal.op == "=" and goal.args[0].sort in "RI":
        conds = norm_eq(goal.args[0], goal.args[1])
        if conds is not None:
            ok = True
            for c in conds:
                d = decide_const(c)
                if d:
                    continue
                st, _ = check_sat(_relevant(assumptions, c) + [T.not_(c)], timeout_ms)
                if st != "unsat":
                    ok = False
                    break
            if ok:
                stats["normaliser"] += 1
                return "proved", "rational normaliser"
    d = decide_const(goal)
    if d is True:
        stats["normaliser"] += 1
        return "proved", "rational normaliser"
    fs = _relevant(assumptions, goal) + [T.not_(goal)]
    st, m = check_sat(fs, min(timeout_ms, 1500))
    if st == "unsat":
        stats["z3"] += 1
        return "proved", "z3"
    if st == "sat":
        return "refuted", m
    if has_ite(goal):
        r = split_prove(assumptions, goal, time.time() + timeout_ms / 1000.0 * 2)
        if r == "proved":
            stats["split"] = stats.get("split", 0) + 1
            return "proved", "case split + rational normaliser/z3"
        if isinstance(r, tuple):
            return r
    if timeout_ms > 1500:
        st, m = check_sat(fs, timeout_ms)
        if st == "unsat":
            stats["z3"] += 1
            return "proved", "z3"
        if st == "sat":
            return "refuted", m
    if use_cvc5:
        t0 = time.time()
        r = _cvc5(fs, timeout_ms)
        stats["time"] += time.time() - t0
        if r == "unsat":
            stats["cvc5"] += 1
            return "proved", "cvc5"
    return "unknown", m or "solver gave up"


def literals(assumptions, goal):
    """truth values of the atoms decided by the assumptions"""
    out = {}
    for a in assumptions:
        todo = [a]
        while todo:
            x = todo.pop()
            if x.op == "and":
                todo += x.args
            elif x.op == "not":
                y = x.args[0]
                out[y] = T.FALSE
                if y.op == "<=":
                    z = T.le(y.args[1], y.args[0])
                    if z.op == "<=":
                        out.setdefault(z, T.TRUE)
            elif x.op in ("<=", "=", "v") and x.sort == "B":
                out[x] = T.TRUE
    seen, todo = set(), [goal]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "abs":
            y = x.args[0]
            n = T.neg(y)
            for c, v in ((T.le(T.ZERO, y), y), (T.le(n, T.ZERO), y), (T.le(y, T.ZERO), n), (T.le(T.ZERO, n), n)):
                k = out.get(c)
                if k is T.TRUE:
                    out[x] = v
                elif k is T.FALSE:
                    out[x] = n if v is y else y
        todo += x.args
    return out


_ite_cache = {}


def has_ite(t):
    r = _ite_cache.get(t.id)
    if r is None:
        r = t.op == "abs" or (t.op == "ite" and t.sort != "B") or any(has_ite(a) for a in t.args)
        _ite_cache[t.id] = r
    return r


def _first_ite_cond(t, seen):
    """an innermost condition of a conditional below t"""
    if t.id in seen or not has_ite(t):
        return None
    seen.add(t.id)
    for a in t.args:
        r = _first_ite_cond(a, seen)
        if r is not None:
            return r
    if t.op == "ite" and t.sort != "B":
        c = t.args[0]
        while c.op in ("not", "and", "or"):
            c = c.args[0]
        return c
    return None


def split_prove(assumptions, goal, deadline, depth=0):
    if goal is T.TRUE:
        return "proved"
    if goal.op in ("and",):
        for g in goal.args:
            r = split_prove(assumptions, g, deadline, depth)
            if r != "proved":
                return r
        return "proved"
    if goal.op == "=" and goal.args[0].sort in "RI":
        conds = norm_eq(goal.args[0], goal.args[1])
        if conds is not None and all(
                decide_const(c) or check_sat(_relevant(assumptions, c) + [T.not_(c)], 1500, False)[0] == "unsat" for c in conds):
            return "proved"
    if decide_const(goal) is True:
        return "proved"
    if time.time() > deadline or depth > 24:
        return "unknown"
    c = _first_ite_cond(goal, set())
    if c is None:
        fs = _relevant(assumptions, goal) + [T.not_(goal)]
        st, m = check_sat(fs, 1500)
        if st == "unsat":
            return "proved"
        if st == "sat":
            return ("refuted", m)
        return "unknown"
    rel = _relevant(assumptions, c)
    d = decide_const(c)
    if d is None:
        d = _known(assumptions, c)
    can_t = d if d is not None else check_sat(rel + [c], 700, False)[0] != "unsat"
    can_f = (not d) if d is not None else (not can_t or check_sat(rel + [T.not_(c)], 700, False)[0] != "unsat")
    if can_t:
        g = T.substitute(goal, {c: T.TRUE})
        if can_f and c.op == "<=" and c.args[0].op in ("v", "abs") and c.args[1].op != "c":
            rev = T.le(c.args[1], c.args[0])
            if any(x is rev for x in assumptions):
                g = T.substitute(g, {c.args[0]: c.args[1]})
        r = split_prove(assumptions + [c] if can_f else assumptions, g, deadline, depth + 1)
        if r != "proved":
            return r
    if can_f:
        r = split_prove(assumptions + [T.not_(c)] if can_t else assumptions, T.substitute(goal, {c: T.FALSE}), deadline, depth + 1)
        if r != "proved":
            return r
    return "proved"


def _positive_atoms(assumptions):
    out = set()
    for a in assumptions:
        if a.op == "not" and a.args[0].op == "<=":
            x, y = a.args[0].args
            if y.op == "c" and y.val >= 0 and x.op == "v":
                out.add(_atom(("v", x.val, x.sort), (x, None)))
    return out


def _le_key(t, pos):
    """key of a comparison with positive common factors removed: (key, negated)"""
    try:
        p = _madd(poly(t.args[1]), _mmul(_const_poly(-1), poly(t.args[0])))
    except TooBig:
        return None
    if not p.m:
        return None
    if pos:
        exps = {}
        for at in pos:
            exps[at] = min(dict(m).get(at, 0) for m in p.m)
        q = {}
        for mono, c in p.m.items():
            d = dict(mono)
            for at, e in exps.items():
                if e:
                    n = d.get(at, 0) - e
                    if n:
                        d[at] = n
                    else:
                        d.pop(at, None)
            q[tuple(sorted(d.items()))] = c
        p = Poly(q)
    _, n = _scale_norm(Poly(p.m))
    return (t.op, n.k())


def _known(assumptions, c):
    if c.op not in ("<=", "=") or c.args[0].sort not in "RI":
        return None
    pos = _positive_atoms(assumptions)
    k = _le_key(c, pos)
    if k is None:
        return None
    for a in assumptions:
        neg = a.op == "not"
        b = a.args[0] if neg else a
        if b.op == c.op and b.args[0].sort in "RI" and _le_key(b, pos) == k:
            return not neg
    return None
